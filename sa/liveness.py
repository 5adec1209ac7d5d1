"""Live variables of a function, per statement (syntax-directed, backwards)."""
import ast


def _uses(node):
    return {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Load, ast.Del))}


def _defs(node):
    return {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}


class Liveness:
    """live_out[id(stmt)]: names that may be read after the statement."""
    def __init__(self, fnode):
        self.live_out = {}
        self.always = set()
        for sub in ast.walk(fnode):
            if isinstance(sub, (ast.FunctionDef, ast.Lambda)) and sub is not fnode:
                self.always |= _uses(sub)
            elif isinstance(sub, (ast.Global, ast.Nonlocal)):
                self.always |= set(sub.names)
            elif isinstance(sub, ast.Try):
                for part in sub.handlers + sub.finalbody:
                    self.always |= _uses(part)
        self.block(fnode.body, set(), set(), set())

    def block(self, stmts, out, brk, cont):
        live = set(out)
        for st in reversed(stmts):
            self.live_out[id(st)] = self.live_out.get(id(st), set()) | live
            live = self.stmt(st, live, brk, cont)
        return live

    def stmt(self, st, out, brk, cont):
        if isinstance(st, (ast.Return, ast.Raise)):
            return _uses(st)
        if isinstance(st, ast.Break):
            return set(brk)
        if isinstance(st, ast.Continue):
            return set(cont)
        if isinstance(st, ast.If):
            a = self.block(st.body, out, brk, cont)
            b = self.block(st.orelse, out, brk, cont)
            return a | b | _uses(st.test)
        if isinstance(st, (ast.While, ast.For)):
            exit_live = self.block(st.orelse, out, brk, cont)
            head = _uses(st.test) if isinstance(st, ast.While) else set()
            tgt = _defs(st.target) if isinstance(st, ast.For) else set()
            live = exit_live | head
            while True:
                body = self.block(st.body, live, out, live)
                new = live | (body - tgt) | head
                if new == live:
                    break
                live = new
            return live | (_uses(st.iter) | _uses(st.target) if isinstance(st, ast.For) else set())
        if isinstance(st, ast.Try):
            fin = self.block(st.finalbody, out, brk, cont)
            after = fin | out
            orelse = self.block(st.orelse, after, brk, cont)
            live = self.block(st.body, orelse | after, brk, cont)
            for hnd in st.handlers:
                live |= self.block(hnd.body, after, brk, cont)
                if hnd.type is not None:
                    live |= _uses(hnd.type)
            return live
        if isinstance(st, ast.With):
            live = self.block(st.body, out, brk, cont)
            for item in st.items:
                live |= _uses(item.context_expr)
            return live
        if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
            return out | _uses(st)
        if isinstance(st, ast.AugAssign):
            return out | _uses(st) | _defs(st)
        if isinstance(st, (ast.Assign, ast.AnnAssign)):
            kill = set()
            for tgt in (st.targets if isinstance(st, ast.Assign) else [st.target]):
                if isinstance(tgt, ast.Name):
                    kill.add(tgt.id)
                elif isinstance(tgt, (ast.Tuple, ast.List)):
                    kill |= {e.id for e in tgt.elts if isinstance(e, ast.Name)}
            return (out - kill) | _uses(st)
        return out | _uses(st)
