"""Reaching definitions of the local names of a Python function, and what a name is made from."""
import ast

from sa.textflow import MUTATORS, Flow


class Def:
    __slots__ = ("name", "value", "env", "target")

    def __init__(self, name, value, target=False):
        self.name, self.value, self.target, self.env = name, value, target, {}


class Reach:
    """`env(stmt)`: {name: definitions that reach the statement}; a definition knows the ones that reach it."""
    def __init__(self, fi):
        self.fi = fi
        self.defs, self.at, self.targets = {}, {}, set()
        self.block(fi.node.body, {})

    @staticmethod
    def merge(*envs):
        out = {}
        for e in envs:
            for n, d in e.items():
                out[n] = out.get(n, frozenset()) | d
        return out

    def define(self, env, name, value, where, target=False, weak=False):
        key = (name, id(value), id(where), target)
        d = self.defs.get(key)
        if d is None:
            d = self.defs[key] = Def(name, value, target)
        d.env = self.merge(d.env, env)
        out = dict(env)
        out[name] = (env.get(name, frozenset()) if weak else frozenset()) | {d}
        if target:
            self.targets.add(name)
        return out

    def note(self, node, env):
        """The environment at NODE and everything in it that is not a statement of its own."""
        self.at[id(node)] = self.merge(self.at.get(id(node), {}), env)

    def stores(self, env, target, value, where, loop=False, weak=False):
        for n in ast.walk(target):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                env = self.define(env, n.id, value, where, loop, weak)
            elif isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, ast.Store):
                root = Flow.root(n)
                if root not in (None, 'self'):
                    env = self.define(env, root, value, where, False, True)
        return env

    def mutations(self, env, node):
        for n in ast.walk(node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
                root = Flow.root(n.func.value)
                if root not in (None, 'self'):
                    for a in n.args:
                        env = self.define(env, root, a, n, False, True)
            elif isinstance(n, ast.NamedExpr):
                env = self.define(env, n.target.id, n.value, n)
        return env

    def block(self, stmts, env):
        """The environment after; None when the end is not reached."""
        for s in stmts:
            if env is None:
                return None
            env = self.stmt(s, env)
        return env

    def stmt(self, s, env):
        self.note(s, env)
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            if s.value is None:
                return env
            env = self.mutations(env, s.value)
            for t in s.targets if isinstance(s, ast.Assign) else [s.target]:
                env = self.stores(env, t, s.value, s)
            return env
        if isinstance(s, ast.AugAssign):
            return self.stores(self.mutations(env, s.value), s.target, s.value, s, False, True)
        if isinstance(s, ast.If):
            env = self.mutations(env, s.test)
            a, b = self.block(s.body, env), self.block(s.orelse, env)
            return b if a is None else a if b is None else self.merge(a, b)
        if isinstance(s, (ast.For, ast.While)):
            return self.loop(s, env)
        if isinstance(s, ast.With):
            for item in s.items:
                if item.optional_vars is not None:
                    env = self.stores(env, item.optional_vars, item.context_expr, s)
            return self.block(s.body, env)
        if isinstance(s, ast.Try):
            a = self.block(s.body, env)
            mid = env if a is None else self.merge(env, a)
            ends = [self.block(s.orelse, a)] if a is not None else []
            ends += [self.block(h.body, mid) for h in s.handlers]
            ends = [e for e in ends if e is not None]
            got = self.merge(*ends) if ends else None
            if s.finalbody:
                last = self.block(s.finalbody, got if got is not None else mid)
                return last if got is not None else None
            return got
        if isinstance(s, (ast.Return, ast.Raise)):
            return None
        if isinstance(s, (ast.Continue, ast.Break)):
            if self.jumps:
                self.jumps[-1].append((isinstance(s, ast.Break), env))
            return None
        return self.mutations(env, s)

    jumps = ()

    def loop(self, s, env):
        if isinstance(s, ast.For):
            env = self.mutations(env, s.iter)
        outer = self.jumps
        head = env
        for _ in range(12):
            self.jumps = list(outer) + [[]]
            begin = self.stores(head, s.target, s.iter, s, True) if isinstance(s, ast.For) else self.mutations(head, s.test)
            end = self.block(s.body, begin)
            back = [e for brk, e in self.jumps[-1] if not brk] + ([end] if end is not None else [])
            new = self.merge(head, *back)
            if new == head:
                break
            head = new
        breaks = [e for brk, e in self.jumps[-1] if brk]
        self.jumps = outer
        out = self.merge(head, *breaks)
        if s.orelse:
            got = self.block(s.orelse, head)
            out = self.merge(*([got] if got is not None else []) + breaks) if got is not None or breaks else None
        return out

    # ---------------------------------------------------------------- questions
    def closure(self, names, stmt, stop=False):
        """The loop variables and parameters that NAMES at a statement are made from; with STOP not looking behind a loop variable."""
        env = self.at.get(id(stmt))
        out, seen = set(), set()
        todo = [(n, env) for n in names]
        while todo:
            n, e = todo.pop()
            if n in self.fi.params and n not in ('self', 'cls'):
                out.add(n)
            if e is None:               # a place that is not known
                ds = frozenset(d for k, d in self.defs.items() if k[0] == n)
            else:
                ds = e.get(n, frozenset())
            for d in ds:
                if d in seen:
                    continue
                seen.add(d)
                if d.target:
                    out.add(n)
                    if stop:
                        continue
                todo += [(x.id, d.env) for x in ast.walk(d.value) if isinstance(x, ast.Name)]
        return tuple(sorted(out))
