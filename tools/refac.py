#!/usr/bin/env python3
"""refac.py TRANSFORM [PROP ...]: rewrite all Python sources of a copy of /repo without changing what they do, and run the checks on it.

Every alarm is a false one.  'list' lists the transformations."""
import ast
import glob
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FUN = (ast.FunctionDef, ast.AsyncFunctionDef)
SCOPE = FUN + (ast.Lambda, ast.ClassDef, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)


def name(n, store=False):
    return ast.Name(id=n, ctx=ast.Store() if store else ast.Load())


class Blocks(ast.NodeTransformer):
    """Transforms statement lists: one(stmt) -> list of statements."""
    def __init__(self):
        self.num = 0

    def fresh(self, base):
        self.num += 1
        return "%s_%d" % (base, self.num)

    def generic_visit(self, node):
        super().generic_visit(node)
        for field in ('body', 'orelse', 'finalbody'):
            body = getattr(node, field, None)
            if isinstance(body, list) and body and self.inside(node):
                setattr(node, field, self.block(body))
        return node

    depth = 0

    def inside(self, node):
        return not isinstance(node, (ast.Module, ast.ClassDef))

    def block(self, body):
        out = []
        for st in body:
            out += self.one(st)
        return out

    def one(self, st):
        return [st]


class Unparse(Blocks):
    pass


class SwapIf(Blocks):
    def one(self, st):
        if isinstance(st, ast.If) and st.orelse:
            return [ast.If(ast.UnaryOp(ast.Not(), st.test), st.orelse, st.body)]
        return [st]


class ReturnTemp(Blocks):
    def one(self, st):
        if isinstance(st, ast.Return) and st.value is not None and not isinstance(st.value, (ast.Name, ast.Constant)):
            t = self.fresh('result')
            return [ast.Assign([name(t, True)], st.value), ast.Return(name(t))]
        return [st]


class Aug(Blocks):
    def one(self, st):
        if isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name):
            return [ast.Assign([st.target], ast.BinOp(name(st.target.id), st.op, st.value))]
        return [st]


class Fmt(Blocks):
    def one(self, st):
        if isinstance(st, (ast.Expr, ast.Assign, ast.Return, ast.AugAssign, ast.Raise)):
            pre = []
            for n in ast.walk(st):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'format' and \
                        isinstance(n.func.value, ast.Constant):
                    t = self.fresh('fmt')
                    pre.append(ast.Assign([name(t, True)], n.func.value))
                    n.func.value = name(t)
            return pre + [st]
        return [st]


class Cmp(Blocks):
    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            op, left, right = node.ops[0], node.left, node.comparators[0]
            neg = {ast.NotEq: ast.Eq, ast.IsNot: ast.Is, ast.NotIn: ast.In}
            flip = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
            if isinstance(op, ast.Eq):
                return ast.Compare(right, [op], [left])
            if type(op) in neg:
                return ast.UnaryOp(ast.Not(), ast.Compare(left, [neg[type(op)]()], [right]))
            if type(op) in flip:
                return ast.Compare(right, [flip[type(op)]()], [left])
        return node


class ForTemp(Blocks):
    def one(self, st):
        if isinstance(st, ast.For) and not isinstance(st.iter, ast.Name):
            t = self.fresh('items')
            pre = ast.Assign([name(t, True)], st.iter)
            st.iter = name(t)
            return [pre, st]
        return [st]


class ForEnum(Blocks):
    def one(self, st):
        if isinstance(st, ast.For):
            st.target = ast.Tuple([name(self.fresh('pos'), True), st.target], ast.Store())
            st.iter = ast.Call(name('enumerate'), [st.iter], [])
        return [st]


class NestIf(Blocks):
    def one(self, st):
        if isinstance(st, ast.If) and not st.orelse and isinstance(st.test, ast.BoolOp) and isinstance(st.test.op, ast.And):
            body = st.body
            for v in reversed(st.test.values):
                body = [ast.If(v, body, [])]
            return body
        return [st]


class JoinIf(Blocks):
    def one(self, st):
        if isinstance(st, ast.If) and not st.orelse and len(st.body) == 1 and isinstance(st.body[0], ast.If) and not st.body[0].orelse:
            return [ast.If(ast.BoolOp(ast.And(), [st.test, st.body[0].test]), st.body[0].body, [])]
        return [st]


class DeMorgan(Blocks):
    def visit_BoolOp(self, node):
        self.generic_visit(node)
        return node

    def one(self, st):
        if isinstance(st, ast.If) and isinstance(st.test, ast.BoolOp):
            other = ast.Or() if isinstance(st.test.op, ast.And) else ast.And()
            st.test = ast.UnaryOp(ast.Not(), ast.BoolOp(other, [ast.UnaryOp(ast.Not(), v) for v in st.test.values]))
        return [st]


def ends(body):
    return isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


class ElseRest(Blocks):
    """if c: return ...; rest  ->  if c: return ... else: rest"""
    def block(self, body):
        for i, st in enumerate(body):
            if isinstance(st, ast.If) and not st.orelse and ends(st.body) and body[i + 1:]:
                st.orelse = self.block(body[i + 1:])
                return body[:i + 1]
        return body


class DropElse(Blocks):
    """if c: return ... else: rest  ->  if c: return ...; rest"""
    def block(self, body):
        out = []
        for st in body:
            out.append(st)
            if isinstance(st, ast.If) and st.orelse and ends(st.body):
                out += st.orelse
                st.orelse = []
        return out


class CondTemp(Blocks):
    def one(self, st):
        if isinstance(st, ast.If) and not isinstance(st.test, (ast.Name, ast.Constant)):
            t = self.fresh('cond')
            pre = ast.Assign([name(t, True)], st.test)
            st.test = name(t)
            return [pre, st]
        return [st]


class ArgTemp(Blocks):
    def one(self, st):
        call = st.value if isinstance(st, (ast.Expr, ast.Assign, ast.Return)) else None
        if isinstance(call, ast.Call) and call.args and isinstance(call.args[0], (ast.Call, ast.BinOp, ast.JoinedStr, ast.Subscript)) and \
                not (isinstance(call.func, ast.Name) and call.func.id == 'super'):
            t = self.fresh('arg')
            pre = ast.Assign([name(t, True)], call.args[0])
            call.args[0] = name(t)
            return [pre, st]
        return [st]


class CompLoop(Blocks):
    def one(self, st):
        if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) and isinstance(st.value, ast.ListComp) and \
                len(st.value.generators) == 1:
            g = st.value.generators[0]
            t = self.fresh('made')
            body = [ast.Expr(ast.Call(ast.Attribute(name(t), 'append', ast.Load()), [st.value.elt], []))]
            for c in reversed(g.ifs):
                body = [ast.If(c, body, [])]
            return [ast.Assign([name(t, True)], ast.List([], ast.Load())), ast.For(g.target, g.iter, body, []), ast.Assign(st.targets, name(t))]
        return [st]


class AppendPlus(Blocks):
    """x.append(y) -> x.extend([y])"""
    def one(self, st):
        if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Attribute) and st.value.func.attr == 'append' and \
                len(st.value.args) == 1:
            st.value.func.attr = 'extend'
            st.value.args = [ast.List(st.value.args, ast.Load())]
        return [st]


class Pass(Blocks):
    def block(self, body):
        return body[:1] + [ast.Pass()] + body[1:] if len(body) > 1 else body


class FString(Blocks):
    """'..{}..'.format(a) -> f-string, for plain fields"""
    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if not (isinstance(f, ast.Attribute) and f.attr == 'format' and isinstance(f.value, ast.Constant) and isinstance(f.value.value, str)):
            return node
        import string
        if any(k.arg is None for k in node.keywords) or any(isinstance(a, ast.Starred) for a in node.args):
            return node
        kw = {k.arg: k.value for k in node.keywords}
        vals, auto = [], 0
        try:
            for lit, field, spec, conv in string.Formatter().parse(f.value.value):
                if lit:
                    vals.append(ast.Constant(lit))
                if field is None:
                    continue
                if spec or conv:
                    return node
                if field == '':
                    field, auto = str(auto), auto + 1
                arg = node.args[int(field)] if field.isdigit() else kw[field]
                if any(isinstance(x, (ast.JoinedStr, ast.Constant)) for x in ast.walk(arg)):
                    return node
                vals.append(ast.FormattedValue(arg, -1, None))
        except (KeyError, IndexError, ValueError):
            return node
        return ast.JoinedStr(vals)


class Rename(Blocks):
    """Local variables get other names."""
    def visit_FunctionDef(self, node):
        for sub in node.body:
            self.visit(sub)
        if any(isinstance(n, FUN + (ast.Lambda, ast.Global, ast.Nonlocal, ast.ClassDef)) for b in node.body for n in ast.walk(b)):
            return node
        a = node.args
        params = {x.arg for x in a.args + a.kwonlyargs + a.posonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}
        mine = {n.id for b in node.body for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} - params
        mine |= {n.name for b in node.body for n in ast.walk(b) if isinstance(n, ast.ExceptHandler) and n.name}
        for b in node.body:
            for n in ast.walk(b):
                if isinstance(n, ast.Name) and n.id in mine:
                    n.id = 'loc_' + n.id
                elif isinstance(n, ast.ExceptHandler) and n.name in mine:
                    n.name = 'loc_' + n.name
        return node


class Extract(Blocks):
    """A block of statements becomes a helper."""
    pick = staticmethod(max)
    prefix = '_'

    def visit_Module(self, node):
        self.new = []
        body = []
        for st in node.body:
            if isinstance(st, FUN):
                extra = self.function(st, None)
                body += extra
            elif isinstance(st, ast.ClassDef):
                cls = []
                for sub in st.body:
                    cls += self.function(sub, st) if isinstance(sub, FUN) else [sub]
                st.body = cls
            body.append(st) if not isinstance(st, FUN) else None
        node.body = body
        return node

    def function(self, fn, cls):
        if fn.decorator_list or fn.name.startswith('__') and fn.name != '__init__':
            return [fn]
        if any(isinstance(n, FUN + (ast.Lambda, ast.Global, ast.Nonlocal, ast.Yield, ast.YieldFrom)) for b in fn.body for n in ast.walk(b)):
            return [fn]
        a = fn.args
        if a.vararg or a.kwarg:
            return [fn]
        params = [x.arg for x in a.args + a.kwonlyargs + a.posonlyargs]
        if cls is not None and (not params or params[0] != 'self'):
            return [fn]
        local = set(params) | {n.id for b in fn.body for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        cands = []

        def look(body, sure):
            sure = set(sure)
            for i, st in enumerate(body):
                if isinstance(st, (ast.If, ast.For, ast.With)) and self.fits(st):
                    inner = set(id(n) for n in ast.walk(st))
                    stores = {n.id for n in ast.walk(st) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
                    loads_in = {n.id for n in ast.walk(st) if isinstance(n, ast.Name) and n.id in local}
                    loads_out = {n.id for b in fn.body for n in ast.walk(b) if isinstance(n, ast.Name) and id(n) not in inner}
                    result = sorted(stores & loads_out)
                    needs = sorted(loads_in & sure)
                    if all(r in sure for r in result) and loads_in <= sure | stores and \
                            not any(isinstance(n, ast.Attribute) and n.attr.startswith('__') and cls is None for n in ast.walk(st)):
                        cands.append((sum(1 for n in ast.walk(st) if isinstance(n, ast.stmt)), -len(cands), body, i, needs, result))
                if isinstance(st, (ast.Assign, ast.AnnAssign)):
                    for t in st.targets if isinstance(st, ast.Assign) else [st.target]:
                        for n in ast.walk(t):
                            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                                sure.add(n.id)
                if isinstance(st, ast.For):
                    look(st.body, sure | {n.id for n in ast.walk(st.target) if isinstance(n, ast.Name)})
                elif isinstance(st, ast.If):
                    look(st.body, sure)
                    look(st.orelse, sure)
                elif isinstance(st, (ast.While, ast.With)):
                    look(st.body, sure)
        look(fn.body, params)
        cands = [c for c in cands if c[0] >= 3]
        if not cands:
            return [fn]
        _, _, body, i, needs, result = self.pick(cands, key=lambda c: c[:2])
        hname = self.fresh(self.prefix + 'part_of_' + fn.name.strip('_'))
        args = [n for n in needs if n != 'self']
        block = [body[i]]
        if result:
            block.append(ast.Return(ast.Tuple([name(r) for r in result], ast.Load()) if len(result) > 1 else name(result[0])))
        is_meth = cls is not None
        helper = ast.FunctionDef(name=hname, args=ast.arguments(posonlyargs=[], args=[ast.arg(x) for x in (['self'] if is_meth else []) + args], kwonlyargs=[], kw_defaults=[], defaults=[]),
                                 body=[ast.Expr(ast.Constant("Part of " + fn.name))] + block, decorator_list=[], type_params=[])
        call = ast.Call(ast.Attribute(name('self'), hname, ast.Load()) if is_meth else name(hname), [name(x) for x in args], [])
        if result:
            tgt = ast.Tuple([name(r, True) for r in result], ast.Store()) if len(result) > 1 else name(result[0], True)
            body[i] = ast.Assign([tgt], call)
        else:
            body[i] = ast.Expr(call)
        return [fn, helper]

    @staticmethod
    def fits(st):
        def bad(n, loop):
            if isinstance(n, (ast.Return, ast.Yield)):
                return True
            if isinstance(n, (ast.Break, ast.Continue)) and not loop:
                return True
            if isinstance(n, ast.Name) and n.id in ('super', 'locals'):
                return True
            if isinstance(n, ast.Delete):
                return True
            inner = loop or isinstance(n, (ast.For, ast.While))
            return any(bad(c, inner) for c in ast.iter_child_nodes(n))
        return not bad(st, False)


class ExtractSmall(Extract):
    pick = staticmethod(min)


class ExtractPublic(Extract):
    prefix = ''


class LoopBody(Extract):
    """The body of a loop becomes a helper."""
    @staticmethod
    def fits(st):
        return isinstance(st, ast.If) and Extract.fits(st)


class IfExpToIf(Blocks):
    """x = a if c else b -> if c: x = a else: x = b"""
    def one(self, st):
        if isinstance(st, (ast.Assign, ast.Return)) and isinstance(st.value, ast.IfExp):
            v = st.value

            def new(val):
                return ast.Return(val) if isinstance(st, ast.Return) else ast.Assign(st.targets, val)
            return [ast.If(v.test, [new(v.body)], [new(v.orelse)])]
        return [st]


class IfToIfExp(Blocks):
    def one(self, st):
        if isinstance(st, ast.If) and len(st.body) == len(st.orelse) == 1 and isinstance(st.body[0], ast.Assign) and isinstance(st.orelse[0], ast.Assign) and \
                ast.unparse(st.body[0].targets) == ast.unparse(st.orelse[0].targets):
            return [ast.Assign(st.body[0].targets, ast.IfExp(st.test, st.body[0].value, st.orelse[0].value))]
        return [st]


class InToOr(Blocks):
    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], ast.In) and isinstance(node.comparators[0], (ast.List, ast.Tuple, ast.Set)) and \
                1 < len(node.comparators[0].elts) < 5 and isinstance(node.left, (ast.Name, ast.Attribute)):
            return ast.BoolOp(ast.Or(), [ast.Compare(node.left, [ast.Eq()], [e]) for e in node.comparators[0].elts])
        return node


class OrToIn(Blocks):
    def visit_BoolOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Or) and all(isinstance(v, ast.Compare) and len(v.ops) == 1 and isinstance(v.ops[0], ast.Eq) and
                                               isinstance(v.comparators[0], ast.Constant) for v in node.values) and len({ast.unparse(v.left) for v in node.values}) == 1:
            return ast.Compare(node.values[0].left, [ast.In()], [ast.Tuple([v.comparators[0] for v in node.values], ast.Load())])
        return node


class GuardContinue(Blocks):
    """for ..: if c: body -> for ..: if not c: continue; body"""
    def generic_visit(self, node):
        super().generic_visit(node)
        if isinstance(node, ast.For) and isinstance(node.body[-1], ast.If) and not node.body[-1].orelse:
            last = node.body.pop()
            node.body += [ast.If(ast.UnaryOp(ast.Not(), last.test), [ast.Continue()], [])] + last.body
        return node


class AnyLoop(Blocks):
    """x = any(c for y in z) -> loop"""
    def one(self, st):
        call = st.test if isinstance(st, ast.If) else st.value if isinstance(st, (ast.Assign, ast.Return)) else None
        if isinstance(call, ast.Call) and isinstance(call.func, ast.Name) and call.func.id in ('any', 'all') and len(call.args) == 1 and \
                isinstance(call.args[0], (ast.GeneratorExp, ast.ListComp)) and len(call.args[0].generators) == 1 and not call.args[0].generators[0].ifs:
            g = call.args[0].generators[0]
            t = self.fresh('found')
            isany = call.func.id == 'any'
            test = call.args[0].elt if isany else ast.UnaryOp(ast.Not(), call.args[0].elt)
            pre = [ast.Assign([name(t, True)], ast.Constant(not isany)),
                   ast.For(g.target, g.iter, [ast.If(test, [ast.Assign([name(t, True)], ast.Constant(isany)), ast.Break()], [])], [])]
            if isinstance(st, ast.If):
                st.test = name(t)
            else:
                st.value = name(t)
            return pre + [st]
        return [st]


class DictItems(Blocks):
    """for k in d: ... d[k] -> for k, v in d.items(): ... v"""
    def one(self, st):
        if isinstance(st, ast.For) and isinstance(st.target, ast.Name) and isinstance(st.iter, (ast.Name, ast.Attribute)):
            want = "%s[%s]" % (ast.unparse(st.iter), st.target.id)
            uses = [n for b in st.body for n in ast.walk(b) if isinstance(n, ast.Subscript) and ast.unparse(n) == want]
            if uses and all(isinstance(n.ctx, ast.Load) for n in uses):
                t = self.fresh('val')

                class Put(ast.NodeTransformer):
                    def visit_Subscript(self, node):
                        self.generic_visit(node)
                        return name(t) if ast.unparse(node) == want else node
                st.body = [Put().visit(b) for b in st.body]
                st.target = ast.Tuple([st.target, name(t, True)], ast.Store())
                st.iter = ast.Call(ast.Attribute(st.iter, 'items', ast.Load()), [], [])
        return [st]


class HoistCall(Blocks):
    """The same attribute chain or call without arguments used in an if and in its body gets a name."""
    def one(self, st):
        if isinstance(st, ast.If):
            calls = {}
            for n in ast.walk(st.test):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('get_prop_value', 'lower', 'strip', 'get_dimensions', 'keys'):
                    calls.setdefault(ast.unparse(n), n)
            if calls and not isinstance(st.test, ast.BoolOp):
                text, node = sorted(calls.items())[-1]
                t = self.fresh('value')

                class Put(ast.NodeTransformer):
                    def visit_Call(self, x):
                        if ast.unparse(x) == text:
                            return name(t)
                        self.generic_visit(x)
                        return x
                pre = ast.Assign([name(t, True)], node)
                st.test = Put().visit(st.test)
                return [pre, st]
        return [st]


ALL = {c.__name__.lower(): c for c in (Unparse, SwapIf, ReturnTemp, Aug, Fmt, Cmp, ForTemp, ForEnum, NestIf, JoinIf, DeMorgan, ElseRest, DropElse, CondTemp,
                                       ArgTemp, CompLoop, AppendPlus, Pass, FString, Rename, Extract, ExtractSmall, ExtractPublic, LoopBody, IfExpToIf, IfToIfExp, InToOr, OrToIn, GuardContinue, AnyLoop, DictItems, HoistCall)}


def main(argv):
    if argv[0] == 'list':
        print(" ".join(ALL))
        return 0
    tr = ALL[argv[0]]
    props = argv[1:] or sorted(os.path.basename(p)[:-3].upper() for p in glob.glob(VERIF + '/rules/c*.py'))
    top = tempfile.mkdtemp(prefix='refac_')
    try:
        repo = top + '/repo'
        shutil.copytree(os.environ.get('VERIF_REPO', '/repo'), repo, symlinks=True, ignore=shutil.ignore_patterns('.git', 'build'))
        for path in glob.glob(repo + '/scripts/**/*.py', recursive=True):
            with open(path, encoding='utf-8') as src:
                tree = tr().visit(ast.parse(src.read()))
            text = ast.unparse(ast.fix_missing_locations(tree))
            compile(text, path, 'exec')
            with open(path, 'w', encoding='utf-8') as out:
                out.write(text + '\n')
        if os.environ.get('REFAC_KEEP'):
            shutil.copytree(repo, os.environ['REFAC_KEEP'], symlinks=True, dirs_exist_ok=True)

        def run(prop):
            env = dict(os.environ, VERIF_REPO=repo, VERIF_EVIDENCE=top + '/ev_' + prop)
            r = subprocess.run([sys.executable, VERIF + '/check.py', prop], capture_output=True, text=True, env=env, timeout=1200)
            return prop, r.returncode, r.stdout + r.stderr
        with ThreadPoolExecutor(int(os.environ.get('NW', '8'))) as pool:
            for prop, rc, text in pool.map(run, props):
                if rc:
                    print("%s %s rc=%d" % (argv[0], prop, rc))
                    for line in [x for x in text.split('\n') if x.startswith('  [') or 'BROKEN' in x.upper() or 'Error' in x][:6]:
                        print("    " + line[:330])
    finally:
        shutil.rmtree(top)
    return 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
