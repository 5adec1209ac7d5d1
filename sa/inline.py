"""Helpers that the rules do not know are put back into their callers.

The rules are anchored at the functions of the pinned tree (known_functions.json: their names and the names in them).  A function or method that is not in that list and is called in
the same module is a part of its callers, so that it does not matter whether a piece of code is written in place or in a helper.  A call that cannot
be replaced (recursion, a return from within a loop, generators ...) is left as it is, and the rules follow it as far as they follow calls.  In the same way a new local variable that only takes a value to the
next statement is replaced by that value."""
import ast
import copy
import glob
import json
import os
import re

FUN = (ast.FunctionDef, ast.AsyncFunctionDef)
KNOWN = None


def known_functions():
    global KNOWN
    if KNOWN is None:
        with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "known_functions.json"), encoding="utf-8") as src:
            KNOWN = json.load(src)
    return KNOWN


def functions(tree):
    """(class or None, function) of a module"""
    for node in tree.body:
        if isinstance(node, FUN):
            yield None, node
        elif isinstance(node, ast.ClassDef):
            for sub in node.body:
                if isinstance(sub, FUN):
                    yield node, sub


def walk_own(node):
    """Nodes of NODE without those of functions in it."""
    todo = [node]
    while todo:
        n = todo.pop()
        yield n
        for c in ast.iter_child_nodes(n):
            if not isinstance(c, FUN + (ast.Lambda, ast.ClassDef)):
                todo.append(c)


def has_return(node):
    return any(isinstance(n, ast.Return) for n in walk_own(node))


def always_ends(body):
    """Control does not come out at the end of BODY."""
    if not body:
        return False
    last = body[-1]
    if isinstance(last, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
        return True
    if isinstance(last, ast.If):
        return always_ends(last.body) and always_ends(last.orelse)
    return isinstance(last, ast.With) and always_ends(last.body)


class CannotInline(Exception):
    pass


def tail(body, give):
    """BODY with each return replaced by give(value); what comes after a return in a branch goes into the other branch."""
    out = []
    for i, st in enumerate(body):
        rest = body[i + 1:]
        if isinstance(st, ast.Return):
            return out + give(st.value, st)
        if not has_return(st):
            out.append(st)
            if isinstance(st, ast.Raise):
                return out
            continue
        if isinstance(st, ast.If):
            if always_ends(st.body):
                new = ast.If(st.test, tail(st.body, give) or [ast.Pass()], tail(st.orelse + rest, give))
            elif always_ends(st.orelse):
                new = ast.If(st.test, tail(st.body + rest, give) or [ast.Pass()], tail(st.orelse, give))
            elif not rest:
                new = ast.If(st.test, tail(st.body, give) or [ast.Pass()], tail(st.orelse, give))
            else:
                raise CannotInline
            return out + [ast.copy_location(new, st)]
        if isinstance(st, ast.With) and (not rest or always_ends(st.body)):
            return out + [ast.copy_location(ast.With(st.items, tail(st.body, give)), st)]
        raise CannotInline
    return out + give(None, body[-1] if body else None)


class Rename(ast.NodeTransformer):
    def __init__(self, names, exprs):
        self.names, self.exprs = names, exprs

    def visit_Name(self, node):
        if node.id in self.exprs and isinstance(node.ctx, ast.Load):
            return ast.copy_location(copy.deepcopy(self.exprs[node.id]), node)
        if node.id in self.names:
            return ast.copy_location(ast.Name(self.names[node.id], node.ctx), node)
        return node

    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        if node.name in self.names:
            node.name = self.names[node.name]
        return node


def stored(nodes):
    out = set()
    for b in nodes:
        for n in ast.walk(b):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                out.add(n.name)
    return out


class Helper:
    """A function that is put into its callers."""
    def __init__(self, cls, node):
        self.cls, self.node, self.name = cls, node, node.name
        decs = [ast.unparse(d) for d in node.decorator_list]
        self.static = decs == ['staticmethod']
        self.bound = cls is not None and not self.static
        self.ok = decs in ([], ['staticmethod'], ['classmethod']) and not node.args.vararg and not node.args.kwarg and not node.args.posonlyargs
        self.body = node.body[1:] if node.body and isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant) and \
            len(node.body) > 1 else node.body
        for n in ast.walk(node):
            if isinstance(n, FUN + (ast.Lambda, ast.ClassDef, ast.Global, ast.Nonlocal, ast.Yield, ast.YieldFrom)) and n is not node:
                self.ok = False
            if isinstance(n, ast.Name) and n.id in ('super', 'locals') or self.is_call(n):
                self.ok = False
        self.single = self.body[0].value if len(self.body) == 1 and isinstance(self.body[0], ast.Return) and self.body[0].value is not None else None

    def is_call(self, n):
        if not isinstance(n, ast.Call):
            return False
        f = n.func
        if self.cls is None:
            return isinstance(f, ast.Name) and f.id == self.name
        return isinstance(f, ast.Attribute) and f.attr == self.name and isinstance(f.value, ast.Name) and f.value.id in ('self', 'cls', self.cls.name)

    def arguments(self, call):
        """param -> expression"""
        params = [a.arg for a in self.node.args.args]
        out = {}
        if self.bound:
            if call.func.value.id not in ('self', 'cls'):
                raise CannotInline
            out[params[0]] = call.func.value
            params = params[1:]
        if any(isinstance(a, ast.Starred) for a in call.args) or any(k.arg is None for k in call.keywords) or len(call.args) > len(params):
            raise CannotInline
        out.update(zip(params, call.args))
        for k in call.keywords:
            out[k.arg] = k.value
        args = self.node.args
        for a, d in list(zip(args.args[::-1], args.defaults[::-1])) + [(a, d) for a, d in zip(args.kwonlyargs, args.kw_defaults) if d is not None]:
            out.setdefault(a.arg, d)
        if set(out) != {a.arg for a in args.args + args.kwonlyargs}:
            raise CannotInline
        return out

    def prepared(self, call, caller_names, keep):
        """(statements that bind the arguments, body) for a call; names in KEEP are those of the caller."""
        args = self.arguments(call)
        changed = stored(self.body)
        names, exprs, pre = {}, {}, []
        taken = caller_names | {a for a in args} | changed

        def fresh(n):
            new = "%s__%s" % (n, self.name.strip('_'))
            while new in taken:
                new += "_"
            taken.add(new)
            return new
        for par, val in args.items():
            if isinstance(val, ast.Name) and val.id == par and (par not in changed or par in keep):
                continue
            if par not in changed and (isinstance(val, (ast.Name, ast.Constant))):
                if isinstance(val, ast.Name) and val.id in changed and val.id not in args:
                    pass
                exprs[par] = val
                continue
            new = fresh(par) if par in caller_names else par
            if new != par:
                names[par] = new
            pre.append(ast.copy_location(ast.Assign([ast.copy_location(ast.Name(new, ast.Store()), call)], val, lineno=call.lineno), call))
        for n in changed - set(args) - keep:
            if n in caller_names:
                names[n] = fresh(n)
        body = [Rename(names, exprs).visit(copy.deepcopy(b)) for b in self.body]
        return pre, body


def flat_names(node):
    if isinstance(node, ast.Name):
        return [node.id]
    if isinstance(node, (ast.Tuple, ast.List)) and all(isinstance(e, ast.Name) for e in node.elts):
        return [e.id for e in node.elts]
    return None


class Inliner:
    def __init__(self, helpers):
        self.helpers = helpers
        self.changed = False
        self.count = 0

    def helper_of(self, n):
        for h in self.helpers:
            if h.is_call(n):
                return h
        return None

    def function(self, fn):
        self.names = {n.id for n in ast.walk(fn) if isinstance(n, ast.Name)} | {a.arg for a in ast.walk(fn) if isinstance(a, ast.arg)}
        fn.body = self.block(fn.body)

    def block(self, body):
        out = []
        for st in body:
            for field in ('body', 'orelse', 'finalbody'):
                sub = getattr(st, field, None)
                if isinstance(sub, list) and sub and isinstance(sub[0], ast.stmt) and not isinstance(st, ast.ClassDef):
                    setattr(st, field, self.block(sub))
            for hnd in getattr(st, 'handlers', []):
                hnd.body = self.block(hnd.body)
            out += self.statement(st)
        return out

    def statement(self, st):
        if isinstance(st, FUN + (ast.ClassDef,)):
            return [st]
        self.expressions(st)
        call = st.value if isinstance(st, (ast.Expr, ast.Return)) or isinstance(st, ast.Assign) and len(st.targets) == 1 else None
        h = self.helper_of(call) if call is not None else None
        try:
            if h is not None:
                new = self.whole(st, call, h)
                self.changed = True
                return new
            return self.hoist(st)
        except CannotInline:
            return [st]

    def whole(self, st, call, h):
        tgt = st.targets[0] if isinstance(st, ast.Assign) else None
        want = flat_names(tgt) if tgt is not None else None
        gives = [n.value for n in ast.walk(h.node) if isinstance(n, ast.Return)]
        keep = set()
        if want and gives and all(g is not None and flat_names(g) == want for g in gives):
            keep = set(want)
        pre, body = h.prepared(call, self.names, keep)
        if isinstance(st, ast.Return):
            if not always_ends(body):
                body = body + [ast.copy_location(ast.Return(ast.Constant(None)), st)]
            res = pre + body
        else:
            def give(val, at):
                if tgt is None:
                    return [] if val is None or not any(isinstance(n, ast.Call) for n in ast.walk(val)) else [ast.copy_location(ast.Expr(val), at)]
                if val is None:
                    val = ast.Constant(None)
                if flat_names(val) == want and want and keep:
                    return []
                return [ast.copy_location(ast.Assign([copy.deepcopy(tgt)], val, lineno=st.lineno), at if at is not None else st)]
            res = pre + tail(body, give)
        res = res or [ast.copy_location(ast.Pass(), st)]
        for n in res:
            ast.fix_missing_locations(n)
        self.names |= {n.id for b in res for n in ast.walk(b) if isinstance(n, ast.Name)}
        return res

    def expressions(self, st):
        """Helpers that are one expression are put into the expressions of ST."""
        me = self

        class Put(ast.NodeTransformer):
            def visit_Call(self, node):
                self.generic_visit(node)
                h = me.helper_of(node)
                if h is None or h.single is None:
                    return node
                try:
                    args = h.arguments(node)
                except CannotInline:
                    return node
                for par, val in args.items():
                    uses = sum(1 for n in ast.walk(h.single) if isinstance(n, ast.Name) and n.id == par)
                    if uses > 1 and any(isinstance(n, (ast.Call, ast.ListComp, ast.GeneratorExp)) for n in ast.walk(val)):
                        return node
                bound = {n.id for n in ast.walk(h.single) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
                if bound & {n.id for v in args.values() for n in ast.walk(v) if isinstance(n, ast.Name)}:
                    return node
                me.changed = True
                new = Rename({}, args).visit(copy.deepcopy(h.single))
                return ast.copy_location(new, node)
        for field, val in ast.iter_fields(st):
            if field in ('body', 'orelse', 'finalbody', 'handlers'):
                continue
            if isinstance(val, ast.expr):
                setattr(st, field, Put().visit(val))
            elif isinstance(val, list):
                setattr(st, field, [Put().visit(v) if isinstance(v, (ast.expr, ast.keyword, ast.withitem)) else v for v in val])

    def hoist(self, st):
        """A call that ST evaluates in any case, and first of all its calls, becomes a statement before it."""
        if isinstance(st, ast.While):
            return [st]
        root = st.test if isinstance(st, (ast.If, ast.Assert)) else st.iter if isinstance(st, ast.For) else \
            getattr(st, 'value', None) if isinstance(st, (ast.Assign, ast.Return, ast.Expr, ast.AugAssign)) else None
        if root is None:
            return [st]
        found = self.first_call(root)
        if found is None:
            return [st]
        parent, field, idx, call = found
        h = self.helper_of(call)
        self.count += 1
        tmp = "value__%s_%d" % (h.name.strip('_'), self.count)
        asg = ast.copy_location(ast.Assign([ast.copy_location(ast.Name(tmp, ast.Store()), call)], call, lineno=call.lineno), call)
        new = self.whole(asg, call, h)
        use = ast.copy_location(ast.Name(tmp, ast.Load()), call)
        if parent is None:
            for f in ('test', 'iter', 'value'):
                if getattr(st, f, None) is call:
                    setattr(st, f, use)
        elif idx is None:
            setattr(parent, field, use)
        else:
            getattr(parent, field)[idx] = use
        self.changed = True
        return new + self.hoist(st)

    def first_call(self, root):
        """(parent, field, index, call) of the first call in the order of evaluation, if it is that of a helper."""
        if self.helper_of(root) is not None:
            return None, None, None, root
        found = []

        def look(node):
            """True: a call was met"""
            if isinstance(node, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                return True
            for field, val in ast.iter_fields(node):
                for idx, sub in (enumerate(val) if isinstance(val, list) else ((None, val),)):
                    if not isinstance(sub, ast.AST):
                        continue
                    if self.helper_of(sub) is not None:
                        found.append((node, field, idx, sub))
                        return True
                    if look(sub):
                        return True
                    if isinstance(node, (ast.BoolOp, ast.IfExp)) and not (isinstance(node, ast.IfExp) and field == 'test'):
                        return True     # what follows is evaluated under a condition
            return isinstance(node, ast.Call)
        if isinstance(root, ast.IfExp):
            return None
        look(root)
        return found[0] if found else None


WORDS = {}


def words_elsewhere(root, rel):
    """Identifiers in the other sources."""
    if root not in WORDS:
        WORDS[root] = {}
        for path in glob.glob(os.path.join(root, "scripts", "**", "*.py"), recursive=True):
            with open(path, encoding="utf-8") as src:
                WORDS[root][os.path.relpath(path, root)] = set(re.findall(r"\w+", src.read()))
    return {w for name, words in WORDS[root].items() if name != rel for w in words}


def normalise(tree, rel, root):
    """TREE with unknown helpers put into their callers."""
    known = known_functions().get(rel)
    if known is None:
        return tree
    put_helpers(tree, known, rel, root)
    for _, fn in functions(tree):
        if fn.name in known:
            plain_forms(fn, known[fn.name])
            put_values(fn, known[fn.name])
    return tree


def plain_forms(fn, known):
    """One form for what is written in several ways: a counter that is not used, a list that grows by one, a loop that makes a list."""
    loads = {n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}
    for n in ast.walk(fn):
        if isinstance(n, (ast.For, ast.comprehension)) and isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id == 'enumerate' and \
                isinstance(n.target, ast.Tuple) and len(n.target.elts) == 2 and isinstance(n.target.elts[0], ast.Name) and n.target.elts[0].id not in loads and n.iter.args:
            n.target, n.iter = n.target.elts[1], n.iter.args[0]
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'extend' and len(n.args) == 1 and \
                isinstance(n.args[0], (ast.List, ast.Tuple)) and len(n.args[0].elts) == 1 and not isinstance(n.args[0].elts[0], ast.Starred):
            n.func.attr, n.args = 'append', n.args[0].elts

    def made(st, loop):
        """The comprehension for `v = []` and a loop that only appends to v."""
        if not (isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) and st.targets[0].id not in known and
                isinstance(loop, ast.For) and not loop.orelse and
                (isinstance(st.value, ast.List) and not st.value.elts or ast.unparse(st.value) == 'list()')):
            return None
        var, conds, body = st.targets[0].id, [], loop.body
        while len(body) == 1 and isinstance(body[0], ast.If) and not body[0].orelse:
            conds.append(body[0].test)
            body = body[0].body
        call = body[0].value if len(body) == 1 and isinstance(body[0], ast.Expr) else None
        if not (isinstance(call, ast.Call) and isinstance(call.func, ast.Attribute) and call.func.attr == 'append' and len(call.args) == 1 and
                isinstance(call.func.value, ast.Name) and call.func.value.id == var):
            return None
        comp = ast.ListComp(call.args[0], [ast.comprehension(loop.target, loop.iter, conds, 0)])
        return ast.copy_location(ast.Assign(st.targets, ast.copy_location(comp, loop), lineno=loop.lineno), loop)

    def block(body):
        pos = 0
        while pos < len(body):
            if pos + 1 < len(body):
                new = made(body[pos], body[pos + 1])
                if new is not None:
                    body[pos:pos + 2] = [new]
            st = body[pos]
            for field in ('body', 'orelse', 'finalbody'):
                sub = getattr(st, field, None)
                if isinstance(sub, list) and sub and isinstance(sub[0], ast.stmt):
                    block(sub)
            for hnd in getattr(st, 'handlers', []):
                block(hnd.body)
            pos += 1
    block(fn.body)


def loads_in_header(st, var):
    """[(parent, field, index)] of the loads of VAR that ST evaluates once, before its blocks."""
    found = []

    def look(node, top):
        for field, val in ast.iter_fields(node):
            if top and field in ('body', 'orelse', 'finalbody', 'handlers'):
                continue
            for idx, sub in (enumerate(val) if isinstance(val, list) else ((None, val),)):
                if isinstance(sub, ast.Name) and sub.id == var and isinstance(sub.ctx, ast.Load):
                    found.append((node, field, idx))
                elif isinstance(sub, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                    if not isinstance(sub, ast.Lambda) and isinstance(sub.generators[0].iter, ast.Name) and sub.generators[0].iter.id == var:
                        found.append((sub.generators[0], 'iter', None))
                elif isinstance(sub, ast.AST):
                    look(sub, False)
    if not isinstance(st, (ast.While,) + FUN + (ast.ClassDef,)):
        look(st, True)
    return found


def put_values(fn, known):
    """A new local variable that only holds a value for the statement after it is replaced by the value."""
    stores, loads = {}, {}
    for n in ast.walk(fn):
        if isinstance(n, ast.Name):
            side = loads if isinstance(n.ctx, ast.Load) else stores
            side[n.id] = side.get(n.id, 0) + 1
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            for x in n.names:
                stores[x] = 9
    mine = {v for v, num in stores.items() if num == 1 and loads.get(v) == 1 and v not in known and v not in {a.arg for a in ast.walk(fn.args) if isinstance(a, ast.arg)}}
    if not mine:
        return

    def block(body):
        pos = len(body) - 2
        while pos >= 0:
            st, nxt = body[pos], body[pos + 1]
            if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) and st.targets[0].id in mine:
                places = loads_in_header(nxt, st.targets[0].id)
                if len(places) == 1:
                    node, field, idx = places[0]
                    if idx is None:
                        setattr(node, field, st.value)
                    else:
                        getattr(node, field)[idx] = st.value
                    del body[pos]
                    pos = min(pos, len(body) - 1)
            pos -= 1
        for st in body:
            for field in ('body', 'orelse', 'finalbody'):
                sub = getattr(st, field, None)
                if isinstance(sub, list) and sub and isinstance(sub[0], ast.stmt):
                    block(sub)
            for hnd in getattr(st, 'handlers', []):
                block(hnd.body)
    block(fn.body)


def put_helpers(tree, known, rel, root):
    helpers = [Helper(cls, fn) for cls, fn in functions(tree) if fn.name not in known]
    count = {}
    for h in helpers:
        count[h.name] = count.get(h.name, 0) + 1
    helpers = [h for h in helpers if h.ok and count[h.name] == 1]
    if not helpers:
        return
    for _ in range(3):
        inl = Inliner(helpers)
        for _, fn in functions(tree):
            inl.function(fn)
        for h in helpers:
            new = Helper(h.cls, h.node)
            h.body, h.single, h.ok = new.body, new.single, new.ok
        helpers = [h for h in helpers if h.ok]
        if not inl.changed:
            break
    gone = {h.name for h in helpers}
    used = {n.attr if isinstance(n, ast.Attribute) else n.id for n in ast.walk(tree) if isinstance(n, (ast.Attribute, ast.Name))}
    gone -= used
    if gone:
        gone -= words_elsewhere(root, rel)
    for owner in [tree] + [n for n in tree.body if isinstance(n, ast.ClassDef)]:
        owner.body = [n for n in owner.body if not (isinstance(n, FUN) and n.name in gone)] or [ast.Pass()]
