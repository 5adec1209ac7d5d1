"""Iteration-order taint: which values depend on the iteration order of an
unordered collection (set), on directory listing order, or on object identity.

Kinds: (flag, elem) with flag '' (clean), 'U' (unordered container: its
iteration order is arbitrary) or 'T' (a sequence, string, dict or scalar whose
order/content depends on such an order); elem is the kind of the elements.
Tuple literals keep one kind per position: ('P', (k0, k1, ...)).
"""
import ast

from .project import FuncInfo, ClassInfo, AnalysisBroken

CLEAN = ('', None)
UNORD = ('U', None)
TAINT = ('T', None)

SAFE_CALLS = {"set", "frozenset", "sorted", "len", "any", "all", "min", "max", "sum", "isinstance", "bool",
              "CCPPError", "ParseInternalError", "ParseSyntaxError", "ValueError", "Exception"}
SET_METHODS = {"union", "intersection", "difference", "symmetric_difference"}
LISTING = {"os.listdir", "os.scandir", "glob.glob", "glob.iglob"}
WALKING = {"os.walk"}
IDENTITY = {"id", "hash", "time.time", "time.time_ns", "time.ctime", "time.strftime", "time.asctime",
            "datetime.datetime.now", "datetime.now", "datetime.date.today", "date.today", "os.getpid",
            "random.random", "random.choice", "random.shuffle", "random.randint", "uuid.uuid4",
            "uuid.uuid1", "time.perf_counter", "time.monotonic", "datetime.utcnow",
            "datetime.datetime.utcnow", "datetime.datetime.today", "tempfile.mkstemp",
            "tempfile.mkdtemp", "tempfile.mktemp", "random.sample"}


def join(a, b):
    if a == b:
        return a
    if a is None:
        return b
    if b is None:
        return a
    if a[0] == 'P' and b[0] == 'P' and len(a[1]) == len(b[1]):
        return ('P', tuple(join(x, y) for x, y in zip(a[1], b[1])))
    a, b = flat(a), flat(b)
    order = {'': 0, 'U': 1, 'T': 2}
    f = a[0] if order[a[0]] >= order[b[0]] else b[0]
    e = join(a[1], b[1]) if (a[1] or b[1]) else None
    return (f, e)


def flat(k):
    """Collapse a positional tuple kind."""
    if k is None:
        return CLEAN
    if k[0] == 'P':
        e = None
        for x in k[1]:
            e = join(e, flat(x))
        if e == CLEAN:
            e = None
        return ('', e)
    return k


def elem(k):
    """Kind of an element obtained by iterating over K."""
    k = flat(k)
    return k[1] or CLEAN


def cap(k, depth=3):
    """Limit the nesting of element kinds."""
    if k is None:
        return None
    if k[0] == 'P':
        if depth <= 1:
            return cap(flat(k), depth)
        return ('P', tuple(cap(x, depth - 1) for x in k[1]))
    if k[1] is None:
        return k
    if depth <= 0:
        return (k[0] if not bad(k[1]) else (k[0] or 'T'), None)
    inner = cap(k[1], depth - 1)
    return (k[0], None if inner == CLEAN else inner)


def strip(k):
    """Forget local order taint: only unorderedness crosses functions (the
    conversion of an unordered value to a sequence is reported where it
    happens and is let escape)."""
    if k is None:
        return None
    if k[0] == 'P':
        return ('P', tuple(strip(x) for x in k[1]))
    inner = strip(k[1])
    return ('U' if k[0] == 'U' else '', None if inner == CLEAN else inner)


def has_taint(k):
    """Order-dependent content (not a merely unordered container)?"""
    if k is None:
        return False
    if k[0] == 'P':
        return any(has_taint(x) for x in k[1])
    return k[0] == 'T' or has_taint(k[1])


def bad(k):
    """Does printing K expose an arbitrary order?"""
    k = flat(k)
    if k[0] in ('U', 'T'):
        return True
    return bool(k[1]) and bad(k[1])


class OrderTaint:
    """Project-wide fixpoint."""
    def __init__(self, project, cgraph, is_sink):
        self.p = project
        self.cg = cgraph
        self.is_sink = is_sink        # is_sink(fi, callnode) -> list of arg nodes or None
        self.params = {}              # (fi, name) -> kind
        self.returns = {}             # fi -> kind
        self.attrs = {}               # attr key -> kind
        self.findings = {}
        self.emitters = cgraph.reaching(lambda f, n: is_sink(f, n) is not None)
        self.mutators = self._mutators()
        self.loops = []
        self.sources = []
        self.changed = True
        rounds = 0
        while self.changed:
            self.changed = False
            self.findings = {}
            self.loops = []
            self.sources = []
            rounds += 1
            if rounds > 40:
                raise AnalysisBroken("order taint: no fixpoint")
            for fi in project.all_funcs():
                FuncTaint(self, fi).run()
        self.rounds = rounds

    @staticmethod
    def lookup(node):
        """find_variable without clone= only looks up (its bookkeeping is
        order-insensitive)."""
        return isinstance(node.func, ast.Attribute) and node.func.attr == "find_variable" and \
            not any(kw.arg == "clone" for kw in node.keywords)

    def _mutators(self):
        """Functions that insert into an ordered container which outlives
        them (an attribute, self, or a parameter)."""
        direct = set()
        for fi in self.p.all_funcs():
            if fi.name == "__init__":
                continue
            params = set(fi.params)
            for node in ast.walk(fi.node):
                place = None
                if isinstance(node, ast.Assign):
                    for tgt in node.targets:
                        if isinstance(tgt, ast.Subscript) and not isinstance(tgt.slice, ast.Constant):
                            place = tgt.value
                elif isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and \
                        node.func.attr in ("append", "insert", "extend", "appendleft"):
                    place = node.func.value
                if isinstance(place, ast.Attribute) or (isinstance(place, ast.Name) and place.id in params):
                    direct.add(fi)
        out = set(direct)
        changed = True
        while changed:
            changed = False
            for fi in self.p.all_funcs():
                if fi in out:
                    continue
                for node in ast.walk(fi.node):
                    if isinstance(node, ast.Call):
                        tgts = self.cg.resolve_call(fi, node)
                        if tgts and not self.lookup(node) and all(t in out for t in tgts) and any(t.name != "__init__" for t in tgts):
                            out.add(fi)
                            changed = True
                            break
        return out

    def put(self, table, key, kind):
        kind = strip(kind)
        old = table.get(key)
        new = cap(join(old, kind) if old is not None else kind)
        if new != old:
            table[key] = new
            if new != CLEAN or old is not None:
                self.changed = True


class FuncTaint:
    def __init__(self, ot, fi):
        self.ot = ot
        self.fi = fi
        self.env = {}
        self.loopstack = []    # kinds of enclosing tainted loops
        self.ret = None

    def run(self):
        fi = self.fi
        for name in fi.params + [a.arg for a in fi.node.args.kwonlyargs]:
            self.env[name] = self.ot.params.get((fi, name), CLEAN)
        self.locals = set(self.env)
        self.block(fi.node.body)
        if self.ret is not None:
            self.ot.put(self.ot.returns, fi, self.ret)

    # -- statements ------------------------------------------------------
    def block(self, stmts):
        for st in stmts:
            self.stmt(st)

    def merge_env(self, other):
        for name in set(self.env) | set(other):
            self.env[name] = join(self.env.get(name), other.get(name))

    def stmt(self, st):
        if isinstance(st, ast.Assign):
            k = self.ev(st.value)
            for tgt in st.targets:
                self.assign(tgt, k, st.value)
        elif isinstance(st, ast.AnnAssign) and st.value is not None:
            self.assign(st.target, self.ev(st.value), st.value)
        elif isinstance(st, ast.AugAssign):
            k = flat(self.ev(st.value))
            cur = flat(self.ev(self._load(st.target)))
            new = join(cur, k) if cur[0] != 'U' else cur
            if k[0] == 'U' and cur[0] != 'U':
                new = ('T', k[1])
            if self.loopstack and cur[0] != 'U' and not isinstance(st.op, (ast.Sub, ast.Mult, ast.BitOr, ast.BitAnd)):
                if not self._numeric(st.value):
                    new = join(new, TAINT)
            self.assign(st.target, new, st.value, aug=True)
        elif isinstance(st, ast.Expr):
            self.ev(st.value)
        elif isinstance(st, ast.Return):
            k = self.ev(st.value) if st.value is not None else CLEAN
            if has_taint(k):
                self.finding(st.value, "a value in arbitrary order is returned")
            self.ret = join(self.ret, k) if self.ret is not None else k
        elif isinstance(st, ast.If):
            self.ev(st.test)
            before = dict(self.env)
            self.block(st.body)
            after = self.env
            self.env = before
            self.block(st.orelse)
            if self._terminates(st.body):
                pass
            elif st.orelse and self._terminates(st.orelse):
                self.env = after
            else:
                self.merge_env(after)
        elif isinstance(st, (ast.For, ast.AsyncFor)):
            k = self.ev(st.iter)
            k = flat(k)
            tainted = k[0] in ('U', 'T')
            if tainted:
                self.note_loop(st, st.iter)
                self.loopstack.append(st)
            self.assign(st.target, self._iter_elem(k, st.iter), None)
            for _ in range(2):
                before = dict(self.env)
                self.block(st.body)
                self.merge_env(before)
            if tainted:
                self.loopstack.pop()
            self.block(st.orelse)
        elif isinstance(st, ast.While):
            self.ev(st.test)
            for _ in range(2):
                before = dict(self.env)
                self.block(st.body)
                self.merge_env(before)
            self.block(st.orelse)
        elif isinstance(st, ast.With):
            for item in st.items:
                k = self.ev(item.context_expr)
                if item.optional_vars is not None:
                    self.assign(item.optional_vars, k, None)
            self.block(st.body)
        elif isinstance(st, ast.Try):
            self.block(st.body)
            for h in st.handlers:
                before = dict(self.env)
                self.block(h.body)
                self.merge_env(before)
            self.block(st.orelse)
            self.block(st.finalbody)
        elif isinstance(st, (ast.Raise, ast.Assert)):
            return
        elif isinstance(st, ast.Delete):
            return

    @staticmethod
    def _terminates(body):
        return bool(body) and isinstance(body[-1], (ast.Return, ast.Raise))

    @staticmethod
    def _numeric(node):
        return isinstance(node, ast.Constant) and isinstance(node.value, (int, float)) or (
            isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id in ("len", "int", "max", "min"))

    @staticmethod
    def _load(tgt):
        new = ast.parse(ast.unparse(tgt), mode="eval").body
        return new

    def _iter_elem(self, k, node):
        if isinstance(node, ast.Call):
            name = self._dotted(node.func)
            if name in WALKING:
                return ('P', (CLEAN, UNORD, UNORD))
            if name == "enumerate" and node.args:
                return ('P', (CLEAN, elem(self.ev(node.args[0]))))
            if name.endswith(".items"):
                return ('P', (CLEAN, elem(k)))
        return elem(k)

    def note_loop(self, st, it):
        self.ot.loops.append((self.fi, st, ast.unparse(it)))

    def attr_key(self, node):
        attr = node.attr
        if attr.startswith("__") and not attr.endswith("__") and self.fi.cls is not None:
            return "_%s%s" % (self.fi.cls.name, attr)
        return attr

    def assign(self, tgt, k, value, aug=False):
        if isinstance(tgt, ast.Name):
            self.env[tgt.id] = k
            self.locals.add(tgt.id)
        elif isinstance(tgt, (ast.Tuple, ast.List)):
            if k[0] == 'P' and len(k[1]) == len(tgt.elts):
                for sub, kk in zip(tgt.elts, k[1]):
                    self.assign(sub, kk, None)
            else:
                e = elem(k)
                if flat(k)[0] == 'T' or flat(k)[0] == 'U':
                    e = join(e, TAINT)
                for sub in tgt.elts:
                    self.assign(sub, e, None)
        elif isinstance(tgt, ast.Attribute):
            self.ot.put(self.ot.attrs, self.attr_key(tgt), flat(k))
            if has_taint(k):
                self.finding(tgt, "a value in arbitrary order is stored")
            if tgt.attr == "text" and bad(k):
                self.finding(tgt, "assigned to an output element's text")
        elif isinstance(tgt, ast.Subscript):
            # container element store
            cur = flat(self.ev(tgt.value))
            new = (cur[0], join(cur[1], flat(k)) if flat(k) != CLEAN or cur[1] else cur[1])
            if self.loopstack and cur[0] != 'U' and not isinstance(tgt.slice, ast.Constant):
                new = join(new, TAINT)
            self.set_place(tgt.value, new)
        elif isinstance(tgt, ast.Starred):
            self.assign(tgt.value, (flat(k)[0], flat(k)[1]), None)

    def set_place(self, node, k):
        if isinstance(node, ast.Name):
            self.env[node.id] = k
            if node.id in self.fi.params and has_taint(k):
                self.finding(node, "caller's container is filled in arbitrary order")
            if node.id in self.fi.params and k != CLEAN:
                # the caller's container changes as well
                self.ot.put(self.ot.params, (self.fi, "&" + node.id), k)
        elif isinstance(node, ast.Attribute):
            if has_taint(k):
                self.finding(node, "filled in arbitrary order")
            self.ot.put(self.ot.attrs, self.attr_key(node), k)
        elif isinstance(node, ast.Subscript):
            cur = flat(self.ev(node.value))
            self.set_place(node.value, (cur[0], join(cur[1], k)))

    def finding(self, node, what):
        text = ast.unparse(node)
        if len(text) > 70:
            text = text[:67] + "..."
        self.ot.findings.setdefault((self.fi.ident, text), (what, self.fi.where(node)))

    # -- expressions -----------------------------------------------------
    def _dotted(self, func):
        try:
            return ast.unparse(func)
        except Exception:
            return ""

    def ev(self, node):
        if node is None:
            return CLEAN
        meth = getattr(self, "e_" + type(node).__name__, None)
        if meth:
            return meth(node)
        k = CLEAN
        for child in ast.iter_child_nodes(node):
            if isinstance(child, ast.expr):
                sub = flat(self.ev(child))
                if sub[0] == 'T':
                    k = join(k, TAINT)
        return k

    def e_Constant(self, node):
        return CLEAN

    def e_Name(self, node):
        if node.id in self.env:
            return self.env[node.id]
        tgt = self.ot.p.resolve(self.fi.module, node.id)
        if isinstance(tgt, tuple) and tgt[0] == 'const':
            if isinstance(tgt[2], (ast.Set, ast.SetComp)) or (
                    isinstance(tgt[2], ast.Call) and self._dotted(tgt[2].func) in ("set", "frozenset")):
                return UNORD
        return CLEAN

    def e_Attribute(self, node):
        base = self.ev(node.value)
        key = self.attr_key(node)
        k = self.ot.attrs.get(key, CLEAN)
        if key.startswith("__") or key.startswith("_"):
            pass
        props = [m for m in self.ot.cg.by_name.get(node.attr, []) if m.is_property]
        for m in props:
            r = self.ot.returns.get(m)
            if r is not None:
                k = join(k, flat(r))
        return k

    def e_Set(self, node):
        self.ot.sources.append((self.fi, node))
        for e in node.elts:
            self.ev(e)
        return UNORD

    def e_SetComp(self, node):
        self.comp(node, [node.elt])
        self.ot.sources.append((self.fi, node))
        return UNORD

    def e_List(self, node):
        e = None
        for x in node.elts:
            k = flat(self.ev(x))
            if isinstance(x, ast.Starred):
                k = flat(self.ev(x.value))
                if k[0] in ('U', 'T'):
                    return TAINT
                k = k[1] or CLEAN
            if k != CLEAN:
                e = join(e, k)
        return ('', e)

    def e_Tuple(self, node):
        return ('P', tuple(flat(self.ev(x)) for x in node.elts))

    def e_Dict(self, node):
        e = None
        for v in list(node.keys) + list(node.values):
            if v is None:
                continue
            k = flat(self.ev(v))
            if k != CLEAN:
                e = join(e, k)
        return ('', e)

    def comp(self, node, elts):
        saved = dict(self.env)
        tainted = False
        for gen in node.generators:
            k = flat(self.ev(gen.iter))
            if k[0] in ('U', 'T'):
                tainted = True
            self.assign(gen.target, self._iter_elem(k, gen.iter), None)
            for c in gen.ifs:
                self.ev(c)
        e = None
        for x in elts:
            k = flat(self.ev(x))
            if k != CLEAN:
                e = join(e, k)
        self.env = saved
        return tainted, e

    def e_ListComp(self, node):
        tainted, e = self.comp(node, [node.elt])
        return ('T' if tainted else '', e)

    e_GeneratorExp = e_ListComp

    def e_DictComp(self, node):
        tainted, e = self.comp(node, [node.key, node.value])
        return ('T' if tainted else '', e)

    def e_IfExp(self, node):
        self.ev(node.test)
        return join(self.ev(node.body), self.ev(node.orelse))

    def e_BoolOp(self, node):
        k = None
        for v in node.values:
            k = join(k, flat(self.ev(v))) if k is not None else flat(self.ev(v))
        return k

    def e_Compare(self, node):
        self.ev(node.left)
        for c in node.comparators:
            self.ev(c)
        return CLEAN

    def e_UnaryOp(self, node):
        k = self.ev(node.operand)
        return CLEAN if isinstance(node.op, ast.Not) else k

    def e_BinOp(self, node):
        a, b = flat(self.ev(node.left)), flat(self.ev(node.right))
        if isinstance(node.op, (ast.BitOr, ast.BitAnd, ast.BitXor, ast.Sub)) and 'U' in (a[0], b[0]):
            return UNORD
        if isinstance(node.op, ast.Mod) and bad(b):
            return TAINT
        k = join(a, b)
        if k[0] == 'U':
            k = TAINT
        return k

    def e_JoinedStr(self, node):
        for v in node.values:
            if isinstance(v, ast.FormattedValue) and bad(self.ev(v.value)):
                return TAINT
        return CLEAN

    def e_Subscript(self, node):
        base = self.ev(node.value)
        self.ev(node.slice) if not isinstance(node.slice, ast.Slice) else None
        if base[0] == 'P' and isinstance(node.slice, ast.Constant) and isinstance(node.slice.value, int):
            if -len(base[1]) <= node.slice.value < len(base[1]):
                return base[1][node.slice.value]
        base = flat(base)
        if isinstance(node.slice, ast.Slice):
            return base
        is_dict_key = isinstance(node.slice, (ast.Name, ast.Attribute, ast.Constant)) and not (
            isinstance(node.slice, ast.Constant) and isinstance(node.slice.value, int))
        if base[0] == 'T' and not is_dict_key:
            return join(base[1], TAINT)
        return base[1] or CLEAN

    def e_Starred(self, node):
        return self.ev(node.value)

    def e_Lambda(self, node):
        return CLEAN

    def e_NamedExpr(self, node):
        k = self.ev(node.value)
        self.assign(node.target, k, node.value)
        return k

    def e_Call(self, node):
        name = self._dotted(node.func)
        args = [self.ev(a) for a in node.args]
        kwargs = {kw.arg: self.ev(kw.value) for kw in node.keywords}
        # sinks
        sink = self.ot.is_sink(self.fi, node)
        if sink is not None:
            for a in sink:
                if bad(self.ev(a)):
                    self.finding(a, "order-dependent text is written to generated output")
            if self.loopstack:
                loop = self.loopstack[-1]
                self.finding(loop.iter, "generated output is written while iterating in arbitrary order")
        # constructors of unordered values
        if name in ("set", "frozenset"):
            self.ot.sources.append((self.fi, node))
            return UNORD
        if name in LISTING or name in WALKING or name.endswith(".iterdir") or name.endswith(".rglob"):
            self.ot.sources.append((self.fi, node))
            return UNORD
        if name in IDENTITY and self.fi.name not in ("__repr__", "__hash__"):
            self.ot.sources.append((self.fi, node))
            return TAINT
        if name == "sorted":
            k = flat(args[0]) if args else CLEAN
            key = [kw.value for kw in node.keywords if kw.arg == "key"]
            if key and k[0] in ('U', 'T') and self._ties(key[0]):
                return TAINT
            return ('', k[1])
        if name in ("list", "tuple", "reversed", "iter", "enumerate", "filter", "map", "zip", "dict", "str",
                    "repr", "next"):
            k = CLEAN
            for a in args:
                k = join(k, flat(a))
            if name in ("str", "repr"):
                return TAINT if bad(k) else CLEAN
            if k[0] == 'U':
                return ('T', k[1])
            return k
        if name in ("len", "isinstance", "min", "max", "sum", "any", "all", "bool", "int", "float", "hasattr"):
            return CLEAN
        if name in ("dict.fromkeys", "OrderedDict.fromkeys") and args:
            k = flat(args[0])
            return ('T', None) if k[0] in 'UT' and k[0] else k
        if name in ("copy.copy", "copy.deepcopy") and args:
            return args[0]
        if isinstance(node.func, ast.Attribute):
            attr = node.func.attr
            base = flat(self.ev(node.func.value))
            if attr in SET_METHODS and (base[0] == 'U'):
                return UNORD
            if attr == "copy":
                return base
            if attr == "pop" and base[0] == 'U':
                return TAINT
            if attr == "pop" and base[0] == 'T':
                return join(base[1] or CLEAN, TAINT if not node.args or not isinstance(
                    node.args[0], (ast.Name, ast.Attribute)) else CLEAN)
            if attr == "sort" and not node.args:
                self.set_clean(node.func.value)
                return CLEAN
            if attr in ("append", "insert", "appendleft", "extend", "setdefault") and node.args:
                a = flat(args[-1])
                if attr == "extend":
                    add = (('T', a[1]) if a[0] in ('U', 'T') else ('', a[1]))
                else:
                    add = ('', a if a != CLEAN else None)
                new = join(base, add) if base[0] != 'U' else base
                if self.loopstack and base[0] != 'U':
                    new = join(new, TAINT)
                if new != base:
                    self.set_place(node.func.value, new)
                if attr == "setdefault":
                    return add[1] or CLEAN
                return CLEAN
            if attr == "update" and node.args:
                a = flat(args[0])
                if base[0] != 'U' and a[0] in ('U', 'T'):
                    self.set_place(node.func.value, join(base, TAINT))
                return CLEAN
            if attr == "join" and args:
                return TAINT if bad(args[0]) else CLEAN
            if attr == "format":
                if bad(base) or any(bad(a) for a in args) or any(bad(a) for a in kwargs.values()):
                    return TAINT
                return CLEAN
            if attr in ("keys", "items"):
                return base if base[0] == 'T' else (base[0], base[1] if attr == "items" else None)
            if attr == "values":
                return base
            if attr == "get" and base[1]:
                return base[1]
            if attr in ("split", "strip", "lower", "upper", "replace", "rstrip", "lstrip", "splitlines"):
                return TAINT if base[0] == 'T' else CLEAN
        # resolved project callees
        targets = self.ot.cg.resolve_call(self.fi, node)
        res = None
        if targets or isinstance(node.func, ast.Name):
            for a, k in list(zip(node.args, args)) + [(kw.value, kwargs[kw.arg]) for kw in node.keywords]:
                if has_taint(k) and name not in SAFE_CALLS:
                    self.finding(a, "a value in arbitrary order is passed to %s" % name)
        for fi in targets:
            self.bind_args(fi, node, args, kwargs)
            r = self.ot.returns.get(fi)
            if r is not None:
                res = join(res, r) if res is not None else r
            if self.loopstack and fi in self.ot.emitters and self.exact(node, targets):
                self.finding(self.loopstack[-1].iter,
                             "%s writes generated output while iterating in arbitrary order" % fi.qualname)
        if self.loopstack and targets and not self.ot.lookup(node) and \
                all(t in self.ot.mutators for t in targets):
            self.finding(self.loopstack[-1].iter,
                         "%s fills an ordered container while iterating in arbitrary order" %
                         targets[0].qualname)
        return res if res is not None else CLEAN

    def exact(self, node, targets):
        """Is the callee of NODE known, rather than guessed from its name?"""
        if isinstance(node.func, ast.Name):
            return True
        if isinstance(node.func, ast.Attribute) and isinstance(node.func.value, ast.Name) and \
                node.func.value.id in ("self", "cls"):
            return True
        return len(targets) == 1 or all(t in self.ot.emitters for t in targets)

    @staticmethod
    def _ties(key):
        """Does this sort key map many elements to one value by construction?"""
        body = key.body if isinstance(key, ast.Lambda) else key
        if isinstance(body, ast.Constant):
            return True
        if isinstance(body, ast.Name):
            return body.id in ("len", "id", "hash", "type", "bool")
        return isinstance(body, ast.Call) and isinstance(body.func, ast.Name) and \
            body.func.id in ("len", "id", "hash", "type", "bool")

    def set_clean(self, node):
        if isinstance(node, ast.Subscript) and isinstance(node.value, ast.Name):
            cur = flat(self.env.get(node.value.id, CLEAN))
            inner = flat(cur[1]) if cur[1] else CLEAN
            self.env[node.value.id] = (cur[0], ('', inner[1]) if inner[1] else None)
        if isinstance(node, ast.Name):
            cur = flat(self.env.get(node.id, CLEAN))
            self.env[node.id] = ('', cur[1])

    def bind_args(self, fi, node, args, kwargs):
        params = fi.params
        off = 0
        if fi.cls is not None and params[:1] in (["self"], ["cls"]) and not (
                isinstance(node.func, ast.Attribute) and isinstance(node.func.value, ast.Name) and
                isinstance(self.ot.p.resolve(self.fi.module, node.func.value.id), ClassInfo)
                and not fi.is_classmethod):
            off = 1
        for i, k in enumerate(args):
            if i + off < len(params):
                name = params[i + off]
                if flat(k) != CLEAN:
                    self.ot.put(self.ot.params, (fi, name), flat(k))
                back = self.ot.params.get((fi, "&" + name))
                if back is not None and i < len(node.args):
                    cur = flat(self.ev(node.args[i]))
                    if cur[0] != 'U':
                        self.set_place(node.args[i], join(cur, back))
        for name, k in kwargs.items():
            if name in params and flat(k) != CLEAN:
                self.ot.put(self.ot.params, (fi, name), flat(k))
