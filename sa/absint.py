"""A path-sensitive abstract interpreter for Python syntax trees.

The abstract state is (variable bindings, attribute heap, valuation of branch
predicates, rule-defined typestate).  Values are k-limited origin terms or
small constants/containers; the domain is a powerset of such states, loops are
iterated to a fixpoint with widening, and states that agree on their typestate
are merged at joins (property simulation) when a rule asks for it or when the
state budget is reached.  Nothing from the analysed program is executed and no
solver is consulted: branches whose predicate is not determined by the state
are taken both ways.

Abstract values are tuples:
  ('k', typename, v)        constant
  ('l', elts, kind)         list/tuple/set; an element ('many', v) stands for
                            zero or more v
  ('d', ((k, v), ...), open)  dict
  ('s', parts)              string assembled from literal and abstract parts
  ('f', FuncInfo) ('c', ClassInfo) ('m', modname) ('bm', recv, FuncInfo)
  ('ext', dotted)           something outside the project
  ('cmp', atom, positive)   undecided comparison
  ('j', frozenset)          join of values
  other heads               opaque origin terms: param, attr, item, call, elem,
                            bin, new, top, un
"""
import ast
import string

from .liveness import Liveness
from .project import FuncInfo, ClassInfo, Module, AnalysisBroken

TRUE = ('k', 'bool', True)
FALSE = ('k', 'bool', False)
NONE = ('k', 'NoneType', None)


def K(v):
    return ('k', type(v).__name__, v)


def isk(v, val=None):
    return v[0] == 'k' and (val is None or v[2] == val)


_SIZE = {}


def size(v):
    """Number of constructors in a value (memoised)."""
    if not isinstance(v, (tuple, frozenset)):
        return 0
    if isinstance(v, tuple) and v and v[0] == 'k':
        return 1
    got = _SIZE.get(v)
    if got is None:
        got = 1
        for x in v:
            if isinstance(x, (tuple, frozenset)):
                got += size(x)
        if len(_SIZE) > 400000:
            _SIZE.clear()
        _SIZE[v] = got
    return got


_MENT = {}


def partial(it):
    """Does the iterable IT obviously leave out elements of what it is taken from?"""
    if not isinstance(it, (tuple, frozenset)) or not it:
        return False
    if isinstance(it, tuple) and it[0] == 'slice' and len(it) == 5:
        full = (it[2] in (NONE, K(0))) and it[3] == NONE and it[4] in (NONE, K(1), K(-1))
        if not full:
            return True
    if isinstance(it, tuple) and it[0] == 'call' and it[1] == 'range':
        args = it[3]
        if len(args) > 1 and args[0] not in (K(0),):
            return True
        stop = args[0] if len(args) == 1 else args[1]
        if stop[0] == 'bin':
            return True
    if isinstance(it, tuple) and it[0] == 'call' and it[1].split(".")[-1] in ('islice', 'takewhile', 'dropwhile'):
        return True
    if isinstance(it, tuple) and it[0] == 'item':
        # an element: how it was reached does not matter
        return False
    return any(partial(x) for x in it if isinstance(x, (tuple, frozenset)))


def mentions(v, sub):
    if v == sub:
        return True
    if not isinstance(v, (tuple, frozenset)) or (v and isinstance(v, tuple) and v[0] == 'k'):
        return False
    key = (v, sub)
    got = _MENT.get(key)
    if got is None:
        got = any(mentions(x, sub) for x in v if isinstance(x, (tuple, frozenset)))
        if len(_MENT) > 400000:
            _MENT.clear()
        _MENT[key] = got
    return got


_TOPS = {}


def has_top(v):
    """True if V contains an unknown (not merely opaque) part."""
    if not isinstance(v, (tuple, frozenset)):
        return False
    if isinstance(v, tuple) and v:
        if v[0] in ('top', 'j', 'many', 'maybe'):
            return True
        if v[0] == 'k':
            return False
    got = _TOPS.get(v)
    if got is None:
        got = any(has_top(x) for x in v if isinstance(x, (tuple, frozenset)))
        if len(_TOPS) > 400000:
            _TOPS.clear()
        _TOPS[v] = got
    return got


def show(v):
    """Readable form of an abstract value."""
    if not isinstance(v, tuple) or not v:
        return str(v)
    h = v[0]
    if h == 'k':
        return repr(v[2])
    if h == 'param':
        return v[1]
    if h == 'attr':
        return "%s.%s" % (show(v[1]), v[2])
    if h == 'item':
        return "%s[%s]" % (show(v[1]), show(v[2]))
    if h == 'call':
        args = ", ".join(show(a) for a in v[3])
        recv = show(v[2]) + "." if v[2] else ""
        return "%s%s(%s)" % (recv, v[1], args)
    if h == 'elem':
        return "elem(%s)" % show(v[1])
    if h == 'bin':
        return "(%s %s %s)" % (show(v[2]), v[1], show(v[3]))
    if h == 's':
        return "".join(p if isinstance(p, str) else "{%s}" % show(p) for p in v[1])
    if h == 'l':
        return "[%s]" % ", ".join(show(e) for e in v[1])
    if h == 'many':
        return "*%s" % show(v[1])
    if h in ('f', 'c'):
        return v[1].name
    if h == 'cmp':
        return ("" if v[2] else "not ") + show_atom(v[1])
    if h == 'new':
        return "%s()" % v[1]
    if h == 'ext':
        return v[1]
    if h == 'j':
        return "{%s}" % "|".join(sorted(show(x) for x in v[1]))
    return "<%s>" % ":".join(str(x) if not isinstance(x, tuple) else show(x) for x in v[:3])


def show_atom(a):
    if a[0] == 'eq':
        return "%s == %s" % (show(a[1]), show(a[2]))
    if a[0] == 'isnone':
        return "%s is None" % show(a[1])
    if a[0] == 'in':
        return "%s in %s" % (show(a[1]), show(a[2]))
    if a[0] == 'lt':
        return "%s < %s" % (show(a[1]), show(a[2]))
    if a[0] == 'truth':
        return show(a[1])
    return "%s(%s)" % (a[0], ", ".join(show(x) if isinstance(x, tuple) else str(x) for x in a[1:]))


class St:
    __slots__ = ("env", "heap", "preds", "ts", "trace", "_key")

    def __init__(self, env=None, heap=None, preds=None, ts=(), trace=()):
        self.env = env or {}
        self.heap = heap or {}
        self.preds = preds or {}
        self.ts = ts
        self.trace = trace
        self._key = None

    def copy(self):
        return St(dict(self.env), dict(self.heap), dict(self.preds), self.ts, self.trace)

    def key(self):
        if self._key is None:
            self._key = (frozenset(self.env.items()), frozenset(self.heap.items()),
                         frozenset(self.preds.items()), self.ts)
        return self._key

    def with_env(self, env):
        return St(env, self.heap, self.preds, self.ts, self.trace)

    def with_ts(self, ts):
        if ts == self.ts:
            return self
        return St(self.env, self.heap, self.preds, ts, self.trace)

    def bind(self, name, val):
        env = dict(self.env)
        env[name] = val
        return St(env, self.heap, self.preds, self.ts, self.trace)

    def unbind(self, name):
        env = dict(self.env)
        env.pop(name, None)
        return St(env, self.heap, self.preds, self.ts, self.trace)

    def put(self, key, val):
        heap = dict(self.heap)
        heap[key] = val
        return St(self.env, heap, self.preds, self.ts, self.trace)

    def assume(self, atom, val, line=0):
        preds = dict(self.preds)
        preds[atom] = val
        trace = self.trace
        if line:
            trace = (trace + ((line, atom, val),))[-40:]
        return St(self.env, self.heap, preds, self.ts, trace)


class Exits:
    """States leaving a statement list, by kind."""
    def __init__(self):
        self.next = []
        self.ret = []
        self.exc = []
        self.brk = []
        self.cont = []

    def absorb(self, other):
        self.ret += other.ret
        self.exc += other.exc
        self.brk += other.brk
        self.cont += other.cont


class Rule:
    """Hooks a rule may override."""
    max_depth = 5
    max_states = 600
    merge = False           # merge states with equal typestate at joins
    keep = ()               # variables never joined when merging
    eager = False           # decide comparisons where they are stored
    liveness = False        # drop dead variables from the states
    merge_over = 100000     # merge between statements from this many states on
    join_lists = False      # lists that differ are joined to the list of what is in any of them
    keep_none = False       # do not merge states that differ in what is None, '' or a boolean
    inline_ctor = False
    calls_may_raise = True  # opaque calls inside a try body may raise
    loop_rounds = 4
    text = True             # keep the text of assembled strings
    max_parts = 24          # pieces kept of an assembled string
    chop = False            # slices keep only what the events' results flow through
    fold = None             # map a literal to marks: keep only the marks of assembled strings

    def fold_value(self, val):
        """Marks of an abstract value that is part of an assembled string."""
        return ()

    def fold_norm(self, marks):
        """Normal form of a sequence of marks (must be a finite domain in loops)."""
        return marks

    def inline(self, fi, depth):
        return True

    def on_call(self, ip, st, node, name, target, recv, args, kwargs):
        return None

    def on_stmt(self, ip, st, node):
        return st

    def on_raise(self, ip, st, node, exc):
        return st

    def on_store(self, ip, st, node, kind, base, key, val):
        return st

    def on_bind(self, ip, st, node, name, val):
        return st

    def on_bound(self, ip, st, node, name, val):
        """After NAME was bound to VAL."""
        return st

    def on_unbound(self, ip, st, node):
        return None

    def on_attr(self, ip, st, node, base, attr):
        return None

    def seq_of(self, ip, it):
        """The elements of an iterable, as a list of values and ('many', value)."""
        return None

    def oracle(self, ip, st, atom):
        return None

    def type_of(self, ip, val):
        return None

    def impure(self, name):
        return name in IMPURE

    def on_branch(self, ip, st, node, val):
        return None

    def on_assume(self, ip, st, atom, val):
        """A branch predicate was taken to be VAL."""
        return st

    def on_iter(self, ip, st, node, it):
        """NODE starts to iterate over the value IT."""

    def iter_start(self, ip, st, node):
        return st

    def iter_end(self, ip, st, node):
        return st

    def iter_break(self, ip, st, node):
        return st

    def slice_events(self, fi):
        """A predicate on ast.Call nodes: analyse only what can affect them."""
        return None


IMPURE = {"next", "pop", "readline", "readlines", "read", "next_line", "curr_line",
          "popitem", "peek_line", "time", "now"}

STR_METHODS = {"lower", "upper", "strip", "lstrip", "rstrip", "split", "startswith",
               "endswith", "replace", "find", "rfind", "index", "rindex", "join", "title",
               "capitalize", "isdigit", "isspace", "isalpha", "isalnum", "count", "splitlines",
               "ljust", "rjust", "zfill", "partition", "rpartition", "isidentifier", "center"}

PURE_BUILTINS = {"len": len, "int": int, "str": str, "bool": bool, "abs": abs,
                 "min": min, "max": max, "float": float, "ord": ord, "chr": chr,
                 "repr": repr, "sum": sum, "round": round}


class Interp:
    def __init__(self, project, rule):
        self.p = project
        self.rule = rule
        self.stack = []        # FuncInfo frames
        self.loops = []        # loop nodes being analysed, outermost first
        self._raises = []      # collector for exceptional exits of expressions
        self._try = 0
        self.visited = set()   # (FuncInfo ident) functions analysed
        self.steps = 0
        self.step_limit = 400000
        self.term_limit = 48
        self.lines = set()
        self._sliced = {}
        self._live = {}

    def in_slice(self, node):
        """Is NODE in the slice of its function (if that one is sliced)?"""
        keep = self._sliced.get(id(self.fi.node))
        return keep is None or id(node) in keep

    def make_slice(self, fi, pred):
        """Backward slice (flow-insensitive): statements that contain an event
        call, control one, or assign a name such a statement uses."""
        parents = {}
        for parent in ast.walk(fi.node):
            for child in ast.iter_child_nodes(parent):
                parents[child] = parent
        stmts = [n for n in ast.walk(fi.node) if isinstance(n, ast.stmt) and n is not fi.node]
        keep = set()

        def own_exprs(st):
            """Expressions evaluated by the statement itself (not its body)."""
            out = []
            for field, val in ast.iter_fields(st):
                if field in ('body', 'orelse', 'finalbody', 'handlers'):
                    continue
                for v in (val if isinstance(val, list) else [val]):
                    if isinstance(v, ast.AST):
                        out.append(v)
            return out

        def names_in(exprs, ctx):
            res = set()
            for e in exprs:
                for n in ast.walk(e):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ctx):
                        res.add(n.id)
                    elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ctx):
                        res.add('.' + n.attr)
            return res

        info = []
        for st in stmts:
            ex = own_exprs(st)
            defs = names_in(ex, (ast.Store, ast.Del))
            for e in ex:
                for n in ast.walk(e):
                    # in-place mutation of a local container
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
                            isinstance(n.func.value, ast.Name) and n.func.attr in (
                                'append', 'extend', 'add', 'update', 'insert', 'pop', 'remove'):
                        defs.add(n.func.value.id)
                    elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and \
                            isinstance(n.value, ast.Name):
                        defs.add(n.value.id)
            uses = names_in(ex, ast.Load) | {d for d in defs}
            event = any((isinstance(n, ast.Call) or (isinstance(n, ast.Attribute) and
                                                     isinstance(n.ctx, ast.Store))) and pred(n)
                        for e in ex for n in ast.walk(e))
            ctl = None
            if isinstance(st, (ast.Break, ast.Continue)):
                ctl = parents.get(st)
                while ctl is not None and not isinstance(ctl, (ast.For, ast.While)):
                    ctl = parents.get(ctl)
            elif isinstance(st, ast.Return):
                ctl = fi.node
            info.append((st, defs, uses, event, ctl))
        need = set()
        changed = True
        by_node = {i[0]: i for i in info}

        def add(st):
            nonlocal changed
            while st is not None and st is not fi.node:
                if isinstance(st, ast.stmt) and id(st) not in keep:
                    keep.add(id(st))
                    changed = True
                    need.update(by_node[st][2])
                st = parents.get(st)

        if self.rule.chop:
            # only what the events' results flow through, and what that starts from
            flow = set()
            for st, defs, uses, event, ctl in info:
                if event:
                    flow |= defs
            while changed:
                changed = False
                for st, defs, uses, event, ctl in info:
                    if (uses & flow) and (defs - flow) and not isinstance(st, (ast.For, ast.While, ast.If)):
                        flow |= defs
                        changed = True
            for st, defs, uses, event, ctl in info:
                if event or (defs & flow) or isinstance(st, ast.Return):
                    add(st)
            for st, defs, uses, event, ctl in info:
                if isinstance(st, (ast.Break, ast.Continue)) and id(ctl) in keep:
                    add(st)
            return keep
        for st, _, _, event, ctl in info:
            if event:
                add(st)
        while changed:
            changed = False
            for st, defs, _, _, ctl in info:
                if id(st) in keep:
                    continue
                if defs & need:
                    add(st)
                elif ctl is not None and (ctl is fi.node or id(ctl) in keep):
                    # a jump out of a kept loop, or a return
                    add(st)
        return keep

    # ------------------------------------------------------------------ API
    @property
    def fi(self):
        return self.stack[-1]

    def run(self, fi, args=None, ts=(), preds=None, heap=None):
        """Analyse FI from an abstract entry state; return Exits with
        .ret as (St, value, node) and .exc as (St, excval, node)."""
        env = {}
        for name in fi.params:
            env[name] = ('param', name)
        node = fi.node
        for a in node.args.kwonlyargs:
            env[a.arg] = ('param', a.arg)
        if node.args.vararg:
            env[node.args.vararg.arg] = ('param', node.args.vararg.arg)
        if node.args.kwarg:
            env[node.args.kwarg.arg] = ('param', node.args.kwarg.arg)
        env.update(args or {})
        st = St(env, heap or {}, preds or {}, ts)
        self.stack.append(fi)
        pred = self.rule.slice_events(fi)
        if pred is not None:
            self._sliced[id(fi.node)] = self.make_slice(fi, pred)
        self.visited.add(fi.ident)
        saved, self._raises = self._raises, []
        ex = self.block(node.body, [st])
        ex.exc += self._raises
        self._raises = saved
        self.stack.pop()
        ex.ret += [(s, NONE, node) for s in ex.next]
        ex.next = []
        return ex

    # ----------------------------------------------------------- statements
    def plain(self, v, depth=0):
        """V without what tells apart unknown values (chopped slices)."""
        if v[0] == 'top':
            return ('top', 'any')
        if v[0] == 'j':
            alts = frozenset(self.plain(x, 1) for x in v[1])
            return next(iter(alts)) if len(alts) == 1 else ('j', alts, 'any')
        if v[0] == 'maybe':
            return self.plain(v[1], depth)
        if v[0] in ('l', 'd') and has_top(v):
            return ('top', 'any')
        if v[0] not in ('k', 't', 'l', 'd', 's', 'nes') and depth and has_top(v):
            return ('top', 'any')
        return v

    def dedup(self, states, merge=True):
        if self.rule.chop:
            states = [s.with_env({n: self.plain(v) for n, v in s.env.items()}) for s in states]
        if len(states) == 1:
            return states
        seen = {}
        for st in states:
            seen.setdefault(st.key(), st)
        out = list(seen.values())
        if (merge and self.rule.merge and len(out) > 1) or len(out) > self.rule.max_states:
            out = self.merge(out)
        return out

    def merge(self, states):
        groups = {}
        for st in states:
            key = (st.ts, tuple((k, st.env.get(k)) for k in self.rule.keep))
            if self.rule.keep_none:
                key += (frozenset((k, None) for k, v in st.env.items() if v == NONE or v == K('')) | frozenset(
                    (k, v[2]) for k, v in st.env.items() if v[0] == 'k' and v[1] == 'bool'),)
            groups.setdefault(key, []).append(st)
        out = []
        for group in groups.values():
            out.append(self.join(group))
        if len(out) > 4 * self.rule.max_states:
            raise AnalysisBroken("state budget exceeded in %s" % self.fi.ident)
        return out

    def join(self, group):
        if len(group) == 1:
            return group[0]
        first = group[0]
        env = {}
        for name in first.env:
            vals = set()
            for st in group:
                if name not in st.env:
                    break
                vals.add(st.env[name])
            else:
                env[name] = self.join_vals(vals, name)
                continue
            # maybe unbound on some path
            allv = {st.env[name] for st in group if name in st.env}
            env[name] = self.join_vals(allv | {('maybe', next(iter(allv)))}, name)
        for st in group[1:]:
            for name in st.env:
                if name not in env:
                    allv = {s.env[name] for s in group if name in s.env}
                    env[name] = self.join_vals(allv | {('maybe', next(iter(allv)))}, name)
        heap = {}
        for key in first.heap:
            vals = set()
            for st in group:
                if key not in st.heap:
                    break
                vals.add(st.heap[key])
            else:
                heap[key] = self.join_vals(vals, key)
        preds = {}
        if self.rule.join_lists:
            for name in env:
                vals = {x for st in group for x in [st.env.get(name, ('unset',))]}
                flat = {y for v in vals for y in (v[1] if v[0] == 'j' else (v,))}
                if len(flat) > 1 and all(v[0] == 'l' for v in flat) and len({v[2] for v in flat}) == 1:
                    items = {x if x[0] == 'many' else ('many', x) for v in flat for x in v[1]}
                    env[name] = ('l', tuple(sorted(items, key=repr)), next(iter(flat))[2])
        newvals = [v for n, v in env.items() if v[0] in ('j', 'top', 'maybe')
                   and v != first.env.get(n)]
        for atom, val in first.preds.items():
            if all(st.preds.get(atom) == val for st in group[1:]):
                if not any(mentions(atom, nv) for nv in newvals):
                    preds[atom] = val
        return St(env, heap, preds, first.ts, first.trace)

    @staticmethod
    def join_vals(vals, label):
        if len(vals) == 1:
            return next(iter(vals))
        flat = set()
        maybe = False
        for v in vals:
            if v[0] == 'maybe':
                maybe = True
                while v[0] == 'maybe':
                    v = v[1]
            if v[0] == 'j':
                flat |= set(v[1])
            else:
                flat.add(v)
        counters = {}
        for v in flat:
            base = v
            while base[0] == 'bin' and base[1] in ('Sub', 'Add') and (
                    base[3] == ('top', 'n') or (base[3][0] == 'k' and base[3][1] == 'int')):
                base = base[2]
            if base is not v:
                counters.setdefault((v[1], base), set()).add(v)
        for (op, base), group in counters.items():
            if len(group) > 1:
                flat = (flat - group) | {('bin', op, base, ('top', 'n'))}
        full = {v for v in flat if v[0] == 'nes' or (v[0] == 's' and Interp._s_nonempty(v)) or
                (v[0] == 'k' and v[1] == 'str' and v[2])}
        if len(full) > 1 and (len(flat) > 6 or any(v[0] == 'nes' for v in full) or
                              sum(size(v) for v in flat) > 60):
            # keep only that the text is not empty
            flat = (flat - full) | {('nes', label if isinstance(label, str) else str(label[1:]))}
        if len(flat) == 1:
            res = next(iter(flat))
        elif len(flat) <= 6 and sum(size(v) for v in flat) <= 60 and \
                not any(mentions(v, label) for v in flat if isinstance(label, tuple)):
            res = ('j', frozenset(flat), label if isinstance(label, str) else str(label[1:]))
        else:
            res = ('top', 'join', label if isinstance(label, str) else str(label[1:]))
        return ('maybe', res) if maybe else res

    def block(self, stmts, states):
        out = Exits()
        cur = states
        for stmt in stmts:
            if not cur:
                break
            nxt = []
            for st in cur:
                ex = self.stmt(stmt, st)
                nxt += ex.next
                out.absorb(ex)
            if self.rule.liveness:
                nxt = self.drop_dead(stmt, nxt)
            cur = self.dedup(nxt, len(nxt) > self.rule.merge_over) if len(nxt) > 1 else nxt
        out.next = cur
        if len(out.ret) > 40:
            out.ret = self.dedup_exits(out.ret)
        if len(out.exc) > 40:
            out.exc = self.dedup_exits(out.exc)
        return out

    def drop_dead(self, stmt, states):
        node = self.fi.node
        live = self._live.get(id(node))
        if live is None:
            live = self._live[id(node)] = Liveness(node)
        keep = live.live_out.get(id(stmt))
        if keep is None or self.fi.outer is not None:
            return states
        keep = keep | live.always
        out = []
        for st in states:
            if any(n not in keep and n[0] != '$' for n in st.env):
                st = st.with_env({n: v for n, v in st.env.items() if n in keep or n[0] == '$'})
            out.append(st)
        return out

    def dedup_exits(self, exits):
        seen = {}
        for st, val, node in exits:
            seen.setdefault((st.key(), val, id(node)), (st, val, node))
        out = list(seen.values())
        if self.rule.merge or len(out) > self.rule.max_states:
            groups = {}
            for st, val, node in out:
                groups.setdefault((st.ts, val, id(node)), []).append((st, node))
            out = []
            for (_ts, val, _), grp in groups.items():
                out.append((self.join([g[0] for g in grp]), val, grp[0][1]))
        return out

    def stmt(self, node, st):
        self.steps += 1
        if self.steps > self.step_limit:
            raise AnalysisBroken("step budget exceeded in %s" % self.fi.ident)
        self.lines.add((self.fi.module.rel, node.lineno))
        if self._sliced and not self.in_slice(node):
            env = dict(st.env)
            for name in self._assigned(node):
                if name in env and env[name][0] in ('l', 'd'):
                    env[name] = ('top', 'sliced', name, node.lineno)
            for sub in ast.walk(node):
                if isinstance(sub, ast.Name) and isinstance(sub.ctx, ast.Store):
                    env[sub.id] = ('top', 'sliced', sub.id, node.lineno)
            ex = Exits()
            ex.next = [st.with_env(env)]
            return ex
        st = self.rule.on_stmt(self, st, node)
        meth = getattr(self, "s_" + type(node).__name__, None)
        if meth is None:
            ex = Exits()
            ex.next = [st]
            return ex
        saved, self._raises = self._raises, []
        ex = meth(node, st)
        ex.exc += self._raises
        self._raises = saved
        return ex

    def _simple(self, states):
        ex = Exits()
        ex.next = states
        return ex

    def s_Pass(self, node, st):
        return self._simple([st])

    def s_Expr(self, node, st):
        return self._simple([s for s, _ in self.ev(node.value, st)])

    def s_Assign(self, node, st):
        out = []
        for s, v in self.eager(self.ev(node.value, st), node):
            cur = [s]
            for tgt in node.targets:
                cur = [s3 for s2 in cur for s3 in self.store(tgt, v, s2, node)]
            out += cur
        return self._simple(out)

    def eager(self, pairs, node):
        """Decide comparisons when they are stored, if the rule asks for it."""
        if not self.rule.eager:
            return pairs
        out = []
        for s, v in pairs:
            if v[0] == 'cmp' or (v[0] == 'call' and v[1] in ('startswith', 'endswith', 'isdigit',
                                                             'isinstance', 'any', 'all')):
                yes, no = self.split(v, s, node.lineno)
                out += [(x, TRUE) for x in yes] + [(x, FALSE) for x in no]
            else:
                out.append((s, v))
        return out

    def s_AnnAssign(self, node, st):
        if node.value is None:
            return self._simple([st])
        out = []
        for s, v in self.ev(node.value, st):
            out += self.store(node.target, v, s, node)
        return self._simple(out)

    def s_AugAssign(self, node, st):
        load = ast.copy_location(self._as_load(node.target), node.target)
        out = []
        for s, cur in self.ev(load, st):
            for s2, v in self.ev(node.value, s):
                val = self.binop(type(node.op).__name__, cur, v, node, aug=True)
                out += self.store(node.target, val, s2, node)
        return self._simple(out)

    @staticmethod
    def _as_load(tgt):
        new = ast.parse(ast.unparse(tgt), mode="eval").body
        for sub in ast.walk(new):
            if hasattr(sub, "lineno"):
                sub.lineno = tgt.lineno
                sub.end_lineno = getattr(tgt, "end_lineno", tgt.lineno)
                sub.col_offset = tgt.col_offset
        return new

    def s_Return(self, node, st):
        ex = Exits()
        if node.value is None:
            ex.ret.append((st, NONE, node))
        else:
            for s, v in self.eager(self.ev(node.value, st), node):
                ex.ret.append((s, v, node))
        return ex

    def s_Raise(self, node, st):
        ex = Exits()
        if node.exc is None:
            cur = st.env.get("$exc", ('exc', '*'))
            st = self.rule.on_raise(self, st, node, cur)
            ex.exc.append((st, cur, node))
            return ex
        for s, v in self.ev(node.exc, st):
            if v[0] == 'new':
                exc = ('exc', v[1], v)
            elif v[0] == 'c':
                exc = ('exc', v[1].name, v)
            elif v[0] == 'ext':
                exc = ('exc', v[1].split(".")[-1], v)
            elif v[0] == 'call':
                exc = ('exc', v[1], v)
            elif v[0] == 'exc':
                exc = v
            else:
                exc = ('exc', '*', v)
            s = self.rule.on_raise(self, s, node, exc)
            ex.exc.append((s, exc, node))
        return ex

    def s_Break(self, node, st):
        ex = Exits()
        ex.brk = [st]
        return ex

    def s_Continue(self, node, st):
        ex = Exits()
        ex.cont = [st]
        return ex

    def s_Assert(self, node, st):
        yes, no = self.branch(node.test, st)
        ex = Exits()
        ex.next = yes
        ex.exc = [(s, ('exc', 'AssertionError', NONE), node) for s in no]
        return ex

    def s_Delete(self, node, st):
        for tgt in node.targets:
            if isinstance(tgt, ast.Name):
                st = st.unbind(tgt.id)
            elif isinstance(tgt, ast.Subscript):
                for s, base in self.ev(tgt.value, st):
                    for s2, key in self.ev(tgt.slice, s):
                        st = self.rule.on_store(self, s2, node, 'del', base, key, NONE)
        return self._simple([st])

    def s_Global(self, node, st):
        return self._simple([st])

    s_Nonlocal = s_Global

    def s_Import(self, node, st):
        for al in node.names:
            nm = al.asname or al.name.split(".")[0]
            mod = self.p._find_module(self.fi.module, al.name)
            st = st.bind(nm, ('m', mod) if mod else ('ext', al.name if al.asname else nm))
        return self._simple([st])

    def s_ImportFrom(self, node, st):
        for al in node.names:
            src = ("." * node.level) + (node.module or "")
            mod = self.p._find_module(self.fi.module, src)
            val = ('ext', src + "." + al.name)
            if mod is not None:
                res = self.p.resolve(mod, al.name)
                val = self.from_resolved(res, al.name, mod)
            st = st.bind(al.asname or al.name, val)
        return self._simple([st])

    def s_FunctionDef(self, node, st):
        fi = FuncInfo(self.fi.module, node, outer=self.fi)
        return self._simple([st.bind(node.name, ('f', fi))])

    def s_ClassDef(self, node, st):
        return self._simple([st.bind(node.name, ('top', 'class', node.name))])

    def s_If(self, node, st):
        yes, no = self.branch(node.test, st)
        ex = Exits()
        nxt = []
        if yes:
            sub = self.block(node.body, yes)
            nxt += sub.next
            ex.absorb(sub)
        if no:
            if node.orelse:
                sub = self.block(node.orelse, no)
                nxt += sub.next
                ex.absorb(sub)
            else:
                nxt += no
        ex.next = self.dedup(nxt)
        return ex

    def s_While(self, node, st):
        self.loops.append(node)
        try:
            return self._while(node, st)
        finally:
            self.loops.pop()

    def _while(self, node, st):
        out = Exits()
        done = []
        cur = [st]
        seen = set()
        rounds = 0
        assigned = self._assigned(node)
        while cur:
            rounds += 1
            nxt = []
            for s in cur:
                key = s.key()
                if key in seen:
                    continue
                seen.add(key)
                yes, no = self.branch(node.test, s)
                if no:
                    if node.orelse:
                        sub = self.block(node.orelse, no)
                        done += sub.next
                        out.absorb(sub)
                    else:
                        done += no
                if yes:
                    yes = [self.rule.iter_start(self, x, node) for x in yes]
                    sub = self.block(node.body, yes)
                    done += [self.rule.iter_break(self, b, node) for b in sub.brk]
                    out.ret += sub.ret
                    out.exc += sub.exc
                    nxt += [self.rule.iter_end(self, x, node)
                            for x in sub.next + sub.cont]
            if rounds >= 2:
                nxt = [self.widen(s, assigned, node, rounds, (st,)) for s in nxt]
            cur = self.dedup(nxt)
            if rounds > self.rule.loop_rounds + 4:
                if rounds > 40:
                    raise AnalysisBroken("loop does not converge at %s:%d" %
                                         (self.fi.module.rel, node.lineno))
                cur = self.merge(cur)
        out.next = self.dedup(done)
        return out

    @staticmethod
    def _assigned(node):
        # name -> whether it may be bound (else: its container value may be changed)
        names = {}
        for sub in ast.walk(node):
            if isinstance(sub, ast.Name) and isinstance(sub.ctx, (ast.Store, ast.Del)):
                names[sub.id] = True
            elif isinstance(sub, ast.Call) and isinstance(sub.func, ast.Attribute) \
                    and isinstance(sub.func.value, ast.Name):
                names.setdefault(sub.func.value.id, False)
            elif isinstance(sub, (ast.Subscript,)) and isinstance(sub.ctx, ast.Store) \
                    and isinstance(sub.value, ast.Name):
                names.setdefault(sub.value.id, False)
        return names

    def widen(self, st, names, node, rounds=2, entry=()):
        """Forget loop-variant information so that the iteration converges."""
        env = dict(st.env)
        changed = False
        for name in names:
            if name in env:
                v = env[name]
                if isinstance(names, dict) and not names[name] and v[0] in (
                        'param', 'item', 'elem', 'attr', 'call', 'k', 's', 'f', 'c', 'm', 'ext'):
                    continue
                if v[0] == 'k' and any(e.env.get(name) == v for e in entry):
                    continue
                w = self.widen_val(v, name, node, rounds)
                if w != v:
                    env[name] = w
                    changed = True
        heap = st.heap
        for key, v in st.heap.items():
            if rounds >= 6 and v[0] not in ('f', 'c', 'm', 'ext', 'j', 'new') and \
                    v != NONE and v[1] != 'bool' and v[:2] != ('top', 'loop'):
                w = ('top', 'loop', str(key[1:]), node.lineno)
            elif v[0] in ('l', 'd', 's'):
                w = self.widen_val(v, str(key[1:]), node)
            else:
                w = v
            if w != v:
                if heap is st.heap:
                    heap = dict(st.heap)
                heap[key] = w
        if not changed and heap is st.heap:
            return st
        tops = [env[n] for n in names if n in env and env[n][0] == 'top']
        preds = {a: b for a, b in st.preds.items()
                 if not any(mentions(a, t) for t in tops)}
        return St(env, heap, preds, st.ts, st.trace)

    def widen_val(self, v, name, node, rounds=2):
        if v[0] == 'maybe':
            return ('maybe', self.widen_val(v[1], name, node, rounds))
        if v[0] in ('nes', 't'):
            return v
        if v[0] == 'j' and all(x[0] == 't' or x[0] == 'k' for x in v[1]) and any(
                x[0] == 't' for x in v[1]):
            return v
        if v[0] == 'j' and all(x[0] in ('nes', 's') or (x[0] == 'k' and x[1] == 'str') for x in v[1]) \
                and (rounds >= 4 or any(x[0] == 'nes' for x in v[1])):
            alts = {('nes', name) if self.const_truth(x) else x for x in v[1]}
            if len(alts) == 1:
                return alts.pop()
            if all(x[0] in ('nes', 'k') for x in alts):
                return ('j', frozenset(alts), name)
        if v[0] == 's' and self._s_nonempty(v) and (rounds >= 4 or len(v[1]) > 3):
            return ('nes', name)
        if rounds >= 8 and v != NONE and v[1] != 'bool':
            return ('top', 'loop', name, node.lineno)
        if v[0] == 'j' and any(x[0] in ('bin', 'l') for x in v[1]):
            alts = {self.widen_val(x, name, node, rounds) if x[0] in ('bin', 'l') else x for x in v[1]}
            return self.join_vals(alts, name)
        if v[0] == 'bin' and v[1] in ('Sub', 'Add') and (
                v[3] == ('top', 'n') or (v[3][0] == 'k' and v[3][1] == 'int')):
            # a counter: keep what it counts from
            base = v[2]
            while base[0] == 'bin' and base[1] == v[1] and (
                    base[3] == ('top', 'n') or (base[3][0] == 'k' and base[3][1] == 'int')):
                base = base[2]
            return ('bin', v[1], base, ('top', 'n'))
        if rounds >= 4 and v[0] not in ('k', 'l', 'd', 'j', 'top', 'f', 'c', 'm', 'ext'):
            return ('top', 'loop', name, node.lineno)
        if v[0] == 'k':
            if v[1] in ('bool', 'NoneType'):
                return v
            if v[1] == 'int':
                return ('top', 'int', name, node.lineno)
            if v[1] == 'str' and len(v[2]) > 0 and self.rule_widen_str(v):
                return v
            return v
        if v[0] == 'l':
            # one definite occurrence of each element is kept: the list is not empty
            elts = []
            for e in v[1]:
                base = e[1] if e[0] == 'many' else e
                if e[0] != 'many' and base not in elts:
                    elts.append(base)
                if ('many', base) not in elts and (e[0] == 'many' or v[1].count(e) > 1):
                    elts.append(('many', base))
            if len(elts) > 6:
                elts = [('many', ('top', 'elts', name, node.lineno))]
            return ('l', tuple(elts), v[2])
        if v[0] == 's' and len(v[1]) > 3:
            consts = [p for p in v[1] if isinstance(p, str) and p]
            return ('s', ((consts[0] if consts else "x") if self._s_nonempty(v) else "",
                          ('top', 'str', name, node.lineno)))
        if size(v) > (300 if v[0] in ('d', 'j') else 24):
            return ('top', 'deep', name, node.lineno)
        return v

    @staticmethod
    def rule_widen_str(v):
        return len(v[2]) < 200

    @staticmethod
    def _s_nonempty(v):
        return any((isinstance(p, str) and p) or p[0] == 'nes' for p in v[1] if p)

    def s_For(self, node, st):
        out = Exits()
        done = []
        for s, it in self.ev(node.iter, st):
            self.loops.append(node)
            try:
                ex = self.for_over(node, s, it)
            finally:
                self.loops.pop()
            done += ex.next
            out.absorb(ex)
        if node.orelse:
            normal = [s for s in done if not s.env.get("$brk")]
            broke = [s for s in done if s.env.get("$brk")]
            sub = self.block(node.orelse, [self._nobrk(s) for s in normal])
            out.absorb(sub)
            done = sub.next + [self._nobrk(s) for s in broke]
        else:
            done = [self._nobrk(s) for s in done]
        out.next = self.dedup(done)
        return out

    @staticmethod
    def _nobrk(st):
        return st.unbind("$brk") if "$brk" in st.env else st

    def seq_of(self, it):
        """Elements of an iterable: list of values/('many', v); None if opaque."""
        got = self.rule.seq_of(self, it)
        if got is not None:
            return got
        if it[0] == 'l':
            return list(it[1])
        if it[0] == 'k' and isinstance(it[2], str) and len(it[2]) <= 12:
            return [K(c) for c in it[2]]
        if it[0] == 'd':
            seq = [k if k[0] == 'k' else ('many', k) for k, _ in it[1]]
            if it[2]:
                seq.append(('many', ('elem', ('keys', show(it)[:80]))))
            return seq
        return None

    def for_over(self, node, st, it):
        out = Exits()
        self.rule.on_iter(self, st, node, it)
        seq = self.seq_of(it)
        if seq is None:
            seq = [('many', ('elem', it))]
        cur = [st]
        done = []
        assigned = self._assigned(node)
        for elt in seq:
            if not cur:
                break
            if elt[0] == 'many':
                # zero or more iterations over an arbitrary element
                val = elt[1]
                seen = set()
                head = list(cur)
                entry = tuple(cur[:50])
                work = list(cur)
                rounds = 0
                while work:
                    rounds += 1
                    nxt = []
                    for s in work:
                        key = s.key()
                        if key in seen:
                            continue
                        seen.add(key)
                        s = self.havoc(s, val)
                        for s2 in self.store(node.target, val, s, node):
                            s2 = self.rule.iter_start(self, s2, node)
                            sub = self.block(node.body, [s2])
                            done += [self.rule.iter_break(self, b, node).bind("$brk", TRUE) for b in sub.brk]
                            out.ret += sub.ret
                            out.exc += sub.exc
                            nxt += [self.rule.iter_end(self, x, node)
                                    for x in sub.next + sub.cont]
                    nxt = [self.havoc(s, val) for s in nxt]
                    if rounds >= 2:
                        nxt = [self.widen(s, assigned, node, rounds, entry) for s in nxt]
                    nxt = self.dedup(nxt)
                    if self.rule.chop:
                        # one state per typestate: iterate to the least fixpoint of the joins
                        head = self.dedup(self.merge(head + nxt))
                        work = [s for s in head if s.key() not in seen]
                        if rounds > 40:
                            raise AnalysisBroken("loop does not converge at %s:%d" %
                                                 (self.fi.module.rel, node.lineno))
                        continue
                    if rounds > self.rule.loop_rounds:
                        nxt = self.merge(nxt)
                        if rounds > 40:
                            raise AnalysisBroken("loop does not converge at %s:%d" %
                                                 (self.fi.module.rel, node.lineno))
                    work = [s for s in nxt if s.key() not in seen]
                    head += work
                cur = self.dedup(head)
            else:
                nxt = []
                for s in cur:
                    for s2 in self.store(node.target, elt, s, node):
                        s2 = self.rule.iter_start(self, s2, node)
                        sub = self.block(node.body, [s2])
                        done += [self.rule.iter_break(self, b, node).bind("$brk", TRUE) for b in sub.brk]
                        out.ret += sub.ret
                        out.exc += sub.exc
                        nxt += [self.rule.iter_end(self, x, node)
                                for x in sub.next + sub.cont]
                cur = self.dedup(nxt)
        out.next = done + cur
        return out

    def havoc(self, st, val):
        """Drop facts about the element of a previous iteration."""
        parts = []
        todo = [val]
        while todo:
            v = todo.pop()
            if v[0] == 'l':
                todo += list(v[1])
            elif v[0] == 'many':
                todo.append(v[1])
            elif v[0] != 'k':
                parts.append(v)
        if not parts:
            return st
        preds = {a: b for a, b in st.preds.items() if not any(mentions(a, v) for v in parts)}
        heap = {k: v for k, v in st.heap.items() if not any(mentions(k, v) for v in parts)}
        if len(preds) == len(st.preds) and len(heap) == len(st.heap):
            return st
        return St(st.env, heap, preds, st.ts, st.trace)

    def s_With(self, node, st):
        cur = [st]
        for item in node.items:
            nxt = []
            for s in cur:
                for s2, v in self.ev(item.context_expr, s):
                    if item.optional_vars is not None:
                        nxt += self.store(item.optional_vars, v, s2, node)
                    else:
                        nxt.append(s2)
            cur = nxt
        return self.block(node.body, cur)

    def s_Try(self, node, st):
        out = Exits()
        self._try += 1
        body = self.block(node.body, [st])
        self._try -= 1
        caught_src = list(body.exc)
        out.ret += body.ret
        out.brk += body.brk
        out.cont += body.cont
        nxt = body.next
        if node.orelse:
            sub = self.block(node.orelse, nxt)
            nxt = sub.next
            out.absorb(sub)
        handled = []
        for s, exc, where in caught_src:
            matched = False
            for hnd in node.handlers:
                m = self.handler_matches(hnd, exc)
                if not m:
                    continue
                s2 = s.bind("$exc", exc)
                if hnd.name:
                    s2 = s2.bind(hnd.name, exc)
                sub = self.block(hnd.body, [s2])
                handled += [x.unbind("$exc") for x in sub.next]
                out.absorb(sub)
                if m == 'must':
                    matched = True
                    break
                matched = matched or exc[1] == '*'
            if not matched:
                out.exc.append((s, exc, where))
        nxt = nxt + handled
        if node.finalbody:
            fin = self.block(node.finalbody, self.dedup(nxt)) if nxt else Exits()
            res = Exits()
            res.next = fin.next
            res.absorb(fin)
            for s, v, n in out.ret:
                f = self.block(node.finalbody, [s])
                res.ret += [(x, v, n) for x in f.next] + f.ret
                res.exc += f.exc
            for s, v, n in out.exc:
                f = self.block(node.finalbody, [s])
                res.exc += [(x, v, n) for x in f.next] + f.exc
                res.ret += f.ret
            res.brk += out.brk
            res.cont += out.cont
            return res
        out.next = self.dedup(nxt)
        return out

    def exc_names(self, name):
        """Names of NAME and all its base exception classes."""
        for mod in self.p.modules.values():
            if name in mod.classes:
                names = []
                for cls in self.p.mro(mod.classes[name]):
                    names.append(cls.name)
                    names += [b.split(".")[-1] for b in cls.bases]
                extra = []
                for nm in names:
                    extra += self.exc_names(nm) if nm not in mod.classes and nm != name else []
                return names + extra
        import builtins
        cls = getattr(builtins, name, None)
        if isinstance(cls, type) and issubclass(cls, BaseException):
            return [c.__name__ for c in cls.__mro__]
        return [name, "Exception", "BaseException"]

    def handler_matches(self, hnd, exc):
        if hnd.type is None:
            return 'must'
        types = hnd.type.elts if isinstance(hnd.type, ast.Tuple) else [hnd.type]
        names = [ast.unparse(t).split(".")[-1] for t in types]
        if exc[1] == '*':
            return 'may'
        mine = self.exc_names(exc[1])
        if any(n in mine for n in names):
            return 'must'
        return None

    # --------------------------------------------------------------- stores
    def mangle(self, attr):
        if attr.startswith("__") and not attr.endswith("__"):
            for fi in reversed(self.stack):
                if fi.cls is not None:
                    return "_%s%s" % (fi.cls.name.lstrip("_"), attr)
                if fi.outer is None:
                    break
        return attr

    def store(self, tgt, val, st, node):
        if isinstance(tgt, ast.Name):
            st = self.rule.on_bind(self, st, node, tgt.id, val)
            return [self.rule.on_bound(self, st.bind(tgt.id, val), node, tgt.id, val)]
        if isinstance(tgt, (ast.Tuple, ast.List)):
            cur = [st]
            parts = None
            if val[0] == 'l' and not any(e[0] == 'many' for e in val[1]) and \
                    len(val[1]) == len(tgt.elts):
                parts = list(val[1])
            if parts is None:
                parts = [('item', val, K(i)) for i in range(len(tgt.elts))]
                parts = [self.limit(p, node) for p in parts]
            for sub, part in zip(tgt.elts, parts):
                cur = [s2 for s in cur for s2 in self.store(sub, part, s, node)]
            return cur
        if isinstance(tgt, ast.Starred):
            return self.store(tgt.value, ('l', (('many', ('elem', val)),), 'list'), st, node)
        if isinstance(tgt, ast.Attribute):
            out = []
            for s, base in self.ev(tgt.value, st):
                attr = self.mangle(tgt.attr)
                cls = self.class_of(base)
                setter = self.p.find_method(cls, attr, setter=True) if cls else None
                s = self.rule.on_store(self, s, node, 'attr', base, attr, val)
                if setter is not None and self.can_inline(setter):
                    for s2, _ in self.call_fi(setter, s, [base, val], {}, tgt):
                        out.append(s2)
                else:
                    out.append(self.kill(s, ('attr', base, attr)).put((base, attr), val))
            return out
        if isinstance(tgt, ast.Subscript):
            out = []
            for s, base in self.ev(tgt.value, st):
                if isinstance(tgt.slice, ast.Slice):
                    s = self.rule.on_store(self, s, node, 'slice', base, NONE, val)
                    out.append(s)
                    continue
                for s2, key in self.ev(tgt.slice, s):
                    s2 = self.rule.on_store(self, s2, node, 'item', base, key, val)
                    new = None
                    if base[0] == 'd':
                        items = [(k, v) for k, v in base[1] if k != key]
                        if key[0] == 'k' or True:
                            items.append((key, val))
                        opn = base[2]
                        if len(items) > 12:
                            items = []
                            opn = True
                        new = ('d', tuple(items), opn)
                    elif base[0] == 'l' and key[0] == 'k' and isinstance(key[2], int) and \
                            not any(e[0] == 'many' for e in base[1]) and \
                            -len(base[1]) <= key[2] < len(base[1]):
                        elts = list(base[1])
                        elts[key[2]] = val
                        new = ('l', tuple(elts), base[2])
                    elif base[0] == 'l':
                        elts = tuple(e if e[0] == 'many' else ('many', e) for e in base[1])
                        new = ('l', elts + (('many', val),), base[2])
                    if new is not None:
                        out += self.update_place(tgt.value, new, s2)
                    else:
                        s2 = self.kill(s2, ('item', base, key))
                        out.append(s2.put((base, ('item', key)), val))
            return out
        return [st]

    def kill(self, st, term):
        """Drop predicate facts about an overwritten location."""
        bad = [a for a in st.preds if mentions(a, term)]
        if not bad:
            return st
        preds = {a: b for a, b in st.preds.items() if a not in bad}
        return St(st.env, st.heap, preds, st.ts, st.trace)

    def update_place(self, expr, new, st):
        """Rebind the container held by EXPR (in-place mutation)."""
        if isinstance(expr, ast.Name):
            return [st.bind(expr.id, new)]
        if isinstance(expr, ast.Attribute):
            out = []
            for s, base in self.ev(expr.value, st):
                out.append(s.put((base, self.mangle(expr.attr)), new))
            return out
        if isinstance(expr, ast.Subscript) and not isinstance(expr.slice, ast.Slice):
            out = []
            for s, base in self.ev(expr.value, st):
                for s2, key in self.ev(expr.slice, s):
                    if base[0] == 'd':
                        items = tuple((k, v) for k, v in base[1] if k != key) + ((key, new),)
                        out += self.update_place(expr.value, ('d', items, base[2]), s2)
                    else:
                        out.append(s2.put((base, ('item', key)), new))
            return out
        return [st]

    # ------------------------------------------------------------- branches
    def branch(self, test, st):
        """Split ST on the truth of expression TEST."""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            yes, no = self.branch(test.operand, st)
            return no, yes
        if isinstance(test, ast.BoolOp):
            is_and = isinstance(test.op, ast.And)
            cur = [st]
            yes, no = [], []
            for i, sub in enumerate(test.values):
                last = i == len(test.values) - 1
                nxt = []
                for s in cur:
                    y, n = self.branch(sub, s)
                    if is_and:
                        no += n
                        nxt += y
                    else:
                        yes += y
                        nxt += n
                cur = nxt
                if last:
                    if is_and:
                        yes += cur
                    else:
                        no += cur
            return self.dedup(yes, False), self.dedup(no, False)
        yes, no = [], []
        for s, v in self.ev(test, st):
            res = self.rule.on_branch(self, s, test, v)
            if res is not None:
                yes += res[0]
                no += res[1]
                continue
            if v[0] == 'j' and isinstance(test, ast.Name):
                # the test tells which of the joined values it is
                sure = {True: set(), False: set()}
                for alt in v[1]:
                    t = self.const_truth(alt)
                    if t is None:
                        y, n = self.split(alt, s.bind(test.id, alt), test.lineno)
                        yes += y
                        no += n
                    else:
                        sure[t].add(alt)
                if sure[True]:
                    yes.append(s.bind(test.id, self.join_vals(sure[True], test.id)))
                if sure[False]:
                    no.append(s.bind(test.id, self.join_vals(sure[False], test.id)))
                continue
            y, n = self.split(v, s, test.lineno)
            yes += y
            no += n
        return self.dedup(yes, False), self.dedup(no, False)

    def split(self, v, st, line=0):
        if v[0] == 'maybe':
            v = v[1]
        if v[0] == 'j':
            yes, no = [], []
            for alt in sorted(v[1], key=repr):
                y, n = self.split(alt, st, line)
                yes += y
                no += n
            return self.dedup(yes, False), self.dedup(no, False)
        t = self.const_truth(v)
        if t is not None:
            return ([st], []) if t else ([], [st])
        if v[0] == 'cmp':
            atom, pos = v[1], v[2]
        else:
            atom, pos = self.norm_atom(('truth', v)), True
            atom, flip = atom
            if flip:
                pos = not pos
        val = self.decide(st, atom)
        if val is None:
            yes = [self.rule.on_assume(self, st.assume(atom, pos, line), atom, pos)]
            no = [self.rule.on_assume(self, st.assume(atom, not pos, line), atom, not pos)]
            return yes, no
        if val == pos:
            return [st], []
        return [], [st]

    def const_truth(self, v):
        h = v[0]
        if h == 'k':
            return bool(v[2])
        if h == 'l':
            if any(e[0] != 'many' for e in v[1]):
                return True
            if not v[1]:
                return False
            return None
        if h == 'd':
            if any(k[0] == 'k' for k, _ in v[1]):
                return True
            return None if (v[2] or v[1]) else False
        if h == 's':
            if self._s_nonempty(v):
                return True
            return None
        if h in ('f', 'c', 'm', 'bm', 'exc', 'nes') or (h == 't' and v[2]):
            return True
        if h == 'new':
            return None if self.has_bool(v) else True
        return None

    def str_truth(self, v):
        """The possible truth values of V if it is known to be a string."""
        if v[0] == 'j':
            alts = [self.str_truth(x) for x in v[1]]
            return None if None in alts else set().union(*alts)
        if v[0] == 'nes':
            return {True}
        if v[0] == 'k' and v[1] == 'str':
            return {bool(v[2])}
        if v[0] == 's':
            return {True} if self._s_nonempty(v) else {True, False}
        if v[0] == 't':
            return {True} if v[2] else {True, False}
        return None

    def has_bool(self, v):
        cls = self.class_of(v)
        if cls is None:
            return True
        if self.p.has_external_base(cls):
            return True
        return self.p.find_method(cls, "__bool__") is not None or \
            self.p.find_method(cls, "__len__") is not None

    def norm_atom(self, atom):
        """Normalise an atom; returns (atom, flipped)."""
        if atom[0] == 'truth':
            v = atom[1]
            if v[0] == 'call' and v[1] in ('len', 'bool') and v[2] is None and len(v[3]) == 1:
                return self.norm_atom(('truth', v[3][0]))
            if v[0] == 'un' and v[1] == 'Not':
                a, f = self.norm_atom(('truth', v[2]))
                return a, not f
            if v[0] == 'cmp':
                return v[1], not v[2]
        if atom[0] == 'eq':
            a, b = atom[1], atom[2]
            if a[0] == 'k' and b[0] != 'k':
                a, b = b, a
            if b == TRUE and a[0] == 'cmp':
                return a[1], not a[2]
            if b == FALSE and a[0] == 'cmp':
                return a[1], a[2]
            if b == K(0) and a[0] == 'call' and a[1] == 'len':
                at, f = self.norm_atom(('truth', a[3][0]))
                return at, not f
            if b == K('') and a[0] in ('s', 'bin', 'call', 'param', 'attr', 'elem', 'item', 'top'):
                return ('eq', a, b), False
            if b[0] != 'k' and repr(b) < repr(a):
                a, b = b, a
            return ('eq', a, b), False
        if atom[0] == 'lt':
            a, b = atom[1], atom[2]
            if a == K(0) and b[0] == 'call' and b[1] == 'len':
                return self.norm_atom(('truth', b[3][0]))
            if b == K(1) and a[0] == 'call' and a[1] == 'len':
                at, f = self.norm_atom(('truth', a[3][0]))
                return at, not f
        return atom, False

    def decide(self, st, atom):
        """Truth of ATOM in ST if determined."""
        if atom in st.preds:
            return st.preds[atom]
        res = self.rule.oracle(self, st, atom)
        if res is not None:
            return res
        h = atom[0]
        if h == 'truth':
            v = atom[1]
            if st.preds.get(('isnone', v)):
                return False
            for a, val in st.preds.items():
                if a[0] == 'eq' and val and (a[1] == v or a[2] == v):
                    other = a[2] if a[1] == v else a[1]
                    t = self.const_truth(other)
                    if t is not None:
                        return t
                if a[0] == 'in' and val and a[2] == v:
                    return True
            if st.preds.get(('eq', v, K(''))):
                return False
        elif h == 'isnone':
            v = atom[1]
            if st.preds.get(('truth', v)):
                return False
            for a, val in st.preds.items():
                if val and a[0] == 'eq' and (a[1] == v or a[2] == v):
                    other = a[2] if a[1] == v else a[1]
                    if other[0] == 'k':
                        return other[2] is None
                if val and a[0] == 'isinst' and a[1] == v:
                    return False
        elif h == 'eq':
            a, b = atom[1], atom[2]
            if a == b and not has_top(a):
                return True
            if b[0] == 'k':
                for p, val in st.preds.items():
                    if val and p[0] == 'eq' and p[1] == a and p[2][0] == 'k' and p[2] != b:
                        return False
                if b[2] is not None and st.preds.get(('isnone', a)):
                    return False
                if b[2] and st.preds.get(('truth', a)) is False:
                    return False
                if not b[2] and st.preds.get(('truth', a)):
                    return False
        elif h == 'in':
            if st.preds.get(('truth', atom[2])) is False:
                return False
        return None

    # ---------------------------------------------------------- expressions
    def limit(self, v, node):
        if size(v) > self.term_limit:
            return ('top', 'deep', getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0))
        return v

    def ev(self, node, st):
        meth = getattr(self, "e_" + type(node).__name__, None)
        if meth is None:
            return [(st, ('top', type(node).__name__, node.lineno, node.col_offset))]
        return meth(node, st)

    def ev_list(self, nodes, st):
        cur = [(st, ())]
        for node in nodes:
            nxt = []
            for s, vals in cur:
                if isinstance(node, ast.Starred):
                    for s2, v in self.ev(node.value, s):
                        if v[0] == 'l':
                            nxt.append((s2, vals + v[1]))
                        else:
                            nxt.append((s2, vals + (('many', ('elem', v)),)))
                else:
                    for s2, v in self.ev(node, s):
                        nxt.append((s2, vals + (v,)))
            cur = nxt
        return cur

    def e_Constant(self, node, st):
        v = node.value
        if isinstance(v, (str, int, float, bool, type(None))):
            return [(st, K(v))]
        return [(st, ('top', 'const', repr(v)))]

    def from_resolved(self, res, name, mod):
        if isinstance(res, FuncInfo):
            return ('f', res)
        if isinstance(res, ClassInfo):
            return ('c', res)
        if isinstance(res, Module):
            return ('m', res)
        if isinstance(res, tuple) and res[0] == 'ext':
            return ('ext', res[1])
        if isinstance(res, tuple) and res[0] == 'const':
            return self.const_value(res[2], res[1], name)
        return None

    def const_value(self, node, mod, name):
        try:
            lit = ast.literal_eval(node)
        except (ValueError, SyntaxError, TypeError):
            return ('global', mod.name, name)
        return self.lift(lit, ('global', mod.name, name))

    def lift(self, lit, dflt):
        if isinstance(lit, (str, int, float, bool, type(None))):
            return K(lit)
        if isinstance(lit, (list, tuple)):
            if len(lit) > 40:
                return dflt
            return ('l', tuple(self.lift(x, dflt) for x in lit),
                    'list' if isinstance(lit, list) else 'tuple')
        if isinstance(lit, dict) and len(lit) <= 40:
            return ('d', tuple((self.lift(k, dflt), self.lift(v, dflt))
                               for k, v in lit.items()), False)
        return dflt

    def e_Name(self, node, st):
        name = node.id
        if name in st.env:
            v = st.env[name]
            if v[0] == 'maybe':
                self.rule.on_unbound(self, st, node)
                v = v[1]
            if v[0] == 'j' and any(a[0] in ('l', 'd') for a in v[1]):
                return [(st.bind(name, a), a) for a in sorted(v[1], key=repr)]
            return [(st, v)]
        res = self.p.resolve(self.fi.module, name)
        val = self.from_resolved(res, name, self.fi.module)
        if val is not None:
            return [(st, val)]
        import builtins
        if hasattr(builtins, name):
            return [(st, ('ext', name))]
        self.rule.on_unbound(self, st, node)
        return [(st, ('top', 'unbound', name))]

    def class_of(self, val):
        if val[0] == 'new':
            home = self.p.modules.get(str(val[2]).rsplit(":", 2)[0]) if len(val) > 2 else None
            if home is not None:
                cls = self.p.resolve(home, val[1])
                if isinstance(cls, ClassInfo):
                    return cls
            for mod in self.p.modules.values():
                if val[1] in mod.classes:
                    return mod.classes[val[1]]
        cls = self.rule.type_of(self, val)
        if cls is not None:
            return cls
        if val == ('param', 'self') :
            for fi in reversed(self.stack):
                if fi.cls is not None:
                    return fi.cls
        return None

    def can_inline(self, fi):
        if len(self.stack) > self.rule.max_depth:
            return False
        if any(f.node is fi.node for f in self.stack):
            return False
        return self.rule.inline(fi, len(self.stack))

    def e_Attribute(self, node, st):
        out = []
        for s, base in self.ev(node.value, st):
            out += self.get_attr(s, base, self.mangle(node.attr), node)
        return out

    def get_attr(self, st, base, attr, node):
        res = self.rule.on_attr(self, st, node, base, attr)
        if res is not None:
            return res
        if base[0] == 'm':
            r = self.p.resolve(base[1], attr)
            v = self.from_resolved(r, attr, base[1])
            if v is None:
                sub = self.p._find_module(base[1], base[1].name + "." + attr)
                v = ('m', sub) if sub else ('ext', base[1].name + "." + attr)
            return [(st, v)]
        if base[0] == 'ext':
            return [(st, ('ext', base[1] + "." + attr))]
        if base[0] == 'c':
            meth = self.p.find_method(base[1], attr)
            if meth is not None:
                return [(st, ('f', meth))]
            cls, cnode = self.p.find_class_const(base[1], attr)
            if cnode is not None:
                return [(st, self.const_value(cnode, cls.module, base[1].name + "." + attr))]
            return [(st, ('attr', base, attr))]
        key = (base, attr)
        if key in st.heap:
            v = st.heap[key]
            if v[0] == 'j' and any(a[0] in ('l', 'd') for a in v[1]):
                return [(st.put(key, a), a) for a in sorted(v[1], key=repr)]
            return [(st, v)]
        cls = self.class_of(base)
        if cls is not None:
            meth = self.p.find_method(cls, attr)
            if meth is not None:
                if meth.is_property:
                    if self.can_inline(meth):
                        return self.call_fi(meth, st, [base], {}, node)
                    return [(st, ('attr', base, attr))]
                return [(st, ('bm', base, meth))]
            ccls, cnode = self.p.find_class_const(cls, attr)
            if cnode is not None:
                return [(st, self.const_value(cnode, ccls.module, ccls.name + "." + attr))]
        return [(st, self.limit(('attr', base, attr), node))]

    def e_Subscript(self, node, st):
        out = []
        for s, base in self.ev(node.value, st):
            if isinstance(node.slice, ast.Slice):
                parts = [node.slice.lower, node.slice.upper, node.slice.step]
                for s2, vals in self.ev_list([p for p in parts if p is not None], s):
                    it = iter(vals)
                    triple = tuple(next(it) if p is not None else NONE for p in parts)
                    out.append((s2, self.slice_val(base, triple, node)))
                continue
            for s2, key in self.ev(node.slice, s):
                out.append((s2, self.item_val(s2, base, key, node)))
        return out

    def slice_val(self, base, triple, node):
        lo, hi, step = triple
        if base[0] == 'k' and all(t[0] == 'k' for t in triple) and isinstance(base[2], str):
            try:
                return K(base[2][slice(lo[2], hi[2], step[2])])
            except (TypeError, ValueError):
                pass
        if base[0] == 'l' and not any(e[0] == 'many' for e in base[1]) and \
                all(t[0] == 'k' for t in triple):
            try:
                return ('l', base[1][slice(lo[2], hi[2], step[2])], base[2])
            except (TypeError, ValueError):
                pass
        return self.limit(('slice', base, lo, hi, step), node)

    def item_val(self, st, base, key, node):
        if base[0] == 'l' and key[0] == 'k' and isinstance(key[2], int) and \
                not any(e[0] == 'many' for e in base[1]):
            if -len(base[1]) <= key[2] < len(base[1]):
                return base[1][key[2]]
        if base[0] == 'd':
            for k, v in base[1]:
                if k == key:
                    return v
            if base[1] and all(k[0] != 'k' for k, _ in base[1]) and len({v for _, v in base[1]}) == 1:
                return base[1][0][1]
        if base[0] == 'k' and key[0] == 'k' and isinstance(base[2], str):
            try:
                return K(base[2][key[2]])
            except (TypeError, IndexError):
                pass
        if (base, ('item', key)) in st.heap:
            return st.heap[(base, ('item', key))]
        if base[0] == 'l' and base[1] and all(e[0] == 'many' for e in base[1]):
            vals = {e[1] for e in base[1]}
            if len(vals) == 1:
                return ('item', base, key) if key[0] != 'k' else self.limit(('item', base, key), node)
        return self.limit(('item', base, key), node)

    def e_List(self, node, st):
        return [(s, ('l', vals, 'list')) for s, vals in self.ev_list(node.elts, st)]

    def e_Tuple(self, node, st):
        return [(s, ('l', vals, 'tuple')) for s, vals in self.ev_list(node.elts, st)]

    def e_Set(self, node, st):
        return [(s, ('l', vals, 'set')) for s, vals in self.ev_list(node.elts, st)]

    def e_Dict(self, node, st):
        cur = [(st, (), False)]
        for k, v in zip(node.keys, node.values):
            nxt = []
            for s, items, opn in cur:
                if k is None:
                    for s2, _ in self.ev(v, s):
                        nxt.append((s2, items, True))
                    continue
                for s2, kv in self.ev(k, s):
                    for s3, vv in self.ev(v, s2):
                        nxt.append((s3, items + ((kv, vv),), opn))
            cur = nxt
        return [(s, ('d', items, opn)) for s, items, opn in cur]

    def e_JoinedStr(self, node, st):
        cur = [(st, ())]
        for part in node.values:
            nxt = []
            for s, parts in cur:
                if isinstance(part, ast.Constant):
                    nxt.append((s, parts + (str(part.value),)))
                else:
                    for s2, v in self.ev(part.value, s):
                        nxt.append((s2, parts + (v,)))
            cur = nxt
        return [(s, self.mk_str(parts)) for s, parts in cur]

    def marks_of(self, v):
        """The marks of one part of an assembled string, or a set of alternatives."""
        if isinstance(v, str):
            return self.rule.fold(v)
        if v[0] == 'k':
            return self.rule.fold(str(v[2]))
        if v[0] == 't':
            return v[1]
        if v[0] == 's':
            return self.fold_str(v[1])[1]
        return tuple(self.rule.fold_value(v))

    def fold_str(self, parts):
        """('t', marks, nonempty) or a join of such values."""
        alts = {((), False)}
        for p in parts:
            if isinstance(p, str):
                choices = [p]
            elif p[0] == 'j':
                choices = sorted(p[1], key=repr)
            elif p[0] == 'maybe':
                choices = [p[1]] if p[1][0] != 'j' else sorted(p[1][1], key=repr)
            else:
                choices = [p]
            nxt = set()
            for marks, full in alts:
                for c in choices:
                    ne = bool(c) if isinstance(c, str) else c[0] == 'nes' or (c[0] == 't' and c[2]) or \
                        (c[0] == 'k' and bool(str(c[2])))
                    nxt.add((self.rule.fold_norm(marks + tuple(self.marks_of(c))), full or ne))
            alts = nxt
            if len(alts) > 12:
                return ('top', 'marks')
        vals = {('t', m, ne) if (m or ne) else ('t', (), False) for m, ne in alts}
        return self.join_vals(vals, 'text')

    def mk_str(self, parts):
        if self.rule.fold is not None and any(not isinstance(p, str) and p[0] != 'k' for p in parts):
            return self.fold_str(parts)
        out = []
        for p in parts:
            if isinstance(p, tuple) and p[0] == 'k':
                p = str(p[2])
            if isinstance(p, tuple) and p[0] == 's':
                sub = list(p[1])
            else:
                sub = [p]
            for q in sub:
                if isinstance(q, str) and out and isinstance(out[-1], str):
                    out[-1] += q
                elif q == "":
                    continue
                else:
                    out.append(q)
        if not out:
            return K("")
        if len(out) == 1 and isinstance(out[0], str):
            return K(out[0])
        if out == [p for p in out if not isinstance(p, str)] and len(out) == 1 and out[0][0] == 'nes':
            return out[0]
        if not self.rule.text and self._s_nonempty(('s', tuple(out))):
            return ('nes', 'str')
        if len(out) > self.rule.max_parts:
            consts = [p for p in out if isinstance(p, str)]
            out = out[:self.rule.max_parts // 2] + [('top', 'strtail')]
        return ('s', tuple(out))

    def e_BinOp(self, node, st):
        out = []
        for s, a in self.ev(node.left, st):
            for s2, b in self.ev(node.right, s):
                out.append((s2, self.binop(type(node.op).__name__, a, b, node)))
        return out

    def binop(self, op, a, b, node, aug=False):
        if a[0] == 'k' and b[0] == 'k':
            try:
                if op == 'Add':
                    return K(a[2] + b[2])
                if op == 'Sub':
                    return K(a[2] - b[2])
                if op == 'Mult':
                    r = a[2] * b[2]
                    if not isinstance(r, str) or len(r) < 500:
                        return K(r)
                if op == 'Mod':
                    return K(a[2] % b[2])
                if op == 'FloorDiv':
                    return K(a[2] // b[2])
                if op == 'Div':
                    return K(a[2] / b[2])
            except (TypeError, ValueError, ZeroDivisionError):
                pass
        if op == 'Add':
            if a[0] == 'l' and b[0] == 'l':
                return ('l', a[1] + b[1], a[2])
            if a[0] == 'l':
                return ('l', a[1] + (('many', ('elem', b)),), a[2])
            if b[0] == 'l' and a[0] not in ('k', 's'):
                return ('l', (('many', ('elem', a)),) + b[1], b[2])
            if (a[0] in ('s', 'nes', 't') or (a[0] == 'k' and a[1] == 'str') or
                    b[0] in ('s', 'nes', 't') or (b[0] == 'k' and b[1] == 'str')):
                return self.mk_str((a, b))
            if self.rule.fold is not None and any(
                    x[0] == 'j' and any(y[0] in ('t', 's', 'nes') or (y[0] == 'k' and y[1] == 'str')
                                        for y in x[1]) for x in (a, b)):
                return self.mk_str((a, b))
            if not self.rule.text:
                ta, tb = self.str_truth(a), self.str_truth(b)
                if ta == {True} or tb == {True}:
                    return ('nes', 'str')
                if ta and tb:
                    return ('j', frozenset((K(''), ('nes', 'str'))), 'str')
        if op in ('Sub', 'Add') and a[0] == 'j' and b[0] == 'k' and b[1] == 'int':
            return self.join_vals({self.binop(op, x, b, node) for x in a[1]}, a[2])
        if op == 'Mod' and a[0] == 'k' and a[1] == 'str':
            fmt = a[2]
            vals = list(b[1]) if b[0] == 'l' else [b]
            parts = []
            import re as _re
            pos = 0
            idx = 0
            for m in _re.finditer(r"%[-+ #0]*\d*(?:\.\d+)?[sdrfgexXi]|%%", fmt):
                parts.append(fmt[pos:m.start()])
                if m.group(0) == "%%":
                    parts.append("%")
                else:
                    parts.append(vals[idx] if idx < len(vals) else ('top', 'fmt'))
                    idx += 1
                pos = m.end()
            parts.append(fmt[pos:])
            return self.mk_str(tuple(parts))
        return self.limit(('bin', op, a, b), node)

    def e_UnaryOp(self, node, st):
        out = []
        for s, v in self.ev(node.operand, st):
            if isinstance(node.op, ast.Not):
                t = self.const_truth(v)
                if t is not None:
                    out.append((s, K(not t)))
                elif v[0] == 'cmp':
                    out.append((s, ('cmp', v[1], not v[2])))
                else:
                    atom, flip = self.norm_atom(('truth', v))
                    d = self.decide(s, atom)
                    if d is not None:
                        out.append((s, K(not (d != flip))))
                    else:
                        out.append((s, ('cmp', atom, flip)))
            elif v[0] == 'k' and isinstance(v[2], (int, float)):
                out.append((s, K(-v[2] if isinstance(node.op, ast.USub) else v[2])))
            else:
                out.append((s, self.limit(('un', type(node.op).__name__, v), node)))
        return out

    def e_BoolOp(self, node, st):
        is_and = isinstance(node.op, ast.And)
        out = []
        cur = [st]
        for i, sub in enumerate(node.values):
            last = i == len(node.values) - 1
            nxt = []
            for s in cur:
                for s2, v in self.ev(sub, s):
                    if last:
                        out.append((s2, v))
                        continue
                    y, n = self.split(v, s2, node.lineno)
                    boolish = v[0] == 'cmp'
                    if is_and:
                        out += [(x, FALSE if boolish else v) for x in n]
                        nxt += y
                    else:
                        out += [(x, TRUE if boolish else v) for x in y]
                        nxt += n
            cur = self.dedup(nxt)
        return out

    def e_IfExp(self, node, st):
        yes, no = self.branch(node.test, st)
        out = []
        for s in yes:
            out += self.ev(node.body, s)
        for s in no:
            out += self.ev(node.orelse, s)
        return out

    def e_NamedExpr(self, node, st):
        out = []
        for s, v in self.ev(node.value, st):
            out.append((s.bind(node.target.id, v), v))
        return out

    def e_Compare(self, node, st):
        operands = [node.left] + list(node.comparators)
        out = []
        for s, vals in self.ev_list(operands, st):
            if len(node.ops) == 1:
                out.append((s, self.compare(node.ops[0], vals[0], vals[1], s)))
                continue
            # chained comparison: conjunction
            cur = [s]
            for i, op in enumerate(node.ops):
                nxt = []
                for s2 in cur:
                    v = self.compare(op, vals[i], vals[i + 1], s2)
                    if i == len(node.ops) - 1:
                        out.append((s2, v))
                        continue
                    y, n = self.split(v, s2, node.lineno)
                    out += [(x, FALSE) for x in n]
                    nxt += y
                cur = nxt
        return out

    def compare(self, op, a, b, st):
        opn = type(op).__name__
        neg = opn in ('NotEq', 'IsNot', 'NotIn')
        if a[0] == 'maybe':
            a = a[1]
        if b[0] == 'maybe':
            b = b[1]
        if opn in ('Is', 'IsNot', 'Eq', 'NotEq'):
            if a[0] == 'k' and b[0] == 'k':
                return K((a[2] == b[2] and (a[1] == b[1] or {a[1], b[1]} <= {'int', 'bool', 'float'})) != neg)
            if a == b and not has_top(a):
                return K(not neg)
            if b == NONE or a == NONE:
                v = a if b == NONE else b
                if v[0] in ('l', 'd', 's', 'f', 'c', 'm', 'bm', 'new', 'exc', 'cmp'):
                    return K(neg)
                if v[0] == 'j':
                    nones = [x == NONE for x in v[1]]
                    known = [x[0] in ('k', 'l', 'd', 's', 'new') for x in v[1]]
                    if all(known) and not any(nones):
                        return K(neg)
                atom = ('isnone', v)
                d = self.decide(st, atom)
                if d is not None:
                    return K(d != neg)
                return ('cmp', atom, not neg)
            if a[0] == 's' and b[0] == 'k' and b[2] == '' and self._s_nonempty(a):
                return K(neg)
            if a[0] in ('s', 'k') and b[0] in ('s', 'k') and self.str_distinct(a, b):
                return K(neg)
            if {a[0], b[0]} == {'l', 'k'}:
                return K(neg)
            if a[0] == 'l' and b[0] == 'l' and not any(
                    e[0] == 'many' for e in a[1] + b[1]):
                if len(a[1]) != len(b[1]):
                    return K(neg)
            atom, flip = self.norm_atom(('eq', a, b))
        elif opn in ('In', 'NotIn'):
            if a[0] == 'k' and b[0] == 'k' and isinstance(b[2], str) and isinstance(a[2], str):
                return K((a[2] in b[2]) != neg)
            if b[0] == 'l':
                if a in b[1]:
                    return K(not neg)
                if not b[1]:
                    return K(neg)
                if a[0] == 'k' and all(e[0] == 'k' for e in b[1]):
                    return K((a in b[1]) != neg)
            if b[0] == 'd':
                if any(k == a for k, _ in b[1]):
                    return K(not neg)
                if not b[2] and (not b[1] or (a[0] == 'k' and all(k[0] == 'k' for k, _ in b[1]))):
                    return K(neg)
            if (b, ('item', a)) in st.heap:
                return K(not neg)
            atom, flip = ('in', a, b), False
            if b[0] == 'l' and all(e[0] == 'k' for e in b[1]):
                # membership in a constant collection: consult known equalities
                for p, val in st.preds.items():
                    if val and p[0] == 'eq' and p[1] == a and p[2][0] == 'k':
                        return K((p[2] in b[1]) != neg)
        else:
            if a[0] == 'k' and b[0] == 'k':
                try:
                    r = {'Lt': lambda x, y: x < y, 'LtE': lambda x, y: x <= y,
                         'Gt': lambda x, y: x > y, 'GtE': lambda x, y: x >= y}[opn](a[2], b[2])
                    return K(r)
                except TypeError:
                    return ('top', 'cmp')
            if opn == 'Lt':
                atom, neg = ('lt', a, b), False
            elif opn == 'GtE':
                atom, neg = ('lt', a, b), True
            elif opn == 'Gt':
                atom, neg = ('lt', b, a), False
            else:
                atom, neg = ('lt', b, a), True
            atom, flip = self.norm_atom(atom)
        pos = (not neg) != flip
        t = None
        if atom[0] == 'truth':
            t = self.const_truth(atom[1])
        if t is None:
            t = self.decide(st, atom)
        if t is not None:
            return K(t == pos)
        return ('cmp', atom, pos)

    @staticmethod
    def str_distinct(a, b):
        pa = a[2] if a[0] == 'k' and isinstance(a[2], str) else None
        pb = b[2] if b[0] == 'k' and isinstance(b[2], str) else None
        fa = a[1][0] if a[0] == 's' and isinstance(a[1][0], str) else (pa if a[0] == 'k' else "")
        fb = b[1][0] if b[0] == 's' and isinstance(b[1][0], str) else (pb if b[0] == 'k' else "")
        if fa is None or fb is None:
            return False
        n = min(len(fa), len(fb))
        return fa[:n] != fb[:n]

    def e_Lambda(self, node, st):
        return [(st, ('top', 'lambda', node.lineno, node.col_offset))]

    def e_Starred(self, node, st):
        return self.ev(node.value, st)

    def _comp(self, node, elts, st):
        """Evaluate comprehension; yield list of (element values tuple)."""
        results = []
        skipped = []
        nonempty = False

        def rec(gens, s, many):
            nonlocal nonempty
            if not gens:
                cur = [(s, ())]
                for e in elts:
                    cur = [(s3, vals + (v,)) for s2, vals in cur for s3, v in self.ev(e, s2)]
                for s2, vals in cur:
                    results.append((vals, many, s2))
                return
            gen = gens[0]
            for s1, it in self.ev(gen.iter, s):
                seq = self.seq_of(it)
                if seq is None:
                    seq = [('many', ('elem', it))]
                if gen is node.generators[0]:
                    nonempty = any(e[0] != 'many' for e in seq)
                for e in seq:
                    m = many
                    if e[0] == 'many':
                        m = True
                        e = e[1]
                        s1 = self.havoc(s1, e)
                    for s2 in self.store(gen.target, e, s1, node):
                        cur = [s2]
                        filtered = False
                        for cond in gen.ifs:
                            nxt = []
                            for s3 in cur:
                                y, n = self.branch(cond, s3)
                                skipped.extend(x for x in n if x.ts != st.ts)
                                if n and y:
                                    filtered = True
                                elif n and not y:
                                    filtered = True
                                nxt += y
                            cur = nxt
                        for s3 in cur:
                            rec(gens[1:], s3, m or filtered)
        rec(node.generators, st, False)
        self._skipped, self._nonempty = skipped, nonempty
        return results

    def e_ListComp(self, node, st, kind='list'):
        results = self._comp(node, [node.elt], st)
        skipped, nonempty = self._skipped, self._nonempty
        elts = []
        for vals, many, s2 in results:
            e = ('many', vals[0]) if many else vals[0]
            if e not in elts or not many:
                elts.append(e)
        if len(elts) > 40:
            elts = [('many', ('top', 'comp', node.lineno))]
        changed = [r for r in results if r[2].ts != st.ts]
        out = []
        for ts in dict.fromkeys(s.ts for s in skipped):
            # elements were looked at (with these events) and left out
            rest = [e for e, (_, _, s) in zip([('many', v[0]) for v, _, _ in results], results)
                    if s.ts == st.ts or s.ts == ts]
            out.append((st.with_ts(ts), ('l', tuple(dict.fromkeys(rest)), kind)))
        if not changed and not out:
            return [(st, ('l', tuple(elts), kind))]
        if all(m for _, m, _ in results) and (not nonempty or any(s.ts == st.ts for _, _, s in results)):
            out.append((st, ('l', tuple(('many', v[0]) for v, m, s in results if s.ts == st.ts), kind)))
        for ts in dict.fromkeys(s.ts for _, _, s in changed):
            # at least one element came from an evaluation with these events
            own = {v[0] for v, _, s in results if s.ts == ts}
            rest = [e for e, (_, _, s) in zip([('many', v[0]) if m else v[0] for v, m, _ in results], results)
                    if not isinstance(ts, frozenset) or s.ts <= ts]
            if any(m for _, m, s in results if s.ts == ts):
                rest.append(self.join_vals(own, 'comp'))
            out.append((st.with_ts(ts), ('l', tuple(dict.fromkeys(rest)), kind)))
        return out

    def e_GeneratorExp(self, node, st):
        return self.e_ListComp(node, st)

    def e_SetComp(self, node, st):
        return self.e_ListComp(node, st, 'set')

    def e_DictComp(self, node, st):
        results = self._comp(node, [node.key, node.value], st)
        items = []
        opn = False
        filtered = any(g.ifs for g in node.generators)
        for vals, many, _ in results:
            if many:
                opn = True
                key = ('top', 'key', node.lineno) if filtered else vals[0]
                if (key, vals[1]) not in items:
                    items.append((key, vals[1]))
            else:
                items.append((vals[0], vals[1]))
        return [(st, ('d', tuple(items), opn))]

    # ---------------------------------------------------------------- calls
    def e_Call(self, node, st):
        out = []
        self.lines.add((self.fi.module.rel, node.lineno))
        func = node.func
        # super().method(...)
        if isinstance(func, ast.Attribute) and isinstance(func.value, ast.Call) and \
                isinstance(func.value.func, ast.Name) and func.value.func.id == 'super':
            cls = self._cur_cls()
            target = None
            if cls is not None:
                for base in self.p.mro(cls)[1:]:
                    if func.attr in base.methods:
                        target = base.methods[func.attr]
                        break
            selfv = st.env.get('self', ('param', 'self'))
            for s, args, kwargs in self.ev_args(node, st):
                out += self.do_call(s, node, func.attr, target, selfv, args, kwargs, is_super=True)
            return out
        if isinstance(func, ast.Attribute):
            for s, base in self.ev(func.value, st):
                for s1, fval in self.get_attr_callee(s, base, self.mangle(func.attr), func):
                    for s2, args, kwargs in self.ev_args(node, s1):
                        out += self.call_value(s2, node, fval, base, func.attr, args, kwargs)
            return out
        for s, fval in self.ev(func, st):
            name = func.id if isinstance(func, ast.Name) else "<expr>"
            for s2, args, kwargs in self.ev_args(node, s):
                out += self.call_value(s2, node, fval, None, name, args, kwargs)
        return out

    def get_attr_callee(self, st, base, attr, node):
        return self.get_attr(st, base, attr, node)

    def _cur_cls(self):
        for fi in reversed(self.stack):
            if fi.cls is not None:
                return fi.cls
        return None

    def ev_args(self, node, st):
        out = []
        for s, vals in self.ev_list(node.args, st):
            cur = [(s, {})]
            for kw in node.keywords:
                nxt = []
                for s2, kws in cur:
                    for s3, v in self.ev(kw.value, s2):
                        k2 = dict(kws)
                        k2[kw.arg or "**"] = v
                        nxt.append((s3, k2))
                cur = nxt
            for s2, kws in cur:
                out.append((s2, list(vals), kws))
        return out

    def call_value(self, st, node, fval, recv, name, args, kwargs):
        if fval[0] == 'j':
            out = []
            for alt in sorted(fval[1], key=repr):
                out += self.call_value(st, node, alt, recv, name, args, kwargs)
            return out
        if fval[0] == 'f':
            return self.do_call(st, node, name, fval[1], None, args, kwargs)
        if fval[0] == 'bm':
            return self.do_call(st, node, name, fval[2], fval[1], args, kwargs)
        if fval[0] == 'c':
            return self.do_call(st, node, name, fval[1], None, args, kwargs)
        if fval[0] == 'ext':
            return self.do_call(st, node, fval[1], None, None, args, kwargs)
        return self.do_call(st, node, name, None, recv, args, kwargs)

    def do_call(self, st, node, name, target, recv, args, kwargs, is_super=False):
        res = self.rule.on_call(self, st, node, name, target, recv, args, kwargs)
        if res is not None:
            return res
        if isinstance(target, FuncInfo):
            if self.can_inline(target):
                full = ([recv] if recv is not None and not target.is_static else []) + args
                if target.cls is not None and target.is_classmethod and recv is None:
                    full = [('c', target.cls)] + args
                elif target.is_classmethod and recv is not None:
                    full = [('c', self.class_of(recv) or target.cls)] + args
                return self.call_fi(target, st, full, kwargs, node, recv is not None)
            self.maybe_raise(st, node)
            return [(st, self.opaque_call(st, node, target.name, recv, args, kwargs))]
        if isinstance(target, ClassInfo):
            obj = ('new', target.name, "%s:%d:%d" % (self.fi.module.name, node.lineno, node.col_offset),
                   tuple(a for a in args[:3]))
            obj = self.limit(obj, node)
            if obj[0] != 'new':
                obj = ('new', target.name, "%s:%d:%d" % (self.fi.module.name, node.lineno, node.col_offset), ())
            init = self.p.find_method(target, "__init__")
            if self.rule.inline_ctor and init is not None and self.can_inline(init):
                return [(s, obj) for s, _ in self.call_fi(init, st, [obj] + args, kwargs, node)]
            self.maybe_raise(st, node)
            return [(st, obj)]
        return self.builtin(st, node, name, recv, args, kwargs)

    def maybe_raise(self, st, node):
        if self._try and self.rule.calls_may_raise:
            self._raises.append((st, ('exc', '*', NONE), node))

    def opaque_call(self, st, node, name, recv, args, kwargs):
        if self.rule.impure(name):
            return ('top', 'call:' + name, node.lineno, node.col_offset)
        allargs = tuple(args) + tuple(('kw', k, v) for k, v in sorted(kwargs.items()))
        return self.limit(('call', name.split(".")[-1] if recv is not None else name, recv, allargs), node)

    def call_fi(self, fi, st, args, kwargs, node, bound=False):
        """Inline a resolved callee; returns [(state, value)]."""
        params = fi.params
        a = fi.node.args
        env = {}
        if fi.outer is not None:
            env.update(st.env)
        pos = list(args)
        flat = []
        for v in pos:
            flat.append(v)
        for i, name in enumerate(params):
            if i < len(flat) and flat[i][0] != 'many':
                env[name] = flat[i]
        if len(flat) > len(params) and a.vararg:
            env[a.vararg.arg] = ('l', tuple(flat[len(params):]), 'tuple')
        elif a.vararg:
            env[a.vararg.arg] = ('l', (), 'tuple')
        names = set(params) | {x.arg for x in a.kwonlyargs}
        for k, v in kwargs.items():
            if k in names:
                env[k] = v
        if a.kwarg:
            env[a.kwarg.arg] = ('d', tuple((K(k), v) for k, v in kwargs.items() if k not in names), '**' in kwargs)
        defaults = list(a.defaults)
        for name, dnode in zip(params[len(params) - len(defaults):], defaults):
            if name not in env or (fi.outer is not None and name not in kwargs and
                                   params.index(name) >= len(flat)):
                if name not in kwargs and params.index(name) >= len(flat):
                    env[name] = self.default_val(dnode, fi)
        for x, dnode in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in env and dnode is not None:
                env[x.arg] = self.default_val(dnode, fi)
        for name in names:
            env.setdefault(name, ('param', name) if '**' in kwargs or any(v[0] == 'many' for v in flat)
                           else ('top', 'missing', name))
        initial = dict(env)
        self.stack.append(fi)
        self.visited.add(fi.ident)
        saved_try = self._try
        saved, self._raises = self._raises, []
        ex = self.block(fi.node.body, [st.with_env(env)])
        inner_raises = self._raises + ex.exc
        self._raises = saved
        self._try = saved_try
        self.stack.pop()
        rebound = {n.id for n in ast.walk(fi.node)
                   if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        outs = [(s, v) for s, v, _ in ex.ret] + [(s, NONE) for s in ex.next]
        is_gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(fi.node))
        results = []
        for s, v in outs:
            back = s.with_env(st.env)
            back = self.copy_out(fi, node, s, back, initial, rebound, bound)
            if is_gen:
                v = ('top', 'gen', fi.ident)
            results.append((back, v))
        for s, exc, where in inner_raises:
            self._raises.append((s.with_env(st.env), exc, where))
        seen = {}
        for s, v in results:
            seen.setdefault((s.key(), v), (s, v))
        res = list(seen.values())
        if self.rule.merge or len(res) > self.rule.max_states:
            groups = {}
            for s, v in res:
                groups.setdefault((s.ts, v), []).append(s)
            res = [(self.join(g), v) for (_, v), g in groups.items()]
        return res

    def copy_out(self, fi, node, inner, back, initial, rebound, bound):
        if not isinstance(node, ast.Call):
            return back
        params = fi.params
        off = 1 if (bound or (isinstance(node.func, ast.Attribute) and fi.cls is not None
                              and not fi.is_static)) and params[:1] in (['self'], ['cls']) else 0
        pairs = []
        for i, arg in enumerate(node.args):
            if i + off < len(params):
                pairs.append((params[i + off], arg))
        for kw in node.keywords:
            if kw.arg:
                pairs.append((kw.arg, kw.value))
        for pname, arg in pairs:
            if pname in rebound or pname not in inner.env:
                continue
            new = inner.env[pname]
            if new == initial.get(pname) or new[0] not in ('l', 'd'):
                continue
            if isinstance(arg, ast.Name) and arg.id in back.env:
                back = back.bind(arg.id, new)
            elif isinstance(arg, ast.Attribute):
                res = self.update_place(arg, new, back)
                back = res[0] if res else back
        return back

    def default_val(self, dnode, fi):
        try:
            return self.lift(ast.literal_eval(dnode), ('top', 'default'))
        except (ValueError, SyntaxError, TypeError):
            if isinstance(dnode, ast.Name):
                v = self.from_resolved(self.p.resolve(fi.module, dnode.id), dnode.id, fi.module)
                if v is not None:
                    return v
            return ('top', 'default', ast.unparse(dnode))

    # ------------------------------------------------------------- builtins
    def builtin(self, st, node, name, recv, args, kwargs):
        short = name.split(".")[-1]
        if recv is None:
            if name in ("list", "tuple", "set", "frozenset", "sorted", "reversed") :
                kind = {'sorted': 'list', 'reversed': 'list', 'frozenset': 'set'}.get(name, name)
                if not args:
                    return [(st, ('l', (), kind))]
                v = args[0]
                if name == 'set' and v[0] == 'k' and isinstance(v[2], str):
                    return [(st, self.opaque_call(st, node, name, None, args, kwargs))]
                seq = self.seq_of(v)
                if seq is not None:
                    if name == 'reversed' and not any(e[0] == 'many' for e in seq):
                        seq = seq[::-1]
                    if name == 'sorted' and all(e[0] == 'k' for e in seq) and not kwargs:
                        try:
                            seq = sorted(seq, key=lambda e: e[2])
                        except TypeError:
                            pass
                    return [(st, ('l', tuple(seq), kind))]
                return [(st, ('l', (('many', ('elem', v)),), kind))]
            if name == "dict":
                if not args:
                    return [(st, ('d', tuple((K(k), v) for k, v in kwargs.items() if k != '**'), '**' in kwargs))]
                if args[0][0] == 'd':
                    return [(st, args[0])]
            if name == "isinstance" and len(args) == 2:
                return [(st, self.isinstance_val(st, args[0], args[1]))]
            if name in ("any", "all") and len(args) == 1 and args[0][0] == 'l':
                return self.anyall(st, name, args[0][1], node)
            if name in ("len",) and args and args[0][0] == 'l' and not any(
                    e[0] == 'many' for e in args[0][1]):
                return [(st, K(len(args[0][1])))]
            if name == "range" and all(a[0] == 'k' for a in args):
                try:
                    r = range(*[a[2] for a in args])
                    if len(r) <= 12:
                        return [(st, ('l', tuple(K(i) for i in r), 'list'))]
                except TypeError:
                    pass
            if name == "enumerate" and args:
                seq = self.seq_of(args[0])
                if seq is not None and not any(e[0] == 'many' for e in seq):
                    return [(st, ('l', tuple(('l', (K(i), e), 'tuple') for i, e in enumerate(seq)), 'list'))]
                elem = ('elem', args[0])
                if seq is not None and len(seq) == 1:
                    elem = seq[0][1]
                idx = ('top', 'idx', node.lineno, node.col_offset)
                return [(st, ('l', (('many', ('l', (idx, elem), 'tuple')),), 'list'))]
            if name == "zip" and args:
                seqs = [self.seq_of(a) for a in args]
                if all(s is not None and not any(e[0] == 'many' for e in s) for s in seqs):
                    return [(st, ('l', tuple(('l', tup, 'tuple') for tup in zip(*seqs)), 'list'))]
                elems = []
                for a, s in zip(args, seqs):
                    if s is not None and len(s) == 1 and s[0][0] == 'many':
                        elems.append(s[0][1])
                    else:
                        elems.append(('elem', a))
                return [(st, ('l', (('many', ('l', tuple(elems), 'tuple')),), 'list'))]
            if name in ("getattr",) and len(args) >= 2 and args[1][0] == 'k':
                return self.get_attr(st, args[0], args[1][2], node)
            if name in PURE_BUILTINS and args and all(a[0] == 'k' for a in args) and not kwargs:
                try:
                    return [(st, K(PURE_BUILTINS[name](*[a[2] for a in args])))]
                except (TypeError, ValueError) as exc:
                    self._raises.append((st, ('exc', type(exc).__name__, NONE), node))
                    return []
            if name == "str" and len(args) == 1:
                if args[0][0] == 's':
                    return [(st, args[0])]
                return [(st, ('call', 'str', None, (args[0],)))]
            if name == "bool" and len(args) == 1:
                t = self.const_truth(args[0])
                if t is not None:
                    return [(st, K(t))]
                if args[0][0] == 'cmp':
                    return [(st, args[0])]
                atom, flip = self.norm_atom(('truth', args[0]))
                return [(st, ('cmp', atom, not flip))]
            self.maybe_raise(st, node)
            return [(st, self.opaque_call(st, node, name, None, args, kwargs))]
        # method on a value
        return self.method(st, node, short, recv, args, kwargs)

    def anyall(self, st, name, elts, node):
        out = []
        cur = [st]
        for i, e in enumerate(elts):
            nxt = []
            many = e[0] == 'many'
            e = e[1] if many else e
            for s in cur:
                y, n = self.split(e, s, node.lineno)
                if many:
                    # what holds for some element is no fact about the generic one
                    some = [St(x.env, x.heap, s.preds, x.ts, x.trace).assume(
                        ('truth', ('some', e, name == 'any')), True, node.lineno)
                        for x in (y if name == 'any' else n)]
                    y, n = (some, n) if name == 'any' else (y, some)
                    if e not in elts[:i]:
                        nxt.append(s)
                if name == 'any':
                    out += [(x, TRUE) for x in y]
                    nxt += n
                else:
                    out += [(x, FALSE) for x in n]
                    nxt += y
            cur = nxt
        out += [(x, FALSE if name == 'any' else TRUE) for x in cur]
        return out

    def isinstance_val(self, st, v, cls):
        names = []
        classes = cls[1] if cls[0] == 'l' else (cls,)
        for c in classes:
            if c[0] == 'c':
                names.append(c[1].name)
            elif c[0] == 'ext':
                names.append(c[1].split(".")[-1])
            else:
                names.append(show(c))
        kinds = {'l': None, 'd': 'dict', 's': 'str'}
        have = None
        if v[0] == 'k':
            have = [v[1]] + (['int'] if v[1] == 'bool' else [])
        elif v[0] == 'l':
            have = [v[2]]
        elif v[0] in kinds:
            have = [kinds[v[0]]]
        if have is not None:
            return K(any(n in have or n == 'object' for n in names))
        c = self.class_of(v)
        if c is not None:
            mine = [x.name for x in self.p.mro(c)]
            if any(n in mine for n in names):
                return TRUE
            if v[0] == 'new':
                return FALSE
        atom = ('isinst', v, tuple(sorted(names)))
        d = self.decide(st, atom)
        if d is not None:
            return K(d)
        return ('cmp', atom, True)

    def method(self, st, node, name, recv, args, kwargs):
        h = recv[0]
        if h == 'nes' and name == 'format':
            return [(st, recv)]
        if h == 't':
            if name == 'format':
                return [(st, self.fold_str((recv,) + tuple(args) + tuple(v for _, v in sorted(kwargs.items()))))]
            if name in ('strip', 'rstrip', 'lstrip', 'replace', 'lower', 'upper', 'ljust', 'rjust', 'expandtabs'):
                return [(st, recv)]
        if h in ('j', 'maybe') and self.rule.fold is not None and name in (
                'strip', 'rstrip', 'lstrip', 'replace', 'lower', 'upper', 'ljust', 'rjust', 'expandtabs'):
            inner = recv[1] if h == 'maybe' else recv
            alts = inner[1] if inner[0] == 'j' else (inner,)
            if any(x[0] == 't' for x in alts):
                return [(st, recv)]
        if h == 'k' and name == 'join' and self.rule.fold is not None and len(args) == 1 and \
                isinstance(recv[2], str):
            parts = []
            seq = args[0][1] if args[0][0] == 'l' else (('many', ('elem', args[0])),)
            for e in seq:
                if e[0] == 'many':
                    e = self.join_vals({e[1], ('t', (), False)}, 'join')
                parts.append(e)
            return [(st, self.fold_str(tuple(parts)))]
        place = node.func.value if isinstance(node.func, ast.Attribute) else None
        if h == 'k' and isinstance(recv[2], str):
            if name == 'format':
                return [(st, self.format_str(recv[2], args, kwargs))]
            if name == 'join' and not self.rule.text and len(args) == 1 and args[0][0] == 'l':
                if any(e[0] != 'many' and self.const_truth(e) for e in args[0][1]):
                    return [(st, ('nes', 'join'))]
                if all(self.str_truth(e[1] if e[0] == 'many' else e) == {False} for e in args[0][1]) and \
                        recv[2] == '':
                    return [(st, K(''))]
            if name == 'join' and len(args) == 1 and args[0][0] == 'l' and not any(
                    e[0] == 'many' for e in args[0][1]):
                parts = []
                for i, e in enumerate(args[0][1]):
                    if i:
                        parts.append(recv[2])
                    parts.append(e)
                return [(st, self.mk_str(tuple(parts)))]
            if name in STR_METHODS and all(a[0] == 'k' for a in args) and not kwargs:
                try:
                    r = getattr(recv[2], name)(*[a[2] for a in args])
                    if isinstance(r, (list, tuple)):
                        return [(st, ('l', tuple(K(x) for x in r), 'list'))]
                    return [(st, K(r))]
                except (TypeError, ValueError, IndexError):
                    self._raises.append((st, ('exc', 'ValueError', NONE), node))
                    return []
            if name in ('startswith', 'endswith') and args and args[0][0] == 'l' and \
                    all(e[0] == 'k' for e in args[0][1]):
                return [(st, K(getattr(recv[2], name)(tuple(e[2] for e in args[0][1]))))]
        if h == 's' and name == 'startswith' and args and args[0][0] == 'k' and isinstance(recv[1][0], str):
            first, pre = recv[1][0], args[0][2]
            if len(first) >= len(pre):
                return [(st, K(first.startswith(pre)))]
        if h == 'l' and place is not None:
            if name in ('append', 'add') and len(args) == 1:
                if recv[2] == 'set' and args[0] in recv[1] or self.rule.join_lists and ('many', args[0]) in recv[1]:
                    return [(st, NONE)]
                new = ('l', recv[1] + (args[0],), recv[2])
                if len(new[1]) > 40:
                    new = ('l', (('many', ('top', 'long', node.lineno)),), recv[2])
                return [(s, NONE) for s in self.update_place(place, new, st)]
            if name in ('extend', 'update') and len(args) == 1:
                extra = self.seq_of(args[0])
                extra = tuple(extra) if extra is not None else (('many', ('elem', args[0])),)
                return [(s, NONE) for s in self.update_place(place, ('l', recv[1] + extra, recv[2]), st)]
            if name == 'insert' and len(args) == 2:
                elts = recv[1]
                if args[0] == K(0):
                    elts = (args[1],) + elts
                else:
                    elts = tuple(e if e[0] == 'many' else ('many', e) for e in elts) + (('many', args[1]),)
                return [(s, NONE) for s in self.update_place(place, ('l', elts, recv[2]), st)]
            if name == 'pop' and recv[2] == 'list':
                elts = recv[1]
                if elts and not any(e[0] == 'many' for e in elts):
                    if not args or args[0] == K(-1):
                        val, rest = elts[-1], elts[:-1]
                        return [(s, val) for s in self.update_place(place, ('l', rest, 'list'), st)]
                    if args[0] == K(0):
                        val, rest = elts[0], elts[1:]
                        return [(s, val) for s in self.update_place(place, ('l', rest, 'list'), st)]
                new = ('l', tuple(e if e[0] == 'many' else ('many', e) for e in elts), 'list')
                return [(s, ('top', 'pop', node.lineno, node.col_offset))
                        for s in self.update_place(place, new, st)]
            if name in ('remove', 'discard', 'sort', 'reverse', 'clear'):
                if name == 'clear':
                    new = ('l', (), recv[2])
                else:
                    new = ('l', tuple(e if e[0] == 'many' else ('many', e) for e in recv[1]), recv[2])
                if name in ('sort', 'reverse'):
                    new = recv
                return [(s, NONE) for s in self.update_place(place, new, st)]
            if name == 'copy':
                return [(st, recv)]
        if h == 'd':
            if name == 'keys':
                return [(st, ('l', tuple(self.seq_of(recv)), 'list'))]
            tag = ('keys', show(recv)[:80])
            if name == 'values':
                vals = tuple(v if k[0] == 'k' else ('many', v) for k, v in recv[1])
                if recv[2]:
                    vals += (('many', ('item', tag, ('elem', tag))),)
                return [(st, ('l', vals, 'list'))]
            if name == 'items':
                vals = tuple(('l', kv, 'tuple') if kv[0][0] == 'k' else ('many', ('l', kv, 'tuple'))
                             for kv in recv[1])
                if recv[2]:
                    vals += (('many', ('l', (('elem', tag), ('item', tag, ('elem', tag))), 'tuple')),)
                return [(st, ('l', vals, 'list'))]
            if name == 'get' and args:
                for k, v in recv[1]:
                    if k == args[0]:
                        return [(st, v)]
                if not recv[2] and args[0][0] == 'k' and all(k[0] == 'k' for k, _ in recv[1]):  # noqa
                    return [(st, args[1] if len(args) > 1 else NONE)]
            if name == 'copy':
                return [(st, recv)]
            if name in ('update', 'pop', 'setdefault', 'clear') and place is not None:
                new = ('d', (), name != 'clear')
                return [(s, ('top', 'dict' + name, node.lineno)) for s in self.update_place(place, new, st)]
        if h in ('s', 'k') and name == 'format':
            return [(st, ('s', (recv,) + tuple(args)))]
        if name in ('keys',) and h not in ('k', 's'):
            return [(st, ('l', (('many', ('elem', recv)),), 'list'))]
        if name == 'items' and h not in ('k', 's') and not args:
            return [(st, ('l', (('many', ('l', (('elem', recv), ('item', recv, ('elem', recv))), 'tuple')),), 'list'))]
        if name == 'values' and h not in ('k', 's') and not args:
            return [(st, ('l', (('many', ('item', recv, ('elem', recv))),), 'list'))]
        self.maybe_raise(st, node)
        return [(st, self.opaque_call(st, node, name, recv, args, kwargs))]

    def format_str(self, fmt, args, kwargs):
        parts = []
        auto = 0
        try:
            for lit, field, spec, conv in string.Formatter().parse(fmt):
                parts.append(lit)
                if field is None:
                    continue
                base = field.split(".")[0].split("[")[0]
                if base == "":
                    v = args[auto] if auto < len(args) else ('top', 'fmt')
                    auto += 1
                elif base.isdigit():
                    v = args[int(base)] if int(base) < len(args) else ('top', 'fmt')
                else:
                    v = kwargs.get(base, ('top', 'fmt', base))
                if field != base:
                    v = ('attr', v, field[len(base):].lstrip("."))
                parts.append(v)
        except (ValueError, IndexError):
            return ('top', 'fmt')
        return self.mk_str(tuple(parts))


def fragment(fi, pred):
    """The innermost statement list of FI that contains every node satisfying
    PRED, as a function of its own whose free variables are opaque; with the
    entry environment."""
    import copy as _copy
    events = {id(n) for n in ast.walk(fi.node) if pred(n)}

    def count(stmts):
        return len({id(n) for s in stmts for n in ast.walk(s)} & events)

    block = fi.node.body
    while True:
        inner = None
        for stmt in block:
            for field in ('body', 'orelse', 'finalbody'):
                sub = getattr(stmt, field, None)
                if isinstance(sub, list) and sub and isinstance(sub[0], ast.stmt) and not isinstance(
                        stmt, (ast.FunctionDef, ast.ClassDef)) and count(sub) == len(events):
                    inner = sub
        if inner is None or not events:
            break
        block = inner
    node = _copy.copy(fi.node)
    node.body = block
    new = FuncInfo(fi.module, node, fi.cls, fi.outer)
    env = {n.id: ('param', n.id) for n in ast.walk(fi.node)
           if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
    return new, env
