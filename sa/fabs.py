"""Path-sensitive abstract interpretation of the Fortran procedures read by sa.fortran.

Values: ('k', constant) | ('null',) | ('ptr', path) | ('undef',) | ('init', path) value on entry | ('nonempty',) text |
('any', ...) unknown | ('t', op, args) term. Paths: ('var', frame, name, component...), an element is ('[]', index values), the target
of a pointer whose association is not known is '->'. Facts map atoms ('==', a, b), ('<', a, b), ('assoc', v), ('alloc', path),
('present', name), ('truth', v) to booleans. Loops run to a fixpoint; what they change is widened.
"""
import functools

from sa import fortran as F
from sa.project import AnalysisBroken


def K(v):
    return ('k', v)


TRUE, FALSE, NULL, UNDEF, NONEMPTY = K(True), K(False), ('null',), ('undef',), ('nonempty',)
ANY = ('any', '?')
INQUIRY = {"size", "lbound", "ubound", "shape", "len", "kind", "bit_size", "huge", "storage_size", "tiny", "epsilon"}
INTRINSICS = {"trim", "len_trim", "len", "size", "min", "max", "index", "ichar", "iand", "ieor", "ishft", "bit_size", "huge", "int", "log",
              "real", "adjustl", "any", "all", "mod", "abs", "sum", "lbound", "ubound", "nint", "tiny", "epsilon", "sqrt", "exp", "char",
              "count", "maxval", "minval", "reshape", "spread", "merge", "same_type_as", "null", "storage_size", "shape", "kind",
              "selected_real_kind", "iachar", "scan", "verify", "repeat", "dble", "floor", "ceiling", "not", "ior", "float"}


class St:
    __slots__ = ("env", "facts", "ts")

    def __init__(self, env=None, facts=None, ts=frozenset()):
        self.env = env if env is not None else {}
        self.facts = facts if facts is not None else {}
        self.ts = ts

    def key(self):
        return (frozenset(self.env.items()), frozenset(self.facts.items()), self.ts)

    def put(self, path, val):
        env = dict(self.env)
        if val == ANY:
            env.pop(path, None)
        else:
            env[path] = val
        return St(env, self.facts, self.ts)

    def fact(self, atom, val):
        facts = dict(self.facts)
        facts[atom] = val
        return St(self.env, facts, self.ts)

    def with_ts(self, ts):
        return St(self.env, self.facts, frozenset(ts))


class Frame:
    def __init__(self, proc, name, alias=None, present=None, depth=0, parent=None, call_line=None):
        self.proc, self.name, self.alias, self.present, self.depth = proc, name, alias or {}, present or {}, depth
        self.parent, self.call_line = parent, call_line

    def stack(self):
        out, f = [], self
        while f is not None:
            out.append(f)
            f = f.parent
        return out


class Rule:
    max_depth = 6
    max_states = 60000
    null_results = True     # keep that a function returned a null pointer

    def inline(self, proc, frame):
        return True

    def track(self, path):
        """Is the value of PATH of interest? What is not is forgotten when it is stored."""
        return True

    def track_alloc(self, path):
        """Is it of interest whether PATH is allocated?"""
        return self.track(path)

    def precise(self, path):
        """Keep the values 0, '', .true., ... of PATH apart where loops are joined?"""
        return path[-1] not in ('tmp',) and 'err' in str(path[-1])

    def on_call(self, ip, st, frame, line, name, proc, recv, args):
        return None

    def on_store(self, ip, st, frame, line, path, val, old):
        return st

    def on_ref(self, ip, st, frame, line, path, val):
        return st

    def on_fail(self, ip, st, frame, line):
        """An allocation failed (stat= is given)."""
        return st

    def on_enter(self, ip, st, frame, caller, line):
        """The procedure of FRAME is called."""
        return st

    def on_loop(self, ip, st, frame, line, var, bounds, phase):
        """The head of a counted loop: PHASE is 'iter' or 'end'."""
        return st

    def on_result(self, ip, st, frame, val):
        """(state, value) of a call of a function, before its locals go."""
        return st, val

    def on_inquiry(self, ip, st, frame, line, name, path):
        """size() and the like of PATH."""

    def on_split(self, ip, st, atom, truth):
        return st

    def on_optional(self, ip, st, frame, line, name):
        """A dummy argument is referenced where it is not known to be present."""

    def on_deref(self, ip, st, frame, line, path, val):
        """The target of the pointer at PATH is used."""
        return st

    def on_index(self, ip, st, frame, line, path, vals):
        return st

    def on_alloc(self, ip, st, frame, line, kind, path):
        return st

    def on_stop(self, ip, st, frame, line):
        pass


class Interp:
    def __init__(self, mods, rule):
        self.mods = mods
        self.rule = rule
        self.procs, self.types, self.consts = {}, {}, {}
        for m in mods:
            self.procs.update(m.procs)
            self.types.update(m.types)
            for d in m.decls.values():
                if d.has('parameter'):
                    self.consts[d.name] = d
        self.visited = set()
        self.steps = 0

    # ------------------------------------------------------------ entry
    def run(self, proc, ts=frozenset(), setup=None):
        frame = Frame(proc, proc.name)
        self.visited.add(proc)
        st = St(ts=ts)
        for name in proc.args:
            d = proc.decls.get(name)
            if d is None:
                continue
            if d.intent == 'out' and not self.self_defining(d):
                st = st.put(self.root(frame, name), UNDEF if self.rule.track(self.root(frame, name)) else ANY)
        st = self.locals(st, frame)
        if setup is not None:
            st = setup(self, st, frame)
        ends = self.body(proc.body, [st], frame)
        return frame, self.dedupe(ends['normal'] + ends['return'])

    def self_defining(self, d):
        """intent(out) of a type whose components have default values."""
        return d.base in ('type', 'class')

    def root(self, frame, name):
        return ('var', frame.name, name)

    def locals(self, st, frame):
        proc = frame.proc
        env = dict(st.env)
        for name, d in proc.decls.items():
            if name in proc.args or d.has('parameter'):
                continue
            path = self.root(frame, name)
            if d.has('pointer'):
                if self.rule.track(path):
                    env[path] = ('init', path) if d.init else UNDEF
            elif d.has('allocatable'):
                if self.rule.track_alloc(path):
                    env[('alloc', path)] = False
            elif d.base in ('type', 'class') or d.init:
                continue
            elif self.rule.track(path):
                env[path] = UNDEF
        return St(env, st.facts, st.ts)

    def dedupe(self, states):
        if len(states) < 2:
            return states
        groups = {}
        for s in states:
            k = (frozenset(s.env.items()), s.ts)
            got = groups.get(k)
            if got is None:
                groups[k] = s
            elif got.facts is not s.facts:
                groups[k] = St(got.env, {a: v for a, v in got.facts.items() if s.facts.get(a) is v}, got.ts)
        out = list(groups.values())
        if len(out) > self.rule.max_states:
            raise AnalysisBroken("too many states in the Fortran analysis")
        return out

    # ------------------------------------------------------------ types
    def decl(self, frame, name):
        return frame.proc.decls.get(name) or frame.proc.module.decls.get(name)

    def component(self, tname, comp):
        while tname in self.types:
            t = self.types[tname]
            if comp in t.comps:
                return t.comps[comp]
            tname = t.extends
        return None

    def binding(self, tname, name):
        while tname in self.types:
            t = self.types[tname]
            if name in t.bindings:
                return t.bindings[name]
            tname = t.extends
        return None

    def type_of(self, expr, frame, st=None):
        """Declared type name of a designator."""
        d = self.decl_of(expr, frame, st)
        if isinstance(d, str):
            return d
        return d.tname if d is not None and d.base in ('type', 'class') else None

    def decl_of(self, expr, frame, st=None):
        if expr[0] == 'n':
            if st is not None:
                got = st.env.get(('type', frame.name, expr[1]))
                if got:
                    return got
            if expr[1] in frame.alias and isinstance(frame.alias[expr[1]], tuple) and frame.alias[expr[1]][0] == 'expr':
                return self.decl_of(frame.alias[expr[1]][1], frame, st)
            return self.decl(frame, expr[1])
        if expr[0] == '%':
            base = self.decl_of(expr[1], frame, st)
            tname = base if isinstance(base, str) else base.tname if base is not None else None
            return self.component(tname, expr[2])
        if expr[0] == '()':
            return self.decl_of(expr[1], frame, st)
        return None

    # ------------------------------------------------------------ designators
    def path(self, expr, st, frame, line, write=False):
        """[(state, path)] of a designator; the value of pointers on the way is followed."""
        k = expr[0]
        if k == 'n':
            name = expr[1]
            if name in frame.alias:
                target = frame.alias[name]
                if target[0] == 'expr':
                    return self.path(target[1], st, frame, line, write)
                return [(st, target)]
            if name in frame.proc.args:
                self.need_present(st, frame, line, name)
            return [(st, self.root(frame, name) if name in frame.proc.decls or name in frame.proc.args else ('var', '', name))]
        if k == '%':
            out = []
            d = self.decl_of(expr[1], frame, st)
            for s, p in self.path(expr[1], st, frame, line):
                s, p = self.follow(s, p, d, frame, line)
                out.append((s, p + (expr[2],)))
            return out
        if k == '()':
            out = []
            d = self.decl_of(expr[1], frame, st)
            for s, p in self.path(expr[1], st, frame, line):
                s, p = self.follow(s, p, d, frame, line)
                for s2, vals in self.values([v for _, v in expr[2]], s, frame, line):
                    s2 = self.rule.on_index(self, s2, frame, line, p, vals)
                    if isinstance(d, F.Decl) and d.base == 'character' and not d.dims:
                        out.append((s2, p + (('sub',),)))
                    else:
                        out.append((s2, p + (('[]',) + vals,)))
            return out
        raise AnalysisBroken("not a designator: %s" % F.show(expr))

    def follow(self, st, path, d, frame, line):
        """Target of PATH when it is a pointer."""
        val = st.env.get(path)
        if isinstance(d, F.Decl) and d.has('pointer') or (val is not None and val[0] in ('ptr', 'null')):
            val = self.pointer(st, path)
            st = self.rule.on_deref(self, st, frame, line, path, val)
            if val[0] == 'ptr':
                return st, val[1]
            return st, path + ('->',)
        return st, path

    def pointer(self, st, path):
        val = st.env.get(path)
        if val is None and not self.rule.track(path):
            return ('ptr', (ANY, '->'))
        if val is None or val[0] in ('init', 'any'):
            if val == ANY:
                return ('ptr', (ANY, '->'))
            return ('ptr', (path if val is None or val[0] == 'init' else val) + ('->',))
        return val

    def need_present(self, st, frame, line, name):
        d = frame.proc.decls.get(name)
        if d is None or not d.has('optional'):
            return
        got = self.present(st, frame, name)
        if got is not True:
            self.rule.on_optional(self, st, frame, line, name)

    def present(self, st, frame, name):
        d = frame.proc.decls.get(name)
        if d is not None and not d.has('optional'):
            return True
        if name in frame.present:
            p = frame.present[name]
            if isinstance(p, bool):
                return p
            return st.facts.get(p)
        return st.facts.get(('present', frame.name, name))

    def present_atom(self, frame, name):
        p = frame.present.get(name)
        return p if isinstance(p, tuple) else ('present', frame.name, name)

    def read(self, st, path, frame, line):
        val = st.env.get(path)
        if val is None:
            for n in range(len(path) - 1, 2, -1):
                up = st.env.get(path[:n])
                if up is not None and up[0] in ('undef', 'any', 'k'):
                    val = up
                    break
            if val is None:
                val = ('init', path) if self.rule.track(path) else ANY
        st = self.rule.on_ref(self, st, frame, line, path, val)
        return st, val

    def store(self, st, path, val, frame, line):
        if path[-1] == ('sub',):
            # part of a character variable
            path = path[:-1]
            old = st.env.get(path)
            if not nonblank(val):
                val = NONEMPTY if old == NONEMPTY else ('any', 'part', line)
            else:
                val = NONEMPTY
        old = st.env.get(path)
        st = self.rule.on_store(self, st, frame, line, path, val, old)
        if st is None:
            return None
        if path[0] == ANY or path[0] == 'any':
            return st
        env = dict(st.env)
        n = len(path)
        for p in list(env):
            if p[0] == 'alloc':
                if p[1][:n] == path and len(p[1]) > n:
                    del env[p]
            elif len(p) > n and p[:n] == path:
                del env[p]
            elif len(p) == n and n and isinstance(path[-1], tuple) and p[:-1] == path[:-1] and p != path and isinstance(p[-1], tuple):
                # another element of the array: the same one unless both are constant
                if not all(v[0] == 'k' for v in p[-1][1:] + path[-1][1:]):
                    del env[p]
        if self.rule.track(path):
            env[path] = val
        else:
            env.pop(path, None)
        facts = st.facts
        if val != ('init', path):
            facts = {a: v for a, v in facts.items() if not mentions(a, ('init', path)) and not (
                a[0] == 'alloc' and a[1][:n] == path)}
        return St(env, facts, st.ts)

    # ------------------------------------------------------------ expressions
    def values(self, exprs, st, frame, line):
        cur = [(st, ())]
        for e in exprs:
            nxt = []
            for s, vals in cur:
                if e is None:
                    nxt.append((s, vals + (('none',),)))
                    continue
                for s2, v in self.ev(e, s, frame, line):
                    nxt.append((s2, vals + (v,)))
            cur = nxt
        return cur

    def ev(self, e, st, frame, line):
        k = e[0]
        if k == 'num':
            text = e[1].split("_")[0]
            try:
                return [(st, K(int(text)))]
            except ValueError:
                try:
                    return [(st, K(float(text.replace("d", "e"))))]
                except ValueError:
                    return [(st, ('any', 'num', text))]
        if k == 'str':
            return [(st, K(e[1]))]
        if k == 'log':
            return [(st, K(e[1]))]
        if k == '*':
            return [(st, ('any', '*'))]
        if k == ':':
            out = []
            for s, vals in self.values([x for x in e[1:]], st, frame, line):
                out.append((s, ('t', ':', vals)))
            return out
        if k == 'arr':
            return [(s, ('t', 'arr', vals)) for s, vals in self.values(e[1], st, frame, line)]
        if k in ('op', 'un') and (e[1] in (".and.", ".or.", ".not.", "==", "/=", "<", "<=", ">", ">=", ".eqv.", ".neqv.")):
            return [(s, K(t)) for s, t in self.truth(e, st, frame, line)]
        if k == 'un':
            return [(s, K(-v[1]) if v[0] == 'k' else ('t', '-', (v,))) for s, v in self.ev(e[2], st, frame, line)]
        if k == 'op':
            out = []
            for s, (a, b) in self.values(e[2:4], st, frame, line):
                out.append((s, self.arith(e[1], a, b)))
            return out
        if k == 'n':
            const = self.consts.get(e[1]) if e[1] not in frame.proc.decls else frame.proc.decls[e[1]]
            if const is not None and isinstance(const, F.Decl) and const.has('parameter') and const.init:
                try:
                    node = F.parse_expr(const.init[1])
                except AnalysisBroken:
                    return [(st, ('any', 'const', e[1]))]
                if node[0] in ('num', 'str', 'log') or (node[0] == 'un' and node[2][0] == 'num'):
                    return self.ev(node, st, frame, line)
                return [(st, ('t', 'const', (K(e[1]),)))]
        if k == '()':
            return self.call_or_index(e, st, frame, line)
        if k == '%':
            # a binding without arguments is not a reference
            pass
        out = []
        d = self.decl_of(e, frame, st)
        for s, p in self.path(e, st, frame, line):
            if isinstance(d, F.Decl) and d.has('pointer') and d.base in ('type', 'class'):
                s, p = self.follow(s, p, d, frame, line)
            elif isinstance(d, F.Decl) and d.has('pointer'):
                s, p = self.follow(s, p, d, frame, line)
            out.append(self.read(s, p, frame, line))
        return out

    def arith(self, op, a, b):
        if a == UNDEF or b == UNDEF:
            return ('any', 'undef')
        if op == '//':
            if nonblank(a) or nonblank(b):
                return NONEMPTY
            if a[0] == 'k' and b[0] == 'k':
                return K(str(a[1]) + str(b[1]))
            return ('t', '//', (a, b))
        if a[0] == 'k' and b[0] == 'k':
            try:
                if op == '+':
                    return K(a[1] + b[1])
                if op == '-':
                    return K(a[1] - b[1])
                if op == '*':
                    return K(a[1] * b[1])
            except TypeError:
                pass
        if op == '+' and a == K(0):
            return b
        if op == '+' and b == K(0):
            return a
        if op == '-' and b == K(0):
            return a
        return ('t', op, (a, b))

    def call_or_index(self, e, st, frame, line):
        base, args = e[1], e[2]
        if base[0] == 'n':
            name = base[1]
            if name in frame.alias or (self.decl(frame, name) is not None and name not in self.procs):
                d = self.decl(frame, name)
                if name in frame.alias or d.dims is not None or d.base == 'character' or d.has('allocatable'):
                    return self.ref(e, st, frame, line)
            if name == 'present':
                return [(s, K(t)) for s, t in self.split_present(args[0][1], st, frame, line)]
            if name in ('associated', 'allocated'):
                return [(s, K(t)) for s, t in self.status(name, args, st, frame, line)]
            if name in self.procs:
                return self.call(st, frame, line, name, self.procs[name], None, None, args)
            if name == 'null':
                return [(st, NULL)]
            if name in INTRINSICS or True:
                got = self.rule.on_call(self, st, frame, line, name, None, None, args)
                if got is not None:
                    return got
                out = []
                if name in INQUIRY and args and self.designator(args[0][1], frame, st):
                    for s, p in self.path(args[0][1], st, frame, line):
                        self.rule.on_inquiry(self, s, frame, line, name, p)
                        for s2, vals in self.values([v for _, v in args[1:]], s, frame, line):
                            out.append((s2, ('t', name, (('init', p),) + vals if self.rule.track(p) else (ANY,))))
                    return out
                for s, vals in self.values([v for _, v in args], st, frame, line):
                    out.append((s, self.intrinsic(name, vals)))
                return out
        if base[0] == '%':
            target = self.bound(base, frame, st)
            if target is not None:
                return self.method(base, args, st, frame, line)
        return self.ref(e, st, frame, line)

    def ref(self, e, st, frame, line):
        out = []
        for s, p in self.path(e, st, frame, line):
            if p[-1] == ('sub',):
                s, v = self.read(s, p[:-1], frame, line)
                out.append((s, ('t', 'sub', (v,))))
            else:
                out.append(self.read(s, p, frame, line))
        return out

    def intrinsic(self, name, vals):
        v = vals[0] if vals else None
        if name in ('trim', 'adjustl') and v is not None:
            return K(v[1].rstrip()) if v[0] == 'k' and isinstance(v[1], str) else v
        if name in ('len_trim', 'len') and v is not None:
            if v[0] == 'k' and isinstance(v[1], str):
                return K(len(v[1].rstrip() if name == 'len_trim' else v[1]))
            return ('t', 'len', (v,))
        if name in ('min', 'max') and all(x[0] == 'k' for x in vals):
            return K(min(x[1] for x in vals) if name == 'min' else max(x[1] for x in vals))
        return ('t', name, vals)

    def bound(self, base, frame, st):
        tname = self.type_of(base[1], frame, st)
        return self.binding(tname, base[2]) if tname else None

    # ------------------------------------------------------------ conditions
    def truth(self, e, st, frame, line):
        """[(state, bool)]; calls in both operands of .and. / .or. are evaluated."""
        k = e[0]
        if k == 'log':
            return [(st, e[1])]
        if k == 'un' and e[1] == ".not.":
            return [(s, not t) for s, t in self.truth(e[2], st, frame, line)]
        if k == 'op' and e[1] in (".and.", ".or."):
            out = []
            calls = any(x[0] == '()' and self.is_call(x, frame, st) for x in F.walk_expr(e[3]))
            for s, a in self.truth(e[2], st, frame, line):
                if not calls and a == (e[1] == ".or."):
                    out.append((s, a))
                    continue
                for s2, b in self.truth(e[3], s, frame, line):
                    out.append((s2, (a and b) if e[1] == ".and." else (a or b)))
            groups = {}
            for s, t in out:
                groups.setdefault(t, []).append(s)
            return [(s, t) for t, states in groups.items() for s in self.dedupe(states)]
        if k == 'op' and e[1] in (".eqv.", ".neqv."):
            out = []
            if self.designator(e[2], frame, st) and self.designator(e[3], frame, st):
                for s, (a, b) in self.values(e[2:4], st, frame, line):
                    known = [v[1] if v[0] == 'k' else s.facts.get(('truth', v)) for v in (a, b)]
                    if None in known:
                        out += self.compare("==" if e[1] == ".eqv." else "/=", a, b, s)
                    else:
                        out.append((s, (known[0] == known[1]) == (e[1] == ".eqv.")))
                return out
            for s, a in self.truth(e[2], st, frame, line):
                for s2, b in self.truth(e[3], s, frame, line):
                    out.append((s2, (a == b) == (e[1] == ".eqv.")))
            return out
        if k == 'op' and e[1] in ("==", "/=", "<", "<=", ">", ">="):
            out = []
            for s, (a, b) in self.values(e[2:4], st, frame, line):
                out += self.compare(e[1], a, b, s)
            return out
        out = []
        for s, v in self.ev(e, st, frame, line):
            if v[0] == 'k' and isinstance(v[1], bool):
                out.append((s, v[1]))
            else:
                out += self.split(s, ('truth', v))
        return out

    def split(self, st, atom):
        got = st.facts.get(atom)
        if got is not None:
            return [(st, got)]
        if mentions(atom, ANY):
            return [(self.rule.on_split(self, st, atom, t), t) for t in (True, False)]
        return [(self.rule.on_split(self, st.fact(atom, t), atom, t), t) for t in (True, False)]

    def compare(self, op, a, b, st):
        neg = op in ("/=", ">=", "<=")
        if op in ("==", "/="):
            left, right, rel = a, b, '=='
        elif op in ("<", ">="):
            left, right, rel = a, b, '<'
        else:                       # a > b is b < a, a <= b is not (b < a)
            left, right, rel = b, a, '<'
        got = self.decide(rel, left, right, st)
        if got is not None:
            return [(st, got != neg)]
        if rel == '==' and repr(right) < repr(left):
            left, right = right, left
        return [(s, t != neg) for s, t in self.split(st, (rel, left, right))]

    def decide(self, rel, a, b, st):
        if a[0] == 'k' and b[0] == 'k':
            try:
                if isinstance(a[1], str) and isinstance(b[1], str):
                    return (a[1].rstrip() == b[1].rstrip()) if rel == '==' else a[1] < b[1]
                return a[1] == b[1] if rel == '==' else a[1] < b[1]
            except TypeError:
                return None
        if a == b and a[0] not in ('any', 'undef'):
            return rel == '=='
        if rel == '==' and a[0] == 't' and a[1] == '+' and b[0] == 'k':
            # positive increments of a value
            pass
        if rel == '<' and a == K(0) and b[0] == 't' and b[1] == 'len':
            if b[2][0] == NONEMPTY:
                return True
        if rel == '==' and {a[0], b[0]} == {'t', 'k'}:
            t, c = (a, b) if a[0] == 't' else (b, a)
            if t[1] == 'len' and c == K(0) and t[2][0] == NONEMPTY:
                return False
        if rel == '==' and NONEMPTY in (a, b) and K("") in (a, b):
            return False
        return None

    def split_present(self, expr, st, frame, line):
        name = expr[1]
        got = self.present(st, frame, name)
        if got is not None:
            return [(st, got)]
        return self.split(st, self.present_atom(frame, name))

    def status(self, name, args, st, frame, line):
        expr = args[0][1]
        out = []
        if expr[0] == '()' and self.is_call(expr, frame, st):
            vals = self.ev(expr, st, frame, line)
        elif name == 'allocated':
            for s, p in self.path(expr, st, frame, line):
                got = s.env.get(('alloc', p))
                if got is None:
                    out += self.split(s, ('alloc', p if self.rule.track_alloc(p) else ANY))
                else:
                    out.append((s, got))
            return out
        else:
            vals = [(s, self.pointer(s, p)) for s, p in self.path(expr, st, frame, line)]
        for s, v in vals:
            out += self.assoc(s, v, frame, line)
        return out

    def assoc(self, s, v, frame, line):
        if v[0] == 'null':
            return [(s, False)]
        if v[0] == 'ptr' and (not v[1] or v[1][-1] != '->'):
            return [(s, True)]
        return self.split(s, ('assoc', v))

    def is_call(self, expr, frame, st):
        base = expr[1]
        if base[0] == 'n':
            return base[1] in self.procs and base[1] not in frame.alias
        return base[0] == '%' and self.bound(base, frame, st) is not None

    # ------------------------------------------------------------ calls
    def method(self, base, args, st, frame, line):
        target = self.bound(base, frame, st)
        proc = self.procs.get(target)
        out = []
        d = self.decl_of(base[1], frame, st)
        for s, p in self.path(base[1], st, frame, line):
            s, p = self.follow(s, p, d, frame, line)
            out += self.call(s, frame, line, target, proc, base[1], p, args)
        return out

    def call(self, st, frame, line, name, proc, recv, rpath, args):
        got = self.rule.on_call(self, st, frame, line, name, proc, rpath, args)
        if got is not None:
            return got
        self.steps += 1
        actual = {}
        pos = 0
        if proc is None:
            cur = [(st, None)]
            out = []
            for s, _ in self.values([v for _, v in args if not self.plain(v, frame)], st, frame, line):
                out.append((s, ('any', 'call', name, line)))
            del cur
            return out
        names = list(proc.args)
        if recv is not None:
            actual[names[0]] = ('path', rpath)
            pos = 1
        for kw, e in args:
            if kw is None:
                if pos >= len(names):
                    raise AnalysisBroken("too many arguments for %s" % name)
                actual[names[pos]] = ('expr', e)
                pos += 1
            else:
                actual[kw] = ('expr', e)
        return self.enter(st, frame, line, proc, actual)

    def plain(self, e, frame):
        return e[0] == 'n' and e[1] not in self.consts

    def designator(self, e, frame, st):
        if e[0] == 'n':
            return self.decl(frame, e[1]) is not None and not self.decl(frame, e[1]).has('parameter') or e[1] in frame.alias
        if e[0] == '%':
            return self.designator(e[1], frame, st) and self.bound(e, frame, st) is None
        if e[0] == '()':
            return not self.is_call(e, frame, st) and self.designator(e[1], frame, st)
        return False

    def enter(self, st, frame, line, proc, actual):
        """[(state, result value)] of calling PROC."""
        bound = [(st, {}, {})]
        for name in proc.args:
            d = proc.decls.get(name)
            if name not in actual:
                for i, (s, alias, pres) in enumerate(bound):
                    bound[i] = (s, alias, dict(pres, **{name: False}))
                continue
            kind, e = actual[name]
            nxt = []
            for s, alias, pres in bound:
                if kind == 'path':
                    nxt.append((s, dict(alias, **{name: e}), dict(pres, **{name: True})))
                    continue
                if self.designator(e, frame, s):
                    here = True
                    if e[0] == 'n' and e[1] in frame.proc.args:
                        dd = frame.proc.decls.get(e[1])
                        if dd is not None and dd.has('optional'):
                            here = self.present(s, frame, e[1])
                            if here is None:
                                here = self.present_atom(frame, e[1])
                            if d is not None and not d.has('optional'):
                                self.need_present(s, frame, line, e[1])
                    if e[0] == 'n' and here is not True:
                        p = frame.alias.get(e[1], self.root(frame, e[1]))
                        if p[0] == 'expr':
                            p = self.path(p[1], s, frame, line)[0][1]
                        nxt.append((s, dict(alias, **{name: p}), dict(pres, **{name: here})))
                        continue
                    de = self.decl_of(e, frame, s)
                    for s2, p in self.path(e, s, frame, line):
                        if isinstance(de, F.Decl) and de.has('pointer') and not (d is not None and d.has('pointer')):
                            s2, p = self.follow(s2, p, de, frame, line)
                        if d is None or d.intent == 'in' or (d.intent is None and False):
                            if d is not None and d.base not in ('type', 'class') and not d.has('pointer') and not d.dims:
                                s2, _ = self.read(s2, p, frame, line)
                        nxt.append((s2, dict(alias, **{name: p}), dict(pres, **{name: here})))
                else:
                    for s2, v in self.ev(e, s, frame, line):
                        tmp = ('var', frame.name + "/%d" % line, name, 'tmp')
                        nxt.append((s2.put(tmp, v), dict(alias, **{name: tmp}), dict(pres, **{name: True})))
            bound = nxt
        out = []
        depth = frame.depth + 1
        recursive = any(f.proc is proc for f in frame.stack())
        if depth > self.rule.max_depth or recursive or not self.rule.inline(proc, frame):
            for s, alias, pres in bound:
                for name, p in alias.items():
                    d = proc.decls.get(name)
                    if d is not None and d.intent in ('out', 'inout', None) and p[-1] != 'tmp' and name != proc.args[0]:
                        s = self.store(s, p, ('any', 'call', proc.name, line), frame, line)
                out.append((s, ('any', 'call', proc.name, line)))
            return out
        self.visited.add(proc)
        for s, alias, pres in bound:
            fname = "%s/%d:%s" % (frame.name, line, proc.name)
            sub = Frame(proc, fname, alias, pres, depth, frame, line)
            for name in proc.args:
                d = proc.decls.get(name)
                if d is not None and d.intent == 'out' and name in alias and pres.get(name) is not False and not self.self_defining(d):
                    got = self.rule.on_store(self, s, sub, line, alias[name], UNDEF, s.env.get(alias[name]))
                    s = got.put(alias[name], UNDEF if self.rule.track(alias[name]) else ANY) if got is not None else s
            s = self.rule.on_enter(self, s, sub, frame, line)
            s = self.locals(s, sub)
            if proc.result:
                rd = proc.decls.get(proc.result)
                if rd is None or not rd.has('allocatable'):
                    s = s.put(self.root(sub, proc.result), UNDEF)
            ends = self.body(proc.body, [s], sub)
            for s2 in self.dedupe(ends['normal'] + ends['return']):
                val = ('any', 'none')
                if proc.result:
                    rpath = self.root(sub, proc.result)
                    rd = proc.decls.get(proc.result)
                    val = s2.env.get(rpath)
                    if val is None:
                        val = ('any', 'result', proc.name, line)
                    if rd is not None and rd.has('pointer'):
                        val = self.pointer(s2, rpath)
                    s2, val = self.rule.on_result(self, s2, sub, val)
                s3 = self.leave(s2, fname)
                known = s2.facts.get(('assoc', val))
                if known is not None:
                    s3 = s3.fact(('assoc', val), known)
                out.append((s3, val))
        return self.dedupe_vals(out)

    def dedupe_vals(self, pairs):
        groups = {}
        for s, v in pairs:
            groups.setdefault(v, []).append(s)
        return [(s, v) for v, states in groups.items() for s in self.dedupe(states)]

    def leave(self, st, fname):
        pre = fname + "/"

        def mine(p):
            if p[0] == 'alloc':
                p = p[1]
            if p[0] == 'type':
                return p[1] == fname or p[1].startswith(pre)
            return len(p) > 1 and p[0] == 'var' and (p[1] == fname or p[1].startswith(pre) or (len(p) > 3 and p[3] == 'tmp'))
        env = {p: v for p, v in st.env.items() if not mine(p)}
        facts = {a: v for a, v in st.facts.items() if not local_to(a, fname)}
        return St(env, facts, st.ts)

    # ------------------------------------------------------------ statements
    def body(self, stmts, states, frame):
        ends = {'normal': states, 'return': [], 'exit': [], 'cycle': []}
        for s in stmts:
            cur = ends['normal']
            if not cur:
                break
            nxt = []
            if s[0] == 'if':
                todo = [self.do_if(s, cur, frame)]
            elif s[0] == 'do':
                todo = [self.do_loop(s, cur, frame)]
            else:
                todo = (self.stmt(s, st, frame) for st in cur)
            for got in todo:
                nxt += got['normal']
                for k in ('return', 'exit', 'cycle'):
                    ends[k] += got.get(k, [])
            ends['normal'] = self.dedupe(nxt)
        return ends

    def stmt(self, s, st, frame):
        k, line = s[0], s[1]
        self.steps += 1
        if k == '=':
            return {'normal': self.assign(s, st, frame)}
        if k == '=>':
            return {'normal': self.point(s, st, frame)}
        if k == 'call':
            return {'normal': [x for x, _ in self.do_call(s, st, frame)]}
        if k == 'select':
            return self.do_select(s, st, frame)
        if k == 'assoc':
            old = dict(frame.alias)
            cur = [st]
            for name, e in s[2]:
                if self.designator(e, frame, st):
                    frame.alias[name] = ('expr', e)
            ends = self.body(s[3], cur, frame)
            frame.alias.clear()
            frame.alias.update(old)
            return ends
        if k == 'return':
            return {'normal': [], 'return': [st]}
        if k in ('exit', 'cycle'):
            return {'normal': [], k: [st]}
        if k == 'stop':
            self.rule.on_stop(self, st, frame, line)
            return {'normal': []}
        if k == 'nullify':
            cur = [st]
            for _, e in s[2]:
                cur = [self.store(x, p, NULL, frame, line) for y in cur for x, p in self.path(e, y, frame, line)]
            return {'normal': [x for x in cur if x is not None]}
        if k in ('allocate', 'deallocate'):
            return {'normal': self.do_alloc(s, st, frame)}
        if k == 'write':
            return {'normal': self.do_write(s, st, frame)}
        return {'normal': [st]}

    def assign(self, s, st, frame):
        _, line, lhs, rhs = s
        out = []
        d = self.decl_of(lhs, frame, st)
        # defined assignment of a derived type
        if isinstance(d, F.Decl) and d.base in ('type', 'class') and lhs[0] != '()':
            t = self.types.get(d.tname)
            names = t.generics.get("assignment(=)") if t is not None else None
            if names and self.designator(rhs, frame, st):
                proc = self.procs.get(self.binding(d.tname, names[0]))
                if proc is not None:
                    res = []
                    for s1, p in self.path(lhs, st, frame, line):
                        s1, p = self.follow(s1, p, d, frame, line)
                        res += self.enter(s1, frame, line, proc, {proc.args[0]: ('path', p), proc.args[1]: ('expr', rhs)})
                    return [x for x, _ in res]
        for s1, v in self.ev(rhs, st, frame, line):
            for s2, p in self.path(lhs, s1, frame, line, True):
                if isinstance(d, F.Decl) and d.has('pointer'):
                    if p[-1] == ('sub',) or isinstance(p[-1], tuple):
                        pass
                    else:
                        s2, p = self.follow(s2, p, d, frame, line)
                if isinstance(d, F.Decl) and d.has('allocatable') and lhs[0] != '()':
                    if self.rule.track_alloc(p):
                        s2 = s2.put(('alloc', p), True)
                got = self.store(s2, p, v, frame, line)
                if got is not None:
                    out.append(got)
        return out

    def point(self, s, st, frame):
        _, line, lhs, rhs = s
        vals = []
        if rhs[0] == '()' and rhs[1] == ('n', 'null'):
            vals = [(st, NULL)]
        elif rhs[0] == '()' and self.is_call(rhs, frame, st):
            vals = self.ev(rhs, st, frame, line)
            if not self.rule.null_results:
                vals = [(s1, ('ptr', (ANY, '->')) if v == NULL else v) for s1, v in vals]
        else:
            d = self.decl_of(rhs, frame, st)
            for s1, p in self.path(rhs, st, frame, line):
                if isinstance(d, F.Decl) and d.has('pointer'):
                    s1, v = self.rule.on_ref(self, s1, frame, line, p, self.pointer(s1, p)), self.pointer(s1, p)
                else:
                    self.rule.on_inquiry(self, s1, frame, line, '=>', p)
                    v = ('ptr', p)
                vals.append((s1, v))
        out = []
        for s1, v in vals:
            for s2, p in self.path(lhs, s1, frame, line, True):
                got = self.store(s2, p, v, frame, line)
                if got is not None:
                    out.append(got)
        return out

    def do_call(self, s, st, frame):
        _, line, target, args = s
        if target[0] == '%':
            if self.bound(target, frame, st) is not None:
                return self.method(target, args, st, frame, line)
            raise AnalysisBroken("%s: unknown binding %s" % (frame.proc.where(line), F.show(target)))
        name = target[1]
        proc = self.procs.get(name)
        return self.call(st, frame, line, name, proc, None, None, args)

    def do_if(self, s, cur, frame):
        ends = {'normal': [], 'return': [], 'exit': [], 'cycle': []}
        for cond, body in s[2]:
            yes, no = [], []
            for x in cur:
                for s2, t in self.truth(cond, x, frame, s[1]):
                    (yes if t else no).append(s2)
            yes, no = self.dedupe(yes), self.dedupe(no)
            if yes:
                got = self.body(body, yes, frame)
                for k in ends:
                    ends[k] += got[k]
            cur = no
        if cur:
            got = self.body(s[3], cur, frame)
            for k in ends:
                ends[k] += got[k]
        return ends

    def do_select(self, s, st, frame):
        _, line, kind, expr, name, arms = s
        ends = {'normal': [], 'return': [], 'exit': [], 'cycle': []}
        var = name or (expr[1] if expr[0] == 'n' else None)
        default = False
        vals = [(st, None)]
        if kind == 'case':
            vals = self.ev(expr, st, frame, line)
        for s0, v in vals:
            for guard, body in arms:
                cur = s0
                if guard is None:
                    default = True
                if kind == 'type':
                    if v is None and expr[0] == 'n':
                        atom = ('select', expr[1], guard)
                        cur = cur.fact(('seltype', frame.name, expr[1]), guard)
                        del atom
                    if guard and var:
                        cur = cur.put(('type', frame.name, var), guard)
                elif v[0] == 'k' and guard is not None:
                    try:
                        items = [self.ev(F.parse_expr(g), cur, frame, line)[0][1] for g in F.split_top(guard, ",")]
                    except AnalysisBroken:
                        items = None
                    if items is not None and all(i[0] == 'k' for i in items) and v not in items:
                        continue
                got = self.body(body, [cur], frame)
                for k in ends:
                    for x in got[k]:
                        if kind == 'type' and var and ('type', frame.name, var) in x.env:
                            env = dict(x.env)
                            del env[('type', frame.name, var)]
                            x = St(env, x.facts, x.ts)
                        ends[k].append(x)
            if not default:
                ends['normal'].append(s0)
        return ends

    def do_loop(self, s, entry, frame):
        _, line, head, body, label = s
        ends = {'normal': [], 'return': [], 'exit': [], 'cycle': []}
        cur = entry
        if head is not None and head[0] == 'var':
            cur = []
            got = set()
            for y in entry:
                for x, vals in self.values(head[2:], y, frame, line):
                    cur.append(x)
                    got.add(vals if len(vals) == 2 and ANY not in vals else None)
            bounds = got.pop() if len(got) == 1 else None
        first = {}
        for x in cur:
            for p, v in x.env.items():
                first.setdefault(p, set()).add(v)
        for p, vals in first.items():
            if any(p not in x.env for x in cur):
                vals.add(None)
        seen = {}
        rounds = 0
        changed = set()
        var = None
        if head is not None and head[0] == 'var':
            var = frame.alias.get(head[1], self.root(frame, head[1]))
        while cur:
            rounds += 1
            fresh = []
            for x in cur:
                k = (frozenset(x.env.items()), x.ts)
                old = seen.get(k)
                if old is not None:
                    facts = {a: v for a, v in old.facts.items() if x.facts.get(a) is v}
                    if len(facts) == len(old.facts):
                        continue
                    x = St(x.env, facts, x.ts)
                seen[k] = x
                fresh.append(x)
            if not fresh:
                break
            if rounds > 20:
                raise AnalysisBroken("%s: the loop does not converge" % frame.proc.where(line))
            start = []
            for x in fresh:
                if var is not None:
                    value = ('any', 'do', var, line)
                    ends['normal'].append(self.rule.on_loop(self, x, frame, line, value, bounds, 'end'))
                    x = self.rule.on_loop(self, x, frame, line, value, bounds, 'iter')
                    facts = {a: v for a, v in x.facts.items() if not mentions(a, ('any', 'do', var, line))}
                    if bounds is not None:
                        facts[('<', ('any', 'do', var, line), bounds[0])] = False
                        facts[('<', bounds[1], ('any', 'do', var, line))] = False
                    start.append(St(x.env, facts, x.ts).put(var, ('any', 'do', var, line)))
                elif head is not None:
                    for s2, t in self.truth(head[1], x, frame, line):
                        (start if t else ends['normal']).append(s2)
                else:
                    start.append(x)
            got = self.body(body, start, frame)
            ends['return'] += got['return']
            ends['normal'] += got['exit']
            back = self.dedupe(got['normal'] + got['cycle'])
            for x in back:
                for p, v in x.env.items():
                    if p[0] not in ('alloc', 'type') and v not in first.get(p, (None,)) and not self.rule.precise(p):
                        changed.add(p)
            cur = self.dedupe([self.widen(x, first, line, rounds, changed) for x in back])
        ends['normal'] = self.dedupe(ends['normal'])
        return ends

    def widen(self, st, start, line, rounds, changed):
        """Values that the loop changes become unknown (their sign of nonzero is kept)."""
        env, facts = dict(st.env), dict(st.facts)
        for p in changed:
            if p not in env and p[:2] in {q[:2] for q in st.env}:
                env[p] = ('init', p)
        for p, v in list(env.items()):
            if p[0] in ('alloc', 'type') or (v in start.get(p, (None,)) and p not in changed):
                continue
            if v == ANY:
                continue
            if v == NULL and p in changed:
                v = ('ptr', ('any',))
            if v == NULL or (v in (K(0), UNDEF, K(""), NONEMPTY, TRUE, FALSE) and self.rule.precise(p)):
                continue
            if v[0] == 'any' and v[1:2] != ('do',) and len(v) > 1 and v[1] == 'loop':
                continue
            new = ('any', 'loop', p, line)
            if v[0] == 'ptr':
                if rounds < 2 and v[1][-1] == '->':
                    pass
                env[p] = ('ptr', new + ('->',))
                facts = {a: t for a, t in facts.items() if not mentions(a, new + ('->',))}
                continue
            facts = {a: t for a, t in facts.items() if not mentions(a, new)}
            if v[0] == 'k' and isinstance(v[1], int) and not isinstance(v[1], bool) and v[1] != 0:
                if rounds < 2 and self.rule.precise(p):
                    continue
                facts[self.eq0(new)] = False
            elif facts.get(self.eq0(v)) is False:
                facts[self.eq0(new)] = False
            env[p] = new
        return St(env, facts, st.ts)

    def eq0(self, v):
        a, b = (v, K(0)) if repr(v) <= repr(K(0)) else (K(0), v)
        return ('==', a, b)

    def do_alloc(self, s, st, frame):
        kind, line, args = s
        objs = [e for kw, e in args if kw is None]
        opts = {kw: e for kw, e in args if kw is not None}
        cur = [st]
        for e in objs:
            nxt = []
            shape = ()
            target = e
            if e[0] == '()' and not (kind == 'deallocate'):
                target, shape = e[1], e[2]
            d = self.decl_of(target, frame, st)
            for x in cur:
                for x1, self.shape in self.values([v for _, v in shape], x, frame, line):
                    for s2, p in self.path(target, x1, frame, line):
                        s2 = self.rule.on_alloc(self, s2, frame, line, kind, p)
                        if isinstance(d, F.Decl) and d.has('pointer'):
                            s2 = self.store(s2, p, ('ptr', ('new', line, p)) if kind == 'allocate' else NULL, frame, line)
                        else:
                            s2 = self.store(s2, p, ('any', 'alloc', line), frame, line)
                            env = dict(s2.env)
                            if self.rule.track_alloc(p):
                                env[('alloc', p)] = kind == 'allocate'
                            s2 = St(env, s2.facts, s2.ts)
                        nxt.append(s2)
            cur = nxt
        if 'stat' in opts:
            nxt = []
            for x in cur:
                for s2, p in self.path(opts['stat'], x, frame, line, True):
                    ok = self.store(s2, p, K(0), frame, line)
                    bad = self.store(s2, p, ('any', 'stat', line), frame, line)
                    bad = bad.fact(self.eq0(('any', 'stat', line)), False)
                    env = dict(bad.env)
                    for e in objs:
                        target = e[1] if e[0] == '()' and kind == 'allocate' else e
                        for _, q in self.path(target, bad, frame, line):
                            if ('alloc', q) in env:
                                env[('alloc', q)] = kind != 'allocate'
                    bad = self.rule.on_fail(self, St(env, bad.facts, bad.ts), frame, line)
                    nxt += [ok, bad]
            cur = nxt
        return cur

    def do_write(self, s, st, frame):
        _, line, ctl, items = s
        out = []
        unit = ctl[0][1]
        for s1, vals in self.values([v for _, v in items], st, frame, line):
            d = self.decl_of(unit, frame, s1) if unit[0] in ('n', '%', '()') else None
            if isinstance(d, F.Decl) and d.base == 'character':
                val = NONEMPTY if any(nonblank(v) for v in vals) else ('any', 'write', line)
                for s2, p in self.path(unit, s1, frame, line, True):
                    got = self.store(s2, p, val, frame, line)
                    if got is not None:
                        out.append(got)
            else:
                out.append(s1)
        return out


def nonblank(v):
    return v == NONEMPTY or (v[0] == 'k' and isinstance(v[1], str) and v[1].strip() != "")


@functools.lru_cache(maxsize=500000)
def mentions(term, part):
    if term == part:
        return True
    return isinstance(term, tuple) and any(mentions(x, part) for x in term)


@functools.lru_cache(maxsize=500000)
def local_to(term, fname):
    """Does TERM mention a variable of frame FNAME?"""
    if isinstance(term, tuple):
        if len(term) > 1 and term[0] == 'var' and isinstance(term[1], str):
            return term[1] == fname or term[1].startswith(fname + "/") or (len(term) > 3 and term[3] == 'tmp')
        if len(term) > 1 and term[0] in ('present', 'seltype') and isinstance(term[1], str):
            return term[1] == fname or term[1].startswith(fname + "/")
        return any(local_to(x, fname) for x in term)
    return False
