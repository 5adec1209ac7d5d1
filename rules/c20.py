"""C20: operations on constituent properties cover every property and agree with each other."""
from sa import fortran as F
from sa.fabs import Interp, Rule, K, mentions
from sa.project import AnalysisBroken
from rules.c22 import sources, is_code, is_text

RULES = {
    "copy": "assignment sets every component of the target from the same component of the source",
    "deallocate": "deallocate frees every allocatable component and resets every other one to its declared default",
    "equivalent": "equivalent answers true only where every describing component was compared and is equal",
    "match": "is_match answers true only where the advected, thermo_active and water_species flags and the units are equal",
    "delegate": "an operation of the pointer type has, for an associated pointer, the results and effects of the same operation of the object",
    "set-get": "the value given to a setter is stored in the one component that the getter of that name returns",
    "instantiate": "a value given to instantiate is what the getter returns; an absent optional one leaves the default; failure leaves nothing",
    "kind": "the mixing ratio type and the kind of constituent that the is_* queries report follow the argument and the standard name",
}
# argument of instantiate -> query that returns it
QUERY = {"std_name": "standard_name", "long_name": "long_name", "units": "units", "vertical_dim": "vertical_dimension",
         "advected": "is_advected", "default_value": "default_value", "min_value": "minimum", "molar_mass": "molar_mass",
         "water_species": "is_water_species"}
# query -> texts in the standard name, the first that is found decides
NAMED = (("is_volume_mixing_ratio", "volume_mixing_ratio"), ("is_number_concentration", "number_concentration"),
         ("is_mass_mixing_ratio", None))
WATER = (("is_wet", "wrt_moist_air_and_condensed_water"), ("is_moist", "wrt_moist_air"), ("is_dry", None))


class Track(Rule):
    def track_alloc(self, path):
        return path[0] == 'var'

    def precise(self, path):
        return True


def find_type(mods, binding):
    """The types that have all of BINDING (type, ...)."""
    return [t for m in mods for t in m.types.values() if all(b in t.bindings for b in binding)]


def check(ctx, project):
    mods = sources(project.repo)
    for name, text in RULES.items():
        ctx.rule(name, text)
    objs = find_type(mods, ("instantiate", "equivalent", "deallocate"))
    ptrs = [t for t in find_type(mods, ("set", "set_const_index", "deallocate", "standard_name")) if "instantiate" not in t.bindings]
    if len(objs) != 1 or len(ptrs) != 1:
        raise AnalysisBroken("the constituent property types were not found")
    obj, ptr = objs[0], ptrs[0]
    lib = Lib(ctx, mods, obj)
    copies(lib, obj)
    deallocates(lib, obj)
    equivalents(lib, obj)
    matches(lib, obj)
    delegates(lib, obj, ptr)
    setters(lib, obj)
    instantiates(lib, obj)
    for p in lib.seen:
        ctx.saw(p.where())
    ctx.at_least("copy", 12)
    ctx.at_least("deallocate", 12)
    ctx.at_least("equivalent", 10)
    ctx.at_least("match", 4)
    ctx.at_least("delegate", 24)
    ctx.at_least("set-get", 5)
    ctx.at_least("instantiate", 9)
    ctx.at_least("kind", 6)


class Lib:
    def __init__(self, ctx, mods, obj):
        self.ctx, self.mods, self.obj = ctx, mods, obj
        self.procs = {n: p for m in mods for n, p in m.procs.items()}
        self.seen = set()
        self.memo = {}

    def proc(self, t, binding):
        p = self.procs.get(t.bindings.get(binding))
        if p is None:
            raise AnalysisBroken("no procedure for binding %s of %s" % (binding, t.name))
        return p

    def run(self, proc, setup=None):
        ip = Interp(self.mods, Track())
        frame, ends = ip.run(proc, setup=setup)
        self.seen |= ip.visited
        return ip, frame, ends

    def key_component(self):
        """The allocatable component that says whether an object is instantiated."""
        p = self.proc(self.obj, "is_instantiated")
        for s in F.walk_stmts(p.body):
            for e in F.exprs_of(s):
                for x in F.walk_expr(e):
                    if x[0] == '()' and x[1] == ('n', 'allocated') and x[2][0][1][0] == '%':
                        return x[2][0][1][2]
        raise AnalysisBroken("is_instantiated does not test a component")

    def good(self, proc, ptr=None):
        """Setup: the object (and all others of its type) are instantiated, error arguments are present."""
        key = self.key_component()

        def setup(ip, st, frame):
            for a in proc.args:
                d = proc.decls[a]
                if d.base in ('type', 'class'):
                    path = ip.root(frame, a)
                    if ptr is not None and d.tname == ptr[0]:
                        st = st.fact(('assoc', ('ptr', path + (ptr[1], '->'))), True)
                        path = path + (ptr[1], '->')
                    st = st.put(('alloc', path + (key,)), True)
                elif d.has('optional') and (is_code(d) or is_text(d)):
                    st = st.fact(('present', frame.name, a), True)
            return st
        return setup


def loc(proc, name):
    return ('var', proc.name, name)


def code_arg(proc):
    return next((a for a in proc.args if is_code(proc.decls[a])), None)


# ------------------------------------------------------------- copy etc.
def copies(lib, obj):
    names = obj.generics.get("assignment(=)")
    if not names:
        raise AnalysisBroken("type %s has no defined assignment" % obj.name)
    for b in names:
        proc = lib.proc(obj, b)
        ip, _, ends = lib.run(proc)
        dst, src = loc(proc, proc.args[0]), loc(proc, proc.args[1])
        for c in obj.comps:
            bad = [s.env.get(dst + (c,)) for s in ends if s.env.get(dst + (c,)) != ('init', src + (c,))]
            lib.ctx.check(not bad, "copy", "%s %s" % (proc.ident, c), "component %s of the copy is not that of the source" % c, proc.where())


def default_of(ip, frame, d, st):
    return ip.ev(F.parse_expr(d.init[1]), st, frame, d.line)[0][1]


def freed(ip, lib, proc, frame, st, base, comp):
    d = lib.obj.comps[comp]
    path = base + (comp,)
    if d.has('allocatable'):
        got = st.env.get(('alloc', path))
        return (got if got is not None else st.facts.get(('alloc', path))) is False
    if not d.init:
        return True
    return st.env.get(path) == default_of(ip, frame, d, st)


def deallocates(lib, obj):
    proc = lib.proc(obj, "deallocate")
    ip, frame, ends = lib.run(proc)
    for c in obj.comps:
        okay = all(freed(ip, lib, proc, frame, s, loc(proc, proc.args[0]), c) for s in ends)
        lib.ctx.check(okay, "deallocate", "%s %s" % (proc.ident, c), "component %s keeps its value when the object is deallocated" % c, proc.where())


def result_of(ip, proc, st):
    """Value of the result or of the last output that is not an error argument."""
    if proc.result:
        return st.env.get(loc(proc, proc.result))
    outs = [a for a in proc.args if proc.decls[a].intent == 'out' and not is_code(proc.decls[a]) and not is_text(proc.decls[a])]
    return st.env.get(loc(proc, outs[0])) if outs else None


def equal_fact(ip, st, a, b):
    x, y = (a, b) if repr(a) <= repr(b) else (b, a)
    if st.facts.get(('==', x, y)) is True:
        return True
    t = [st.facts.get(('truth', v)) for v in (a, b)]
    return None not in t and t[0] == t[1]


def yes(ip, proc, st):
    v = result_of(ip, proc, st)
    return v is None or v == K(True) or v[0] != 'k'


def assigned_index(lib, obj):
    """Components that say where the object is stored (set after it was defined), and those that follow from the standard name."""
    out = set()
    proc = lib.proc(obj, "set_const_index")
    ip, _, ends = lib.run(proc, lib.good(proc))
    for s in ends:
        for p, v in s.env.items():
            if p[:3] == loc(proc, proc.args[0]) and len(p) == 4:
                out.add(p[3])
    return out


def equivalents(lib, obj):
    proc = lib.proc(obj, "equivalent")
    ip, _, ends = lib.run(proc, lib.good(proc))
    one, two = [loc(proc, a) for a in proc.args[:2]]
    good = [s for s in ends if yes(ip, proc, s)]
    if not good:
        lib.ctx.bad("equivalent", proc.ident, "the answer is never true", proc.where())
    skip = assigned_index(lib, obj) | {kind_component(lib, obj, "is_mass_mixing_ratio")[0]}
    for c in obj.comps:
        if c in skip:
            continue
        bad = [s for s in good if not equal_fact(ip, s, ('init', one + (c,)), ('init', two + (c,)))]
        lib.ctx.check(not bad, "equivalent", "%s %s" % (proc.ident, c), "answers true although component %s may differ" % c, proc.where())
    # an object is equivalent to itself
    no = [s for s in ends if not yes(ip, proc, s) and not any(v is False and a[0] == '==' for a, v in s.facts.items())]
    lib.ctx.count("negative outcomes without a recorded difference (merged)", len(no))


def matches(lib, obj):
    proc = lib.proc(obj, "is_match")
    ip, _, ends = lib.run(proc, lib.good(proc))
    one, two = [loc(proc, a) for a in proc.args[:2]]
    good = [s for s in ends if yes(ip, proc, s)]
    for q in ("is_advected", "is_thermo_active", "is_water_species", "units"):
        c = getter_component(lib, obj, q)
        bad = [s for s in good if not equal_fact(ip, s, ('init', one + (c,)), ('init', two + (c,)))]
        lib.ctx.check(not bad, "match", "%s %s" % (proc.ident, q), "answers true although %s may differ" % q, proc.where())


# ------------------------------------------------------------- queries
def getter_component(lib, obj, query):
    """The component whose value QUERY returns for an instantiated object."""
    if ('get', query) in lib.memo:
        return lib.memo[('get', query)]
    proc = lib.proc(obj, query)
    ip, _, ends = lib.run(proc, lib.good(proc))
    got = {result_of(ip, proc, s) for s in ends}
    comp = None
    if len(got) == 1:
        v = got.pop()
        if v is not None and v[0] == 'init' and v[1][:3] == loc(proc, proc.args[0]) and len(v[1]) == 4:
            comp = v[1][3]
    lib.memo[('get', query)] = comp
    return comp


def kind_component(lib, obj, query):
    """(component, constant) of a query that compares a component with a constant."""
    if ('kind', query) in lib.memo:
        return lib.memo[('kind', query)]
    proc = lib.proc(obj, query)
    ip, _, ends = lib.run(proc, lib.good(proc))
    found = set()
    base = loc(proc, proc.args[0])
    for s in ends:
        v = result_of(ip, proc, s)
        for atom, val in s.facts.items():
            if atom[0] != '==' or v is None or v[0] != 'k':
                continue
            for a, b in ((atom[1], atom[2]), (atom[2], atom[1])):
                if a[0] == 'init' and a[1][:3] == base and len(a[1]) == 4 and b[0] == 'k':
                    found.add((a[1][3], b[1], v[1] is val))
    res = (None, None)
    if len(found) == 1:
        c, k, same = found.pop()
        if same:
            res = (c, k)
    lib.memo[('kind', query)] = res
    return res


def setters(lib, obj):
    for b in sorted(obj.bindings):
        if not b.startswith("set_"):
            continue
        queries = [q for q in (b[4:], "is_" + b[4:]) if q in obj.bindings]
        proc = lib.proc(obj, b)
        if not queries:
            continue
        ip, _, ends = lib.run(proc, lib.good(proc))
        base, arg = loc(proc, proc.args[0]), loc(proc, proc.args[1])
        comp = getter_component(lib, obj, queries[0])
        code = code_arg(proc)
        okay = [s for s in ends if code is None or s.env.get(loc(proc, code)) == K(0)]
        bad = not okay or comp is None
        for s in okay:
            stored = {p[3]: v for p, v in s.env.items() if p[:3] == base and len(p) == 4}
            if stored != {comp: ('init', arg)}:
                bad = True
        for s in ends:
            if s not in okay and any(p[:3] == base and len(p) == 4 for p in s.env):
                bad = True
        lib.ctx.check(not bad, "set-get", "%s %s" % (proc.ident, queries[0]),
                      "%s does not store its argument, and only that, where %s (%s) reads it" % (b, queries[0], comp), proc.where())


# ------------------------------------------------------------- pointers
def delegates(lib, obj, ptr):
    comps = [c.name for c in ptr.comps.values() if c.has('pointer') and c.tname == obj.name]
    if len(comps) != 1:
        raise AnalysisBroken("type %s does not have one pointer to %s" % (ptr.name, obj.name))
    for b in sorted(ptr.bindings):
        if b not in obj.bindings or b == "deallocate":
            continue
        mine, theirs = lib.proc(ptr, b), lib.proc(obj, b)
        one = outcomes(lib, mine, (ptr.name, comps[0]))
        two = outcomes(lib, theirs, None)
        bad = None
        if one != two:
            for f1, r1 in one:
                for f2, r2 in two:
                    if r1 != r2 and not any((a, not v) in f2 for a, v in f1):
                        bad = (r1, r2)
        lib.ctx.check(bad is None, "delegate", "%s %s" % (mine.ident, b),
                      "%s of an associated pointer differs from %s of the object" % (b, theirs.name), mine.where())
    # deallocate: the object is deallocated and the pointer does not keep pointing at it
    proc = lib.proc(ptr, "deallocate")
    ip, frame, ends = lib.run(proc)
    path = loc(proc, proc.args[0]) + (comps[0],)
    bad = [s for s in ends if not (s.env.get(path, ('init',))[0] == 'null' or s.facts.get(('assoc', ('ptr', path + ('->',)))) is False)]
    lib.ctx.check(not bad, "delegate", "%s deallocate" % proc.ident, "the pointer stays associated after deallocate", proc.where())


def outcomes(lib, proc, ptr):
    """{(facts, (outputs, effects, failed?))} for an instantiated object, in terms of 'this' and argument positions."""
    ip, frame, ends = lib.run(proc, lib.good(proc, ptr))
    ren = [(loc(proc, proc.args[0]) + ((ptr[1], '->') if ptr else ()), ('this',))]
    num = 0
    code = code_arg(proc)
    outs = []
    for a in proc.args[1:]:
        d = proc.decls[a]
        if is_code(d) or is_text(d):
            continue
        if d.intent == 'out':
            outs.append(loc(proc, a))
        else:
            ren.append((loc(proc, a), ('arg', num)))
            num += 1
    if proc.result:
        outs.append(loc(proc, proc.result))
    res = set()
    for s in ends:
        vals = tuple(rename(s.env.get(p, ('init', p)), ren) for p in outs)
        base = ren[0][0]
        eff = frozenset((p[len(base):], rename(v, ren)) for p, v in s.env.items()
                        if p[0] == 'var' and p[:len(base)] == base and len(p) > len(base))
        failed = code is not None and s.env.get(loc(proc, code)) != K(0)
        facts = set()
        for a, v in s.facts.items():
            r = rename(a, ren)
            if r != a and a[0] not in ('assoc', 'alloc', 'present'):
                if r[0] == '==' and repr(r[2]) < repr(r[1]):
                    r = ('==', r[2], r[1])
                facts.add((r, v))
        res.add((frozenset(facts), (vals, eff, failed)))
    return res


def rename(term, ren):
    if isinstance(term, tuple):
        for old, new in ren:
            if term[:len(old)] == old:
                return new + tuple(rename(x, ren) for x in term[len(old):])
        return tuple(rename(x, ren) for x in term)
    return term


# ------------------------------------------------------------- instantiate
def fresh(lib, proc, given=None):
    def setup(ip, st, frame):
        base = ip.root(frame, proc.args[0])
        for c, d in lib.obj.comps.items():
            if d.has('allocatable'):
                st = st.put(('alloc', base + (c,)), False)
            elif d.init:
                st = st.put(base + (c,), default_of(ip, frame, d, st))
        if given is not None:
            st = st.fact(('present', frame.name, "mixing_ratio_type"), given)
        return st
    return setup


def instantiates(lib, obj):
    proc = lib.proc(obj, "instantiate")
    ip, frame, ends = lib.run(proc, fresh(lib, proc))
    base = loc(proc, proc.args[0])
    code = loc(proc, code_arg(proc))
    okay = [s for s in ends if s.env.get(code) == K(0)]
    fail = [s for s in ends if s.env.get(code) != K(0)]
    ctx = lib.ctx
    ctx.count("outcomes of instantiate", len(ends))
    if not okay:
        ctx.bad("instantiate", proc.ident, "instantiate never succeeds", proc.where())
    for arg, query in QUERY.items():
        if arg not in proc.args or query not in obj.bindings:
            raise AnalysisBroken("instantiate has no argument %s, or there is no query %s" % (arg, query))
        comp = getter_component(lib, obj, query)
        given = ('init', loc(proc, arg))
        bad = comp is None
        for s in okay if comp else ():
            d = obj.comps[comp]
            val = s.env.get(base + (comp,))
            here = ip.present(s, frame, arg)
            dflt = default_of(ip, frame, d, s) if d.init else None
            if val != given and (here is True or val != dflt):
                bad = True
            if val == given and here is False:
                bad = True
        if not any(s.env.get(base + (comp,)) == given for s in okay):
            bad = True
        ctx.check(not bad, "instantiate", "%s %s" % (proc.ident, arg), "argument %s is not what %s returns afterwards" % (arg, query), proc.where())
    left = [c for c in obj.comps if not all(freed(ip, lib, proc, frame, s, base, c) for s in fail)]
    ctx.check(not left, "instantiate", "%s failure" % proc.ident, "a failed instantiate leaves %s set" % ", ".join(left), proc.where())
    kinds(lib, obj, proc, code, base)


def kinds(lib, obj, proc, code, base):
    ctx = lib.ctx
    name = ('init', loc(proc, "std_name"))
    ratio = ('init', loc(proc, "mixing_ratio_type"))
    for group, arg in ((NAMED, None), (WATER, True), (WATER, False)):
        _, _, ends = lib.run(proc, fresh(lib, proc, arg))
        okay = [s for s in ends if s.env.get(code) == K(0)]
        table = []
        for query, text in group:
            comp, const = kind_component(lib, obj, query)
            table.append((query, text, comp, const))
        for query, text, comp, const in table:
            if comp is None:
                ctx.bad("kind", "%s %s" % (proc.ident, query), "%s does not compare one component with its constant" % query, proc.where())
                continue
            bad = len({t[2] for t in table}) != 1 or len([t for t in table if t[3] == const]) != 1
            hit = False
            for s in okay:
                val = s.env.get(base + (comp,))
                want = decide(table, s, name, ratio, arg)
                if want is None:
                    continue        # a merged state says nothing
                if want == query:
                    hit = True
                if (val == K(const)) != (want == query):
                    bad = True
            ctx.check(hit and not bad, "kind", "%s %s%s" % (proc.ident, query, " given" if arg else ""),
                      "%s does not follow from the %s" % (query, "mixing ratio type" if arg else "standard name"), proc.where())


def decide(table, st, name, ratio, arg):
    """The query that must be true in ST."""
    if arg:
        for query, _, _, _ in table:
            if st.facts.get(order('==', ratio, K(query[3:]))) is True:
                return query
        return None
    for query, text, _, _ in table:
        if text is None:
            return query
        found = None
        for a, v in st.facts.items():
            if mentions(a, ('t', 'index', (name, K(text)))):
                found = v if a[0] == '<' and a[1] == K(0) else (not v) if a[0] == '==' else None
        if found is None:
            return None
        if found:
            return query
    return None


def order(op, a, b):
    return (op, a, b) if repr(a) <= repr(b) else (op, b, a)
