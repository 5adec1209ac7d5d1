"""C07: ccpp_capgen connects a variable only to one of the same type and kind, in convertible units."""
import ast

from sa.absint import (Interp, Rule, K, TRUE, FALSE, NONE, fragment, show, show_atom, mentions, partial)
from sa.project import AnalysisBroken

OBJ = "VarCompatObj"
HELPERS = ("_get_kind_convstrs", "_get_unit_convstrs", "_get_dim_transforms", "char_kind_check")


def P(name):
    return ('param', name)


def is_call(val, short):
    return isinstance(val, tuple) and val and val[0] == 'call' and val[1].split(".")[-1] == short


def heads(val, short):
    """Calls of SHORT inside VAL."""
    if not isinstance(val, (tuple, frozenset)):
        return []
    out = [val] if is_call(val, short) else []
    for x in val:
        if isinstance(x, (tuple, frozenset)):
            out += heads(x, short)
    return out


class Verdict(Rule):
    max_states = 200000

    def inline(self, fi, depth):
        return fi.module.name == "var_props" and fi.name not in HELPERS and not fi.name.startswith(
            ("find_", "is_horizontal", "is_vertical"))


def attr(st, name):
    """Value of the (possibly private) attribute NAME of self."""
    for (base, key), val in st.heap.items():
        if base == P('self') and (key == name or key == "_%s__%s" % (OBJ, name)):
            return val
    return None


def known(st, atom):
    return st.preds.get(atom)


def eq_fact(st, one, two):
    """Is ONE == TWO established (True), refuted (False) or open (None)?"""
    if one == two:
        return True
    for atom in (('eq', one, two), ('eq', two, one)):
        if atom in st.preds:
            return st.preds[atom]
    return None


def truth(st, val):
    got = st.preds.get(('truth', val))
    if got is None and val[0] == 'k':
        got = bool(val[2])
    return got


def empty(st, val):
    return truth(st, val) is False or eq_fact(st, val, ('l', (), 'list')) is True


def starts(st, val, what):
    return any(v is True and a[0] == 'truth' and is_call(a[1], 'startswith') and a[1][2] == val
               and a[1][3] and a[1][3][0] == K(what) for a, v in st.preds.items())


def unit_forms(st, name):
    """Spellings of the units NAME valid in this state."""
    out = [P(name)]
    for a, v in st.preds.items():
        if v is True and a[0] == 'eq' and K('none') in a[1:] and any(
                x[0] == 'call' and x[1] == 'lower' and x[2] == P(name) for x in a[1:] if isinstance(x, tuple)):
            out.append(K('none'))
    return out


def judge(ip, st):
    """Facts missing from an accepting state of VarCompatObj.__init__."""
    missing = []
    tend = truth(st, P('is_tend')) is True
    std = eq_fact(st, P('var1_stdname'), P('var2_stdname')) is True
    if not std and not (tend and any(
            a[0] == 'truth' and v is True and is_call(a[1], 'startswith') and a[1][2] == P('var1_stdname')
            for a, v in st.preds.items())):
        missing.append("standard name")
    if eq_fact(st, P('var1_type'), P('var2_type')) is not True:
        missing.append("type")
    # kind
    ktr = attr(st, 'kind_transforms')
    okay = eq_fact(st, P('var1_kind'), P('var2_kind')) is True
    if not okay and ktr is not None and is_call(ktr, '_get_kind_convstrs'):
        okay = list(ktr[3][:2]) == [P('var1_kind'), P('var2_kind')] and any(
            eq_fact(st, P(v), K('character')) is False for v in ('var1_type', 'var2_type'))
    if not okay:
        calls = {}
        for a in st.preds:
            for c in heads(a, 'char_kind_check'):
                if c[3] and c[3][0] in (P('var1_kind'), P('var2_kind')):
                    calls[c[3][0][1]] = c
        one, two = calls.get('var1_kind'), calls.get('var2_kind')
        if one is not None and two is not None and all(truth(st, x) is True or any(
                eq_fact(st, x, K('len=*')) is True for _ in (1,)) for x in (one, two)):
            okay = eq_fact(st, one, two) is True
            for x, y in ((one, two), (two, one)):
                if eq_fact(st, x, K('len=*')) is True and (truth(st, y) is True or starts(st, y, 'len=')):
                    okay = True
    if not okay:
        missing.append("kind")
    # units
    utr = attr(st, 'unit_transforms')
    ones, twos = unit_forms(st, 'var1_units'), unit_forms(st, 'var2_units')
    okay = any(eq_fact(st, x, y) is True for x in ones for y in twos)
    if not okay and utr is not None and is_call(utr, '_get_unit_convstrs'):
        okay = len(utr[3]) >= 2 and utr[3][0] in ones and utr[3][1] in twos
    if not okay and tend:
        okay = any(v is True and a[0] == 'eq' and any(x in twos for x in a[1:]) and any(
            mentions(x, y) and mentions(x, K('s-1')) for x in a[1:] for y in ones) for a, v in st.preds.items())
    if not okay:
        missing.append("units")
    # dimensions
    dtr = attr(st, 'dim_transforms')
    okay = eq_fact(st, P('var1_dims'), P('var2_dims')) is True or (
        empty(st, P('var1_dims')) and empty(st, P('var2_dims')))
    if not okay and dtr is not None and is_call(dtr, '_get_dim_transforms'):
        okay = list(dtr[3][:2]) == [P('var1_dims'), P('var2_dims')] and (
            known(st, ('isnone', dtr)) is False or truth(st, dtr) is True)
    if not okay:
        missing.append("dimensions")
    # orientation
    if eq_fact(st, P('var1_top'), P('var2_top')) is not True and attr(st, 'has_vert_transforms') != TRUE:
        missing.append("vertical orientation")
    return missing


def null(st, val):
    """Does VAL hold no transform?"""
    return val is None or val == NONE or known(st, ('isnone', val)) is True


def check_verdict(ctx, project, cls):
    fi = cls.methods.get('__init__')
    need = ['var%d_%s' % (i, x) for i in (1, 2) for x in ('stdname', 'type', 'kind', 'units', 'dims', 'top')]
    if fi is None or not set(need) <= set(fi.params):
        raise AnalysisBroken("VarCompatObj.__init__ does not take the properties of two variables")
    ip = Interp(project, Verdict())
    ex = ip.run(fi)
    for ident in ip.visited:
        ctx.saw(ident)
    facts = ("standard name", "type", "kind", "units", "dimensions", "vertical orientation")
    bad = {f: None for f in facts}
    bad_eq = bad_reason = None
    accepted = rejected = equiv = 0
    for st, _, _ in ex.ret:
        comp, equ, reason = attr(st, 'compat'), attr(st, 'equiv'), attr(st, 'incompat_reason')
        if comp is None or equ is None or reason is None:
            raise AnalysisBroken("VarCompatObj.__init__ does not set a verdict")
        yes, no = ip.split(comp, st)
        for s in yes:
            accepted += 1
            for f in judge(ip, s):
                bad[f] = bad[f] or s
            good, _ = ip.split(equ, s)
            for t in good:
                equiv += 1
                same_units = any(eq_fact(t, x, y) is True for x in unit_forms(t, 'var1_units')
                                 for y in unit_forms(t, 'var2_units')) or truth(t, P('is_tend')) is True
                if not null(t, attr(t, 'kind_transforms')) or not null(t, attr(t, 'unit_transforms')) \
                        or not same_units or eq_fact(t, P('var1_top'), P('var2_top')) is not True:
                    bad_eq = bad_eq or t
        for s in no:
            rejected += 1
            if reason[0] == 'k' and not reason[2]:
                bad_reason = bad_reason or s
            for t in ip.split(equ, s)[0]:
                # differing dimensions are left to _get_dim_transforms
                if not heads(comp, '_get_dim_transforms'):
                    bad_eq = bad_eq or t
    if not accepted or not rejected or not equiv:
        raise AnalysisBroken("VarCompatObj.__init__ has no accepting or no rejecting path")
    ctx.count("accepting paths", accepted)
    ctx.count("rejecting paths", rejected)

    def path(st):
        return "; ".join("%s is %s" % (show_atom(a)[:60], v) for a, v in list(st.preds.items())[:12])
    for f in facts:
        ctx.check(bad[f] is None, "verdict", f, "two variables are called compatible although their %s was not "
                  "found equal or convertible (%s)" % (f, path(bad[f]) if bad[f] else ""), fi.where())
    ctx.check(bad_eq is None, "equiv", "equivalent only without transformation", "two variables are called equivalent "
              "although passing one for the other needs a transformation (%s)" % (path(bad_eq) if bad_eq else ""), fi.where())
    ctx.check(bad_reason is None, "reason", "incompatible variables", "two variables are found incompatible, but no "
              "reason is given (%s)" % (path(bad_reason) if bad_reason else ""), fi.where())


class Helper(Rule):
    max_states = 20000
    skip = ()

    def inline(self, fi, depth):
        return fi.module.name in ("var_props",) and fi.name not in self.skip and not fi.name.startswith(
            ("find_", "context_string"))


def check_props(ctx, cls):
    """The public properties give the attributes the verdict set."""
    for prop in ('compat', 'equiv', 'incompat_reason'):
        fi = cls.methods.get(prop)
        if fi is None:
            continue
        rets = [n.value for n in ast.walk(fi.node) if isinstance(n, ast.Return)]
        ok = len(rets) == 1 and isinstance(rets[0], ast.Attribute) and rets[0].attr.lstrip('_') == prop
        ctx.check(ok, "public", prop, "%s does not give the verdict of the comparison" % prop, fi.where())


def check_kind(ctx, project, cls):
    fi = cls.methods.get('_get_kind_convstrs')
    if fi is None:
        raise AnalysisBroken("_get_kind_convstrs not found")
    ip = Interp(project, Helper())
    ex = ip.run(fi)
    ctx.saw(fi)
    good, swapped, n = True, True, 0
    one, two = P(fi.params[1]), P(fi.params[2])

    def about(val, kind):
        other = two if kind == one else one
        return val == kind or (mentions(val, kind) and not mentions(val, other))
    for st, val, _ in ex.ret:
        n += 1
        if val == NONE:
            same = any(v is True and a[0] == 'eq' and ((about(a[1], one) and about(a[2], two)) or
                                                       (about(a[1], two) and about(a[2], one)))
                       for a, v in st.preds.items())
            good = good and same
        else:
            swapped = swapped and val[0] == 'l' and tuple(val[1]) == (one, two)
    if not n:
        raise AnalysisBroken("_get_kind_convstrs returns nothing")
    ctx.check(good, "kind", "no transform only for the same kind", "no kind conversion is made although the two kinds were "
              "not found to be the same", fi.where())
    ctx.check(swapped, "kind", "transform names both kinds", "the kind conversion does not consist of the kind of the first "
              "and that of the second variable", fi.where())


def check_char(ctx, project, cls):
    fi = cls.methods.get('char_kind_check')
    if fi is None:
        raise AnalysisBroken("char_kind_check not found")
    ip = Interp(project, Helper())
    ex = ip.run(fi)
    ctx.saw(fi)
    arg = P(fi.params[-1])
    ok = True
    n = 0
    for st, val, _ in ex.ret:
        yes, _ = ip.split(val, st)
        for s in yes:
            n += 1
            ok = ok and mentions(val, arg)
    if not n:
        raise AnalysisBroken("char_kind_check accepts nothing")
    ctx.check(ok, "char", "length kept", "the standard form of a character kind does not tell lengths apart, so that "
              "all lengths compare equal", fi.where())


def perm_free(val, arg, other):
    """Is VAL an order-free but complete rendering of the dimensions ARG?"""
    return is_call(val, 'sorted') and mentions(val, arg) and not mentions(val, other) or \
        is_call(val, 'Counter') and mentions(val, arg) and not mentions(val, other)


def check_dims(ctx, project, cls):
    fi = cls.methods.get('_get_dim_transforms')
    reg = [m for n, m in cls.methods.items() if n.endswith('regularize_dimensions')]
    if fi is None or not reg:
        raise AnalysisBroken("_get_dim_transforms not found")
    reg = reg[0]

    class Dims(Helper):
        merge = True
        keep_none = True
        liveness = False
        skip = (reg.name, 'is_horizontal_dimension', 'is_vertical_dimension')
    one, two = P(fi.params[1]), P(fi.params[2])

    class Perm(Dims):
        def on_call(self, ip, st, node, name, target, recv, args, kwargs):
            if name in ('sorted', 'Counter', 'collections.Counter') and args:
                return [(st, ('call', name.split(".")[-1], None, (args[0],)))]
            return None

        def on_assume(self, ip, st, atom, val):
            if atom[0] == 'eq' and val and any(
                    perm_free(x, one, two) and perm_free(y, two, one) or
                    (is_call(x, reg.name) and is_call(y, reg.name) and mentions(x, one) and mentions(y, two))
                    for x, y in ((atom[1], atom[2]), (atom[2], atom[1]))):
                return st.with_ts(st.ts | {'perm'})
            return st
    ip = Interp(project, Perm())
    ex = ip.run(fi, ts=frozenset())
    ctx.saw(fi)
    good = True
    n = 0
    for st, val, _ in ex.ret:
        if val != NONE:
            n += 1
            good = good and 'perm' in st.ts
    if not n:
        raise AnalysisBroken("_get_dim_transforms never succeeds")
    ctx.check(good, "dims", "permutation", "a dimension transform is returned although the dimensions of one variable were "
              "not found to be a permutation of those of the other", fi.where())
    # standard form of one dimension
    ctx.saw(reg)
    seen = []

    class Reg(Helper):
        skip = ('is_horizontal_dimension',)

        def on_call(self, ip, st, node, name, target, recv, args, kwargs):
            if name.split(".")[-1] == 'append' and args:
                seen.append((st, args[-1]))
            return None
    ex = Interp(project, Reg()).run(reg)
    if not seen:
        for st, val, _ in ex.ret:
            if val[0] == 'l':
                seen += [(st, e[1] if e[0] == 'many' else e) for e in val[1]]
    ok = bool(seen)
    dim = ('elem', P(reg.params[-1]))
    for st, val in seen:
        horiz = any(v is True and a[0] == 'truth' and is_call(a[1], 'is_horizontal_dimension') for a, v in st.preds.items())
        whole = val == dim or (val[0] == 's' and dim in val[1])
        if not whole and not horiz:
            ok = False
        if whole and val != dim and not any(v is False and a == ('in', K(':'), dim) for a, v in st.preds.items()):
            # a lower bound is only added where there is none
            ok = False
    ctx.check(ok, "dims", "standard form", "a dimension that is not horizontal loses its name when dimensions are compared",
              reg.where())


# ----------------------------------------------------------------- users
WRAPPERS = set()


def compat_calls(node):
    """Calls that give the verdict of a comparison."""
    out = []
    for n in ast.walk(node):
        if isinstance(n, ast.Call):
            short = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, 'id', '')
            if (short == 'compatible' and isinstance(n.func, ast.Attribute)) or short in WRAPPERS:
                out.append(n)
    return out


def find_wrappers(project):
    """Helpers that only pass on the verdict of a comparison they make."""
    WRAPPERS.clear()
    for fi in project.all_funcs():
        if fi.module.name not in USERS or not compat_calls(fi.node):
            continue
        names = {t.id for n in ast.walk(fi.node) if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call)
                 and n.value in compat_calls(n) for t in n.targets if isinstance(t, ast.Name)}
        for n in ast.walk(fi.node):
            if isinstance(n, ast.Return) and (n.value in compat_calls(n) or (
                    isinstance(n.value, ast.Name) and n.value.id in names)):
                WRAPPERS.add(fi.name)
    WRAPPERS.discard('compatible')


USERS = ("metavar", "suite_objects", "host_cap", "ccpp_suite", "ddt_library", "constituents", "ccpp_capgen", "state_machine")


class Honour(Rule):
    """A path that goes on after a comparison has established its verdict."""
    merge = True
    keep_none = True
    merge_over = 1
    text = False
    max_depth = 3

    def __init__(self, fi):
        self.fi = fi
        self.asked = 0
        self.bad = []
        self.where = {}

    def inline(self, fi, depth):
        return fi.module.name == self.fi.module.name and fi.cls is self.fi.cls and bool(compat_calls(fi.node))

    def on_call(self, ip, st, node, name, target, recv, args, kwargs):
        if node in compat_calls(node):
            self.asked += 1
            self.where[node.lineno] = node
            val = ('verdict', node.lineno)
            ts = frozenset(x for x in st.ts if x[1] != node.lineno) | {('open', node.lineno)}
            preds = {a: v for a, v in st.preds.items() if not mentions(a, val)}
            new = st.with_ts(ts).copy()
            new.preds = preds
            return [(new, val)]
        return None

    def on_assume(self, ip, st, atom, val):
        ts = set(st.ts)
        for kind, line in list(ts):
            verd = ('verdict', line)
            if kind != 'open' or not any(mentions(x, verd) for x in atom[1:]):
                continue
            if atom[0] == 'truth' and val and (atom[1] == verd or (
                    atom[1][0] == 'attr' and atom[1][1] == verd and atom[1][2] in ('compat', 'equiv'))):
                ts = {x for x in ts if x[1] != line}
            elif atom[0] == 'eq' and val and K('dimensions') in atom[1:] and any(
                    x[0] == 'attr' and x[2] == 'incompat_reason' for x in atom[1:]):
                # ranks and dimensions are matched by match_dimensions
                ts = {x for x in ts if x[1] != line}
            elif atom[0] == 'truth' and not val and atom[1][0] == 'attr' and atom[1][2] == 'incompat_reason':
                ts = {x for x in ts if x[1] != line}
        return st.with_ts(frozenset(ts))

    def pending(self, st, node):
        for kind, line in st.ts:
            if kind == 'open':
                self.bad.append((line, node))

    def iter_end(self, ip, st, node):
        self.pending(st, node)
        return st.with_ts(frozenset())


def check_users(ctx, project):
    used = []
    find_wrappers(project)
    for fi in project.all_funcs():
        mod = fi.module.name
        own = compat_calls(fi.node)
        if not own or mod not in USERS or fi.name in WRAPPERS:
            continue
        used.append(fi)
    total = 0
    for fi in used:
        rule = Honour(fi)
        frag, env = fragment(fi, lambda n: isinstance(n, ast.Call) and n in compat_calls(fi.node))
        # the statement list around the comparison, not only the statement
        ip = Interp(project, rule)
        ex = ip.run(frag, env, ts=frozenset())
        ctx.saw(fi)
        for st, val, node in ex.ret:
            rule.pending(st, node)
        bad = {line for line, _ in rule.bad}
        calls = sorted(n.lineno for n in compat_calls(fi.node))
        total += len(calls)
        for i, line in enumerate(calls):
            ctx.check(line not in bad, "honoured", "%s:%d" % (fi.ident, i), "%s goes on with a variable although the "
                      "comparison with its source said that they are incompatible" % fi.name, fi.where(rule.where.get(line)))
    ctx.count("comparisons of variables", total)
    # whoever takes arguments for a scheme compares them
    match = [f for f in project.all_funcs() if f.name == 'match_variable' and f.module.name == 'suite_objects']
    if not match:
        raise AnalysisBroken("SuiteObject.match_variable not found")
    return match[0]


class Match(Rule):
    """match_variable: what a match rests on."""
    merge = True
    keep_none = True
    merge_over = 1
    text = False
    max_depth = 2
    keep = ('found_var', 'dict_var')

    def inline(self, fi, depth):
        return False

    def on_call(self, ip, st, node, name, target, recv, args, kwargs):
        short = name.split(".")[-1]
        if node in compat_calls(node):
            return [(st.with_ts(st.ts | {('compared',)}), ('verdict', 0))]
        if short == 'match_dimensions':
            vals = ('l', tuple(('dim', i) for i in range(6)), 'tuple')
            return [(st.with_ts(st.ts | {('dims',)}), vals)]
        if short == 'find_variable':
            return [(st, ('found', node.lineno))]
        if short == 'get_dimensions':
            return None
        return None

    def on_assume(self, ip, st, atom, val):
        ts = set(st.ts)
        if atom == ('truth', ('dim', 0)):
            ts.add(('match', val))
        if atom == ('isnone', ('dim', 4)) and val:
            ts.add(('plain',))
        if atom == ('truth', ('dim', 4)) and not val:
            ts.add(('plain',))
        if atom == ('truth', ('dim', 3)) and val or atom == ('isnone', ('dim', 3)) and not val:
            ts.add(('missing',))
        return st.with_ts(frozenset(ts))


def check_match(ctx, project, fi):
    ip = Interp(project, Match())
    ex = ip.run(fi, ts=frozenset())
    ctx.saw(fi)
    n = 0
    uncompared = perm = mism = quiet = None
    for st, val, node in ex.ret:
        if val[0] != 'l' or len(val[1]) < 2:
            raise AnalysisBroken("match_variable does not return what it found")
        found, src = val[1][0], val[1][1]
        if src == NONE or known(st, ('isnone', src)) is True:
            continue
        n += 1
        if ('compared',) not in st.ts:
            uncompared = uncompared or (st, node)
        if ('dims',) in st.ts and ('plain',) not in st.ts:
            perm = perm or (st, node)
        if ('match', False) in st.ts and found != FALSE:
            mism = mism or (st, node)
        if ('dims',) in st.ts and ('match', False) not in st.ts and ('match', True) not in st.ts and found != FALSE:
            mism = mism or (st, node)
        if ('match', False) in st.ts and ('missing',) not in st.ts:
            quiet = quiet or (st, node)
    if not n:
        raise AnalysisBroken("match_variable never finds a source")
    ctx.check(uncompared is None, "matched", "compared with its source", "a scheme variable is matched with a source it was "
              "not compared with", fi.where(uncompared[1] if uncompared else None))
    ctx.check(perm is None, "matched", "order of dimensions", "a scheme variable is matched with a source whose dimensions are "
              "in another order", fi.where(perm[1] if perm else None))
    ctx.check(mism is None, "matched", "dimensions", "a scheme variable counts as found although its dimensions do not match "
              "those of its source", fi.where(mism[1] if mism else None))
    ctx.check(quiet is None, "matched", "error", "no error is raised although the dimensions of a scheme variable do not match "
              "those of its source and it is not only a vertical dimension which is missing", fi.where(quiet[1] if quiet else None))


# ----------------------------------------------------------------- dimensions of an argument and of its source
def pair_of(val, need, have):
    """The index in the dimensions HAVE that the comparison VAL of two dimensions is about."""
    if not (isinstance(val, tuple) and val and val[0] == 'call' and val[1].split(".")[-1] in ('dim_match', 'horiz_dim_match')):
        return None
    args = [a for a in val[3] if isinstance(a, tuple)]
    if len(args) < 2:
        return None
    one, two = args[:2]
    if not mentions(one, need) or mentions(one, have) or not mentions(two, have) or mentions(two, need):
        return None
    if two[0] == 'item' and two[1] == have:
        return two[2]
    if two[0] == 'item' and two[1][0] == 'elem' and is_call(two[1][1], 'enumerate') and two[2] == K(1):
        return ('item', two[1], K(0))
    return ('at', two)


def slices(val):
    """The slices in VAL."""
    if not isinstance(val, (tuple, frozenset)):
        return []
    out = [val] if isinstance(val, tuple) and val and val[0] == 'slice' and len(val) == 5 else []
    for x in val:
        out += slices(x)
    return out


class Order(Rule):
    """match_dimensions: each wanted dimension is found at a place of its own."""
    merge = False
    text = False
    liveness = True
    max_depth = 2
    max_states = 200000

    def __init__(self, need, have):
        self.need, self.have = need, have
        self.outer = set()
        self.whole = True

    def inline(self, fi, depth):
        return False

    def on_iter(self, ip, st, node, it):
        if mentions(it, self.need) and not mentions(it, self.have):
            self.outer.add(node)
            for part in slices(it):
                if part[2] not in (NONE, K(0)) or not (part[3] in (NONE, K(0)) or is_call(part[3], 'len') and part[3][3][:1] == (self.need,)):
                    self.whole = False
            if not slices(it) and partial(it):
                self.whole = False

    def iter_start(self, ip, st, node):
        if node in self.outer:
            return st.with_ts(frozenset(x for x in st.ts if x[0] in ('miss', 'inorder')))
        return st

    def iter_end(self, ip, st, node):
        if node in self.outer and ('placed',) not in st.ts:
            return st.with_ts(st.ts | {('miss',)})
        return st

    iter_break = iter_end

    def on_assume(self, ip, st, atom, val):
        if atom[0] in ('truth', 'isnone') and val is (atom[0] == 'truth'):
            at = pair_of(atom[1], self.need, self.have)
            if at is not None:
                return st.with_ts(st.ts | {('hit', at)})
        if atom[0] == 'eq' and val:
            for one, two in ((atom[1], atom[2]), (atom[2], atom[1])):
                if self.full(one) and not any(is_call(two, x) for x in ('sorted', 'set', 'frozenset', 'reversed', 'len')):
                    return st.with_ts(st.ts | {('inorder',)})
        return st

    def full(self, val):
        """Is VAL the list of all indices of the available dimensions, in order?"""
        if isinstance(val, tuple) and val and val[0] == 'l' and len(val[1]) == 1 and val[1][0][0] == 'many':
            val = val[1][0][1]
            val = val[1] if val[0] == 'elem' else val
        if is_call(val, 'list') and val[3]:
            val = val[3][0]
        return is_call(val, 'range') and len(val[3]) == 1 and is_call(val[3][0], 'len') and val[3][0][3][:1] == (self.have,)

    def on_call(self, ip, st, node, name, target, recv, args, kwargs):
        if name in ('sorted', 'set', 'frozenset', 'reversed') and args:
            return [(st, ('call', name, None, tuple(args)))]
        if name.split(".")[-1] in ('append', 'insert') and args and any(
                x[0] == 'hit' and (x[1] == args[-1] or x[1][0] == 'at') for x in st.ts):
            st = st.with_ts(st.ts | {('placed',)})
            return ip.builtin(st, node, name, recv, args, kwargs)
        return None


def check_order(ctx, project):
    fi = [f for f in project.all_funcs() if f.name == 'match_dimensions' and f.module.name == 'suite_objects']
    if not fi:
        raise AnalysisBroken("match_dimensions not found")
    fi = fi[0]
    need, have = P(fi.params[1]), P(fi.params[2])
    rule = Order(need, have)
    ip = Interp(project, rule)
    ex = ip.run(fi, ts=frozenset())
    ctx.saw(fi)
    if not rule.outer:
        raise AnalysisBroken("match_dimensions does not go through the wanted dimensions")
    missed = order = horiz = None
    n = 0
    for st, val, node in ex.ret:
        if val[0] != 'l' or len(val[1]) < 5:
            raise AnalysisBroken("match_dimensions does not return its verdict")
        if val[1][0] == FALSE:
            continue
        n += 1
        if ('miss',) in st.ts:
            missed = missed or (st, node)
        if val[1][4] == NONE and ('inorder',) not in st.ts:
            order = order or (st, node)
    if not n:
        raise AnalysisBroken("match_dimensions never succeeds")
    ctx.check(rule.whole, "order", "every dimension", "match_dimensions does not look at every dimension of the argument", fi.where())
    ctx.check(missed is None, "order", "each dimension is found", "dimensions match although one of them was not found among those of "
              "the source", fi.where(missed[1] if missed else None))
    ctx.check(order is None, "order", "same order", "dimensions match without a permutation although those found are not all those of "
              "the source in their order", fi.where(order[1] if order else None))
    check_one_dim(ctx, project, fi)


def check_one_dim(ctx, project, fi):
    """When do two single dimensions match?"""
    cls = fi.cls
    plain, horiz = cls.methods.get('dim_match'), cls.methods.get('horiz_dim_match')
    if plain is None or horiz is None:
        raise AnalysisBroken("comparison of two dimensions not found")

    class One(Rule):
        merge = False
        text = False
        max_depth = 2

        def inline(self, f, depth):
            return False
    off = 0 if any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in plain.node.decorator_list) else 1
    need, have = P(plain.params[off]), P(plain.params[off + 1])
    ex = Interp(project, One()).run(plain)
    ctx.saw(plain)
    bad, n = None, 0
    for st, val, node in ex.ret:
        if val == NONE or truth(st, val) is False or known(st, ('isnone', val)) is True:
            continue
        n += 1
        if not any(v is True and a[0] == 'eq' and same_dims(st, a[1], a[2], need, have) for a, v in st.preds.items()):
            bad = bad or node or plain.node
    if not n:
        raise AnalysisBroken("dim_match never matches")
    ctx.check(bad is None, "order", "same dimension", "two dimensions match although they are neither equal nor equal but for a "
              "lower bound of one", plain.where(bad))
    need, have = P(horiz.params[1]), P(horiz.params[2])
    ex = Interp(project, One()).run(horiz)
    ctx.saw(horiz)
    bad, n = None, 0
    for st, val, node in ex.ret:
        if val == NONE or truth(st, val) is False or known(st, ('isnone', val)) is True:
            continue
        n += 1
        both = all(any(v is True and a[0] == 'truth' and is_call(a[1], 'is_horizontal_dimension') and a[1][3][:1] == (x,)
                       for a, v in st.preds.items()) for x in (need, have))
        run = [v for a, v in st.preds.items() if a[0] == 'truth' and is_call(a[1], 'run_phase')]
        same = eq_fact(st, need, have) is True
        subst = any(v is False and a[0] == 'isnone' and is_call(a[1], 'has_subst') or
                    v is True and a[0] == 'truth' and is_call(a[1], 'has_subst') for a, v in st.preds.items())
        whole = any(v is True and a[0] == 'eq' and have in a[1:] and any(x[0] == 'k' for x in a[1:]) for a, v in st.preds.items()) and \
            any(v is True and a[0] in ('eq', 'in') and need in a[1:] for a, v in st.preds.items())
        if not (both and (same or True in run and subst or False in run and whole)):
            bad = bad or node or horiz.node
    if not n:
        raise AnalysisBroken("horiz_dim_match never matches")
    ctx.check(bad is None, "order", "same horizontal dimension", "two dimensions match although they are not both horizontal, or neither "
              "equal nor one that stands for the other in this phase", horiz.where(bad))


def same_dims(st, one, two, need, have):
    if {one, two} == {need, have}:
        return True
    for x, y in ((one, two), (two, one)):
        if parts_of(st, x, need) and parts_of(st, y, have):
            return True
    return False


def parts_of(st, val, dim):
    """Is VAL the parts of the dimension DIM, at most without a lower bound of one?"""
    if is_call(val, 'split') and val[2] == dim and val[3][:1] == (K(':'),):
        return True
    if val[0] == 'slice' and is_call(val[1], 'split') and val[1][2] == dim and val[2] == K(1) and val[3] in (NONE,):
        first = ('item', val[1], K(0))
        return any(v is True and a[0] == 'eq' and K('ccpp_constant_one') in a[1:] and any(
            x == first or is_call(x, 'lower') and x[2] == first for x in a[1:]) for a, v in st.preds.items())
    return False


def check_pair(ctx, project):
    """Var.compatible passes the properties of the two variables in the right places."""
    var = project.cls("metavar", "Var")
    fi = var.methods.get('compatible')
    if fi is None:
        raise AnalysisBroken("Var.compatible not found")
    got = []

    class Pair(Rule):
        text = False
        max_depth = 2

        def inline(self, f, depth):
            return f.module.name == 'metavar' and f.name not in ('get_prop_value', 'get_dimensions')

        def on_call(self, ip, st, node, name, target, recv, args, kwargs):
            if name.split(".")[-1] == OBJ:
                got.append((list(args), dict(kwargs)))
                return [(st, ('compatobj',))]
            return None
    ex = Interp(project, Pair()).run(fi)
    ctx.saw(fi)
    init = project.cls("var_props", OBJ).methods['__init__']
    names = init.params[1:]
    if not got:
        raise AnalysisBroken("Var.compatible does not build a VarCompatObj")
    bad = set()
    for args, kwargs in got:
        vals = dict(zip(names, args))
        vals.update(kwargs)
        for i, owner in ((1, P(fi.params[0])), (2, P(fi.params[1]))):
            for key, prop in (('stdname', 'standard_name'), ('type', 'type'), ('kind', 'kind'), ('units', 'units'),
                              ('dims', None), ('top', 'top_at_one')):
                val = vals.get('var%d_%s' % (i, key))
                if prop is None:
                    ok = val is not None and is_call(val, 'get_dimensions') and val[2] == owner
                else:
                    ok = val is not None and is_call(val, 'get_prop_value') and val[2] == owner and val[3][0] == K(prop)
                if not ok:
                    bad.add('var%d_%s' % (i, key))
    for i in (1, 2):
        for key in ('stdname', 'type', 'kind', 'units', 'dims', 'top'):
            name = 'var%d_%s' % (i, key)
            ctx.check(name not in bad, "pair", name, "Var.compatible compares something else than the %s of the %s variable" %
                      (key, "first" if i == 1 else "second"), fi.where())
    for st, val, node in ex.ret:
        ctx.check(val == ('compatobj',), "pair", "verdict returned", "Var.compatible does not return the comparison it made",
                  fi.where(node))


def check(ctx, project):
    ctx.rule("verdict", "on every path through VarCompatObj.__init__ that leaves the variables compatible, each compared "
             "property was found equal (or convertible: kind, units, dimension order, orientation)")
    ctx.rule("equiv", "variables are equivalent only if no kind, unit or vertical transformation is needed")
    ctx.rule("reason", "a rejecting path leaves a non-empty reason")
    ctx.rule("public", "the public verdict is the one computed")
    ctx.rule("kind", "_get_kind_convstrs gives no conversion only for kinds that are the same, else both kinds in order")
    ctx.rule("char", "the standard form of a character length keeps the length")
    ctx.rule("dims", "a dimension transform exists only for a permutation; regularised dimensions keep their names")
    ctx.rule("honoured", "after Var.compatible every path that goes on has seen a positive verdict; others raise")
    ctx.rule("matched", "match_variable compares every source it returns, and rejects mismatched or permuted dimensions")
    ctx.rule("order", "match_dimensions succeeds without a permutation only if every wanted dimension was found equal to one of the "
             "source and those found are all of the source's, in order")
    ctx.rule("pair", "Var.compatible hands over the right property of the right variable")
    cls = project.cls("var_props", OBJ)
    check_verdict(ctx, project, cls)
    check_props(ctx, cls)
    check_kind(ctx, project, cls)
    check_char(ctx, project, cls)
    check_dims(ctx, project, cls)
    check_pair(ctx, project)
    match = check_users(ctx, project)
    check_match(ctx, project, match)
    check_order(ctx, project)
    ctx.at_least("honoured", 4)
