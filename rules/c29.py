"""C29: ccpp_prebuild accepts a requested variable only if it is provided, unambiguous and compatible."""
import ast

from sa.absint import Interp, Rule, K, TRUE, FALSE, NONE, fragment, show, show_atom, mentions
from sa.project import AnalysisBroken
from rules.c04 import is_log


HOMES = ("ccpp_prebuild", "mkcap", "metadata_parser")
# functions that are judged on their own or only decode a text
STEPS = ("compatible", "convert_to", "convert_from", "decode_container", "encode_container", "print_debug", "parse")


def mentions_head(val, head):
    if not isinstance(val, (tuple, frozenset)):
        return False
    if isinstance(val, tuple) and val and val[0] == head:
        return True
    return any(mentions_head(x, head) for x in val if isinstance(x, (tuple, frozenset)))


def result_flag(fi):
    """Name of the variable returned as (first element of) the result."""
    names = set()
    for n in ast.walk(fi.node):
        if isinstance(n, ast.Return) and n.value is not None:
            val = n.value.elts[0] if isinstance(n.value, ast.Tuple) and n.value.elts else n.value
            if isinstance(val, ast.Name):
                names.add(val.id)
            elif not isinstance(val, ast.Constant):
                names.add(None)
    return names.pop() if len(names) == 1 else None


def length_allows(atom, val, num, about):
    """Can the branch fact ATOM=VAL hold if the length of something satisfying ABOUT is NUM?  None: not about it."""
    hits = []

    def sub(x):
        if isinstance(x, tuple) and len(x) == 4 and x[0] == 'call' and x[1] == 'len' and x[3] and about(x[3][0]):
            hits.append(x)
            return K(num)
        return x
    if atom[0] == 'truth' and about(atom[1]):
        return bool(num) == val
    args = [sub(x) for x in atom[1:]]
    if not hits or not all(x[0] == 'k' for x in args):
        return None
    try:
        if atom[0] == 'eq':
            got = args[0][2] == args[1][2]
        elif atom[0] == 'lt':
            got = args[0][2] < args[1][2]
        elif atom[0] == 'le':
            got = args[0][2] <= args[1][2]
        elif atom[0] == 'truth':
            got = bool(args[0][2])
        else:
            return None
    except TypeError:
        return None
    return got == val


def root(val):
    """The container VAL was taken from."""
    while val[0] in ('item', 'elem', 'slice') or val[0] == 'attr':
        val = val[1]
    return val


class Loop(Rule):
    """Facts of one iteration of an outermost loop."""
    merge = True
    merge_over = 1
    keep_none = True
    liveness = True
    text = False
    max_depth = 2

    def __init__(self, ctx, fi):
        self.ctx = ctx
        self.fi = fi
        self.flag = result_flag(fi)
        self.ends = 0
        self.verdicts = {}

    def inline(self, fi, depth):
        return fi.module.name in HOMES and fi.name not in STEPS

    def fact(self, st, *what):
        return st.with_ts(st.ts | {what})

    def outer(self, ip):
        return len(ip.loops) == 1

    def failed(self, st):
        if self.flag is not None:
            return st.env.get(self.flag) == FALSE
        return ('failed',) in st.ts

    def on_call(self, ip, st, node, name, target, recv, args, kwargs):
        if is_log(node, {"error", "critical", "exception"}):
            return [(self.fact(st, 'failed'), NONE)]
        return None

    def iter_start(self, ip, st, node):
        if not self.outer(ip):
            return st
        if self.flag in st.env:
            st = st.bind(self.flag, TRUE)
        return st.with_ts(frozenset())

    def iter_end(self, ip, st, node):
        if not self.outer(ip):
            return st
        self.ends += 1
        if not self.failed(st):
            self.judge(ip, st, node)
        return st.with_ts(frozenset())

    def say(self, good, rule, key, msg, where):
        self.verdicts.setdefault((rule, key), True)
        if not good:
            self.verdicts[(rule, key)] = False
        self.ctx.check(self.verdicts[(rule, key)], rule, key, msg, where)


class Compare(Loop):
    def __init__(self, ctx, fi, define, request):
        super().__init__(ctx, fi)
        self.define = ('param', define)
        self.request = ('param', request)
        self.asked = 0

    def seq_of(self, ip, it):
        # a requested variable has at least one entry
        if it[0] == 'item' and it[1] == self.request:
            return [('elem', it), ('many', ('elem', it))]
        return None

    def on_call(self, ip, st, node, name, target, recv, args, kwargs):
        if name.split(".")[-1] == 'compatible' and recv is not None and args:
            pair = [recv, args[0]]
            req = [x for x in pair if root(x) == self.request]
            dfn = [x for x in pair if root(x) == self.define]
            good = len(req) == 1 and len(dfn) == 1 and req[0][0] == 'elem'
            self.asked += 1
            return [(st, ('compat', good, req[0] if req else NONE))]
        return super().on_call(ip, st, node, name, target, recv, args, kwargs)

    def on_assume(self, ip, st, atom, val):
        if atom[0] == 'truth' and atom[1][0] == 'compat':
            return self.fact(st, 'compat', atom[1][1], val)
        if atom[0] == 'in' and mentions(atom[2], self.define) and not mentions(atom[1], self.define):
            return self.fact(st, 'provided', val)
        ok = length_allows(atom, val, 1, self.defs)
        if ok is not None:
            two = length_allows(atom, val, 2, self.defs) or length_allows(atom, val, 7, self.defs)
            return self.fact(st, 'unique', not two)
        return st

    def defs(self, val):
        return val[0] == 'item' and val[1] == self.define

    def judge(self, ip, st, node):
        where = ip.fi.where(node)
        ts = st.ts
        self.say(('provided', True) in ts and ('provided', False) not in ts, "accepted", "compare_metadata:provided",
                 "a requested variable is accepted although it was not found among the provided ones", where)
        self.say(('unique', True) in ts, "accepted", "compare_metadata:unambiguous",
                 "a requested variable is accepted although it may have several definitions", where)
        self.say(any(f[0] == 'compat' and f[1] and f[2] for f in ts) and not any(
            f[0] == 'compat' and not f[2] for f in ts), "accepted", "compare_metadata:compatible",
            "a requested variable is accepted although not every request was found compatible with the definition",
            where)


def loops_over(fi, p, rule, ts=frozenset(), args=None):
    ip = Interp(p, rule)
    ex = ip.run(fi, ts=ts, args=args)
    return ip, ex


def compare(ctx, p):
    ctx.rule("accepted", "an iteration of compare_metadata that does not report an error has established that the "
             "variable is provided, has exactly one definition and that every request is compatible with it")
    fi = p.func("ccpp_prebuild", "compare_metadata")
    ctx.saw(fi)
    define, request = fi.params[0], fi.params[1]
    rule = Compare(ctx, fi, define, request)
    loops_over(fi, p, rule)
    if not rule.ends or not rule.asked:
        raise AnalysisBroken("compare_metadata: no loop or no compatibility test found")
    ctx.at_least("accepted", 3)


# ----------------------------------------------------------------- Var.compatible
def sides(atom, attr):
    """Is ATOM about attribute ATTR of self and of other?"""
    one, two = atom[1], atom[2]

    def of(x, who):
        return x[0] == 'attr' and x[1] == ('param', who) and x[2].lstrip("_") == attr
    return (of(one, 'self') and of(two, 'other')) or (of(one, 'other') and of(two, 'self'))


class Plain(Rule):
    def inline(self, fi, depth):
        return fi.module.name in HOMES and fi.name not in STEPS

    def on_attr(self, ip, st, node, base, attr):
        if base[0] == 'param' and attr.lstrip("_") in ("standard_name", "type", "rank", "kind"):
            return [(st, ('attr', base, attr.lstrip("_")))]
        return None


def verdict(ctx, p):
    ctx.rule("compatible", "Var.compatible returns true only where standard name, type, rank and kind of the two are "
             "equal, or where both are characters and one kind is len=*")
    fi = p.func("mkcap", "Var.compatible")
    ctx.saw(fi)
    ip = Interp(p, Plain())
    ex = ip.run(fi, args={fi.params[1]: ('param', 'other')})
    n = 0
    for end, val, node in ex.ret:
        for st in ip.split(val, end)[0]:
            facts = st.preds
            n += 1
            judge(ctx, facts, fi, node)
    if not n:
        raise AnalysisBroken("Var.compatible never returns true")
    ctx.at_least("compatible", 4)


def judge(ctx, facts, fi, node):
    if True:
        for attr in ("standard_name", "type", "rank"):
            ctx.check(any(a[0] == 'eq' and v and sides(a, attr) for a, v in facts.items()), "compatible", attr,
                      "two variables can be compatible without equal %s: %s" % (attr, ", ".join(
                          "%s%s" % ("" if v else "not ", show_atom(a)) for a, v in facts.items())), fi.where(node))
        same = any(a[0] == 'eq' and v and sides(a, "kind") for a, v in facts.items())
        if not same:
            star = {who for a, v in facts.items() for who in ("self", "other")
                    if a[0] == 'eq' and v and ('attr', ('param', who), 'kind') in a[1:] and K('len=*') in a[1:]}
            size = {who for a, v in facts.items() for who in ("self", "other")
                    if v and a[0] == 'truth' and a[1][0] == 'call' and a[1][1] == 'startswith' and
                    a[1][2] == ('attr', ('param', who), 'kind') and a[1][3] == (K('len='),)}
            char = any(a[0] == 'eq' and v and K('character') in a[1:] for a, v in facts.items())
            same = char and ((("self" in star) and "other" in star | size) or ("other" in star and "self" in size))
        ctx.check(same, "compatible", "kind", "two variables of different kind can be compatible: %s" % ", ".join(
            "%s%s" % ("" if v else "not ", show_atom(a)) for a, v in facts.items()), fi.where(node))


# ---------------------------------------------------------------- schemes exist
class Schemes(Rule):
    merge = True
    merge_over = 1
    text = False

    def __init__(self, ctx, fi, arguments, suites):
        self.ctx, self.fi = ctx, fi
        self.arguments = ('param', arguments)
        self.suites = ('param', suites)
        self.flag = result_flag(fi)
        self.tested = {}
        self.broke = []

    def inline(self, fi, depth):
        return fi.module.name in HOMES and fi.name not in STEPS

    def is_scheme(self, val):
        return val[0] == 'elem' and mentions(val, self.suites) and any(
            mentions_attr(val[1], a) for a in ('schemes', 'all_schemes_called', '_schemes', '_all_schemes_called'))

    def on_call(self, ip, st, node, name, target, recv, args, kwargs):
        if is_log(node, {"error", "critical", "exception"}):
            return [(st.with_ts(st.ts | {'failed'}), NONE)]
        return None

    def on_assume(self, ip, st, atom, val):
        if atom[0] == 'in' and self.is_scheme(atom[1]) and mentions(atom[2], self.arguments):
            self.tested.setdefault(atom[1], ip.loops[-1] if ip.loops else None)
            if not val:
                return st.with_ts(st.ts | {'missing'})
            return st.with_ts(st.ts | {'there'})
        return st

    def failed(self, st):
        if self.flag is not None:
            return st.env.get(self.flag) == FALSE
        return 'failed' in st.ts

    def iter_start(self, ip, st, node):
        return st.with_ts(st.ts - {'there', 'missing', 'failed'})

    def iter_end(self, ip, st, node):
        if 'missing' in st.ts and not self.failed(st):
            self.ctx.bad("exists", "check_schemes_in_suites:missing", "a scheme of a suite that has no metadata is "
                         "not reported", ip.fi.where(node))
        return st.with_ts(st.ts - {'there', 'missing', 'failed'})

    def iter_break(self, ip, st, node):
        if 'missing' not in st.ts or not self.failed(st):
            self.ctx.bad("exists", "check_schemes_in_suites:break", "the schemes after this one are not checked",
                         ip.fi.where(node))
        return st


def mentions_attr(val, attr):
    if not isinstance(val, (tuple, frozenset)):
        return False
    if isinstance(val, tuple) and len(val) == 3 and val[0] == 'attr' and val[2] == attr:
        return True
    return any(mentions_attr(x, attr) for x in val if isinstance(x, (tuple, frozenset)))


def schemes(ctx, p):
    ctx.rule("exists", "every scheme of every group of every suite is looked up among the schemes with metadata, and "
             "a missing one is an error")
    fi = p.func("ccpp_prebuild", "check_schemes_in_suites")
    ctx.saw(fi)
    rule = Schemes(ctx, fi, fi.params[0], fi.params[1])
    ip = Interp(p, rule)
    ex = ip.run(fi, ts=frozenset())
    if not rule.tested:
        ctx.bad("exists", "check_schemes_in_suites:test", "no scheme is looked up", fi.where())
    for st, val, node in ex.ret:
        if 'missing' in st.ts and not rule.failed(st) and val != FALSE:
            ctx.bad("exists", "check_schemes_in_suites:missing", "a missing scheme is not reported", fi.where(node))
    for val in rule.tested:
        full = mentions_attr(val, 'all_schemes_called') or (
            mentions_attr(val, 'groups') and mentions_attr(val, 'subcycles'))
        ctx.check(full, "exists", "check_schemes_in_suites:all", "only %s is checked" % show(val), fi.where())
    ctx.ok("exists", "check_schemes_in_suites", fi.where())


# ------------------------------------------------------------------- collecting
class Merge(Rule):
    """merge_dictionaries: nothing is lost, what is joined is compatible."""
    merge = False
    text = False

    def __init__(self, ctx, fi):
        self.ctx = ctx
        self.fi = fi
        self.stores = 0
        self.x, self.y = (('param', q) for q in fi.params[:2])

    def inline(self, fi, depth):
        return fi.module.name in HOMES and fi.name not in STEPS

    def on_call(self, ip, st, node, name, target, recv, args, kwargs):
        if name.split(".")[-1] == 'compatible':
            return [(st, ('compat', recv, args[0]))]
        if name == 'isinstance' and len(args) > 1 and 'Var' in show(args[1]):
            return [(st, ('isvar', args[0]))]
        return None

    def on_store(self, ip, st, node, kind, base, key, val):
        if kind != 'item' or mentions(base, self.x) or mentions(base, self.y):
            return st
        if val[0] == 'call' and val[1].endswith('OrderedDict') or val in (('d', (), False), ('l', (), 'list')):
            return st
        if key[0] != 'elem':
            return st
        self.stores += 1
        have = {}
        for which, prm in (('x', self.x), ('y', self.y)):
            have[which] = None
            for atom, pos in st.preds.items():
                if atom[0] == 'in' and atom[1] == key and mentions(atom[2], prm) and not mentions(
                        atom[2], self.y if which == 'x' else self.x):
                    have[which] = pos
        # a key that is in neither does not occur
        if have['x'] is False and have['y'] is None:
            have['y'] = True
        where = ip.fi.where(node)
        for which, prm in (('x', self.x), ('y', self.y)):
            if have[which] is not False:
                if have[which] is None and not mentions(val, prm):
                    continue
                self.ctx.check(mentions(val, ('item', prm, key)), "kept", "merge_dictionaries:%s%s" % (
                    which, "" if have['x'] and have['y'] else " alone"),
                    "the entries of %s are lost: %s is stored" % (prm[1], show(val)), where)
        if all(mentions(val, ('item', q, key)) for q in (self.x, self.y)):
            var = any(a[0] == 'truth' and a[1][0] == 'isvar' and v for a, v in st.preds.items())
            other = any(a[0] == 'truth' and a[1][0] == 'isvar' and not v for a, v in st.preds.items())
            ok = any(a[0] == 'truth' and a[1][0] == 'compat' and v and {self.x, self.y} == {
                root(a[1][1]), root(a[1][2])} for a, v in st.preds.items())
            self.ctx.check(ok or (other and not var), "kept", "merge_dictionaries:compatible",
                           "entries are joined without being tested for compatibility", where)
        return st


class Append(Rule):
    """A variable joins the entries of its standard name only if compatible."""
    merge = False
    text = False

    def __init__(self, ctx, label):
        self.ctx = ctx
        self.label = label
        self.seen = 0

    def inline(self, fi, depth):
        return fi.module.name in HOMES and fi.name not in STEPS

    def seq_of(self, ip, it):
        if it[0] == 'item':
            return [('elem', it), ('many', ('elem', it))]
        return None

    def on_call(self, ip, st, node, name, target, recv, args, kwargs):
        short = name.split(".")[-1]
        if short == 'compatible' and recv is not None and args:
            return [(st, ('compat', recv, args[0]))]
        if short == 'append' and recv is not None and recv[0] == 'item' and args and args[0][0] != 'k':
            self.seen += 1
            entry = ('elem', recv)
            asked = [(a, v) for a, v in st.preds.items() if a[0] == 'truth' and a[1][0] == 'compat' and
                     entry in a[1][1:] and args[0] in a[1][1:]]
            done = ('compat', recv, args[0])
            ok = (asked and all(v for _, v in asked)) or done in st.ts
            self.ctx.check(bool(ok), "joined", self.label, "%s joins %s without being compatible with its entries" % (
                show(args[0]), show(recv)), ip.fi.where(node))
        return None

    def on_assume(self, ip, st, atom, val):
        if atom[0] == 'truth' and atom[1][0] == 'compat' and val:
            for one, two in (atom[1][1:], atom[1][:0:-1]):
                if one[0] == 'elem':
                    st = st.with_ts(st.ts | {('compat', one[1], two)})
        return st


def collect(ctx, p):
    ctx.rule("kept", "merging the variables of two files keeps the entries of both and raises if they are incompatible")
    ctx.rule("joined", "a variable of a table joins the entries of its standard name only after it was found "
             "compatible with them")
    fi = p.func("metadata_parser", "merge_dictionaries")
    ctx.saw(fi)
    rule = Merge(ctx, fi)
    Interp(p, rule).run(fi, ts=frozenset())
    if not rule.stores:
        raise AnalysisBroken("merge_dictionaries stores nothing")
    ctx.at_least("kept", 3)
    num = 0
    for fi in p.mod("metadata_parser").all_funcs():
        if fi.outer is not None or not any(isinstance(n, ast.Attribute) and n.attr == 'compatible'
                                           for n in ast.walk(fi.node)) or fi.name == "merge_dictionaries":
            continue
        loops = []
        for n in ast.walk(fi.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'append' and \
                    isinstance(n.func.value, ast.Subscript) and n.args and isinstance(n.args[0], ast.Name):
                if n.args[0].id in compat_args(fi):
                    loops.append(n)
        for i, site in enumerate(loops):
            frag, env = smallest(fi, site)
            if frag is None:
                continue
            rule = Append(ctx, "%s:%d" % (fi.qualname, i + 1))
            Interp(p, rule).run(frag, args=env, ts=frozenset())
            num += rule.seen
            ctx.saw(fi)
    if not num:
        raise AnalysisBroken("no function of metadata_parser adds a variable to an entry")
    ctx.at_least("joined", 2)


def compat_args(fi):
    return {a.id for n in ast.walk(fi.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and
            n.func.attr == 'compatible' for a in list(n.args) + [n.func.value] if isinstance(a, ast.Name)}


def smallest(fi, site):
    """Innermost block of FI with SITE and a compatibility test on what it appends."""
    name = site.args[0].id
    calls = [n for n in ast.walk(fi.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and
             n.func.attr == 'compatible' and any(isinstance(a, ast.Name) and a.id == name
                                                 for a in list(n.args) + [n.func.value])]
    best = None
    for call in calls:
        frag, env = fragment(fi, lambda n: n is site or n is call)
        num = sum(1 for _ in ast.walk(frag.node))
        if best is None or num < best[0]:
            best = (num, frag, env)
    return (best[1], best[2]) if best else (None, None)


# --------------------------------------------------------------------- filtering
STAGES = ('global', 'common', 'CCPP_STAGES')


class Called(Rule):
    """Names of subroutines a suite calls."""
    merge = True
    merge_over = 1

    def __init__(self):
        self.names = []

    def inline(self, fi, depth):
        return fi.module.name in HOMES and fi.name not in STEPS

    def on_call(self, ip, st, node, name, target, recv, args, kwargs):
        if name.split(".")[-1] == 'append' and recv is not None and 'all_subroutines_called' in show(recv) and args:
            self.names.append((args[0], node))
        return None


class Filter(Rule):
    """filter_metadata: what a suite calls is kept."""
    merge = True
    merge_over = 1
    keep_none = True
    text = False

    def __init__(self, ctx, fi):
        self.ctx = ctx
        self.fi = fi
        self.inputs = [('param', x) for x in fi.params]
        self.stores = 0

    def inline(self, fi, depth):
        return fi.module.name in HOMES and fi.name not in STEPS

    def on_call(self, ip, st, node, name, target, recv, args, kwargs):
        if name.split(".")[-1] == 'replace' and len(args) == 2 and mentions(args[0], STAGES):
            self.ctx.bad("suffix", "%s:stage" % self.fi.name, "a stage name is replaced anywhere in the name of the "
                         "subroutine, also within the name of the scheme", ip.fi.where(node))
        return None

    def on_assume(self, ip, st, atom, val):
        if atom[0] == 'in' and (mentions_attr(atom[2], 'all_subroutines_called') or
                                mentions_attr(atom[2], 'all_schemes_called')) and ip.loops:
            return st.with_ts((st.ts | {'used'}) if val else st.ts)
        return st

    def on_store(self, ip, st, node, kind, base, key, val):
        if kind == 'item' and ip.loops and base not in self.inputs and key[0] == 'elem':
            self.stores += 1
            good = val[0] == 'item' and val[1] in self.inputs and val[2] == key
            self.ctx.check(good, "filter", "%s:value@%s" % (self.fi.name, show(key)[:40]),
                           "%s is kept for %s" % (show(val), show(key)), ip.fi.where(node))
            return st.with_ts(st.ts | {'kept'})
        return st

    def iter_start(self, ip, st, node):
        return st.with_ts(frozenset()) if len(ip.loops) == 1 else st

    def iter_end(self, ip, st, node):
        if len(ip.loops) > 1:
            return st
        what = ast.unparse(node.iter)[:50]
        self.ctx.check('used' not in st.ts or 'kept' in st.ts, "filter", "%s:%s" % (self.fi.name, what),
                       "something a suite uses is dropped from %s" % what, ip.fi.where(node))
        return st.with_ts(frozenset())

    def iter_break(self, ip, st, node):
        looks = any(isinstance(n, ast.Attribute) and n.attr in ('all_subroutines_called', 'all_schemes_called')
                    for n in ast.walk(node))
        if 'used' not in st.ts and looks:
            self.ctx.bad("filter", "%s:break %s" % (self.fi.name, ast.unparse(node.iter)[:50]),
                         "the search stops before it found a use", ip.fi.where(node))
        return st


def filtering(ctx, p):
    ctx.rule("filter", "filter_metadata keeps a variable, an argument list, a dependency list and a file if a suite "
             "calls the scheme, and looks through all suites and subroutines before it drops one")
    fi = p.func("ccpp_prebuild", "filter_metadata")
    ctx.saw(fi)
    rule = Filter(ctx, fi)
    Interp(p, rule).run(fi, ts=frozenset())
    if not rule.stores:
        raise AnalysisBroken("filter_metadata stores nothing")
    ctx.at_least("filter", 6)
    ctx.rule("suffix", "the names of the subroutines a suite calls end in the abbreviated stage, and filter_metadata "
             "abbreviates only the stage at the end of a name")
    fi = p.func("mkstatic", "Suite.parse")
    ctx.saw(fi)
    rule = Called()
    Interp(p, rule).run(fi)
    for val, node in rule.names:
        tail = val[1][-1] if val[0] == 's' else val
        if not isinstance(tail, str) and tail[0] in ('top', 'j'):
            continue
        ctx.check(not isinstance(tail, str) and tail[0] == 'item' and tail[1] == STAGES, "suffix", "Suite.parse:%s" %
                  show(tail)[:40], "the name of a called subroutine ends in %s" % (
                      tail if isinstance(tail, str) else show(tail)), fi.where(node))
    ctx.ok("suffix", "filter_metadata", fi.where())


def check(ctx, p):
    compare(ctx, p)
    verdict(ctx, p)
    schemes(ctx, p)
    collect(ctx, p)
    filtering(ctx, p)
