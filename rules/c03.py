"""C03: every difference between a metadata table and the Fortran it describes
is reported, and generation stops."""
import ast

from sa.absint import Interp, Rule, K, show, show_atom, mentions, NONE, partial
from sa.callgraph import CallGraph
from sa.project import AnalysisBroken

META, FORT = ('param', 'meta_header'), ('param', 'fort_header')
ATTRS = ("local_name", "type", "kind", "intent", "optional", "dimensions", "order")


def props_of(v, out=None):
    """Names of variable properties a term reads, with the owning header."""
    if out is None:
        out = set()
    if isinstance(v, frozenset):
        for x in v:
            props_of(x, out)
        return out
    if not isinstance(v, tuple):
        return out
    if v and v[0] == 'call' and v[1].split(".")[-1] in ('get_prop_value', 'get_dimensions',
                                                       'convert_dims_to_standard_names'):
        short = v[1].split(".")[-1]
        if short == 'get_prop_value' and v[3] and v[3][0][0] == 'k':
            out.add((v[3][0][2], side(v[2])))
        elif short == 'get_dimensions':
            out.add(("dimensions", side(v[2])))
        elif short == 'convert_dims_to_standard_names' and v[3]:
            out.add(("dimensions", side(v[3][0])))
        return out
    for x in v:
        if isinstance(x, (tuple, frozenset)):
            props_of(x, out)
    return out


def side(v):
    if v is None:
        return None
    m, f = mentions(v, META), mentions(v, FORT)
    return 'm' if m and not f else 'f' if f and not m else None


def related(atom):
    """The property compared across the two sides by ATOM, or None."""
    props = set()
    for x in atom[1:]:
        props |= props_of(x)
    for name in {p for p, _ in props}:
        if (name, 'm') in props and (name, 'f') in props:
            return name
    return None


class Compare(Rule):
    """ts: ('match', A), ('mismatch', A), excuses, optional truth values."""
    merge = True
    max_depth = 4
    text = False
    keep_none = True
    merge_over = 1
    liveness = True
    eager = True

    FACTS = {
        'local_name': ('arrayref',), 'type': ('arrayref',), 'kind': ('arrayref',),
        'intent': ('arrayref', 'notscheme'), 'optional': ('arrayref', 'opt'),
        'dimensions': ('arrayref',), 'dimension-value': (),
        'order': ('arrayref', 'unordered'),
        'headertype': ('headertype',), 'count': ('count', 'longer', 'ftype-in'),
    }

    def __init__(self, outer, focus):
        self.outer = outer
        self.focus = focus
        self.iters = 0
        self.seen = set()
        self.cut = []

    def inline(self, fi, depth):
        return fi.module.name == "ccpp_capgen"

    def on_call(self, ip, st, node, name, target, recv, args, kwargs):
        # comparisons of other attributes may or may not report something
        short = getattr(target, "name", "")
        other = (short == "var_comp" and args and args[0][0] == 'k' and args[0][2] != self.focus) or \
            (short == "dims_comp" and self.focus not in ('dimensions', 'dimension-value'))
        if other:
            return [(st, K('')), (st, ('nes', 'errors'))]
        return None

    def on_assume(self, ip, st, atom, val):
        ts = set(st.ts)
        name = related(atom)
        if name and atom[0] in ('eq', 'in') and val:
            if name == "dimensions" and is_rank(atom):
                ts.add(('match', 'rank'))
            elif name == "dimensions" and atom[0] == 'in' and not mixed(atom):
                pass
            else:
                ts.add(('match', name))
        elif name and atom[0] == 'truth' and val and name == "dimensions":
            ts.add(('match', name))
        elif name and atom[0] == 'truth' and val and atom[1][0] == 'call' and atom[1][1] in (
                'startswith', 'endswith'):
            ts.add(('match', name))
        if atom[0] == 'in' and atom[2][0] == 'l' and val and any(
                e == K(':') for e in atom[2][1]) and name == "dimensions":
            ts.add(('match', name))
        if atom[0] == 'eq' and val and K(':') in atom[1:] and (
                "dimensions", 'f') in props_of(atom[1]) | props_of(atom[2]):
            ts.add(('match', "dimensions"))
        if atom[0] == 'in' and atom[1] == K('(') and ('local_name', 'm') in props_of(atom[2]):
            if val:
                ts.add(('arrayref',))
        if atom[0] == 'truth':
            for p, s in props_of(atom[1]):
                if p == 'optional' and s:
                    ts.discard(('opt', s, not val))
                    ts.add(('opt', s, val))
        if atom[0] == 'eq' and is_index(atom[1]) and is_index(atom[2]) and val:
            ts.add(('match', 'order'))
        if atom[0] == 'in' and is_htype(atom[1], FORT) and not val:
            ts.add(('unordered',))
        if atom[0] == 'eq':
            if (is_htype(atom[1], FORT) or is_htype(atom[2], FORT)) and K('scheme') in atom[1:] and not val:
                ts.add(('ftype-in', ('l', (), 'list')))
            if (is_htype(atom[1], META) or is_htype(atom[2], META)) and K('scheme') in atom[1:] and not val:
                ts.add(('notscheme',))
            if {side(atom[1]), side(atom[2])} == {'m', 'f'} and is_htype(atom[1]) and is_htype(atom[2]):
                ts.add(('headertype', val))
            if {count_of(atom[1]), count_of(atom[2])} == {'m', 'f'}:
                ts.discard(('count', not val))
                ts.add(('count', val))
        if atom[0] == 'lt' and {count_of(atom[1]), count_of(atom[2])} == {'m', 'f'}:
            ts = {e for e in ts if e[0] != 'longer'}
            ts.add(('longer', count_of(atom[2]) if val else 'not' + count_of(atom[2])))
        if atom[0] == 'in' and is_htype(atom[1], FORT) and val:
            ts.add(('ftype-in', atom[2]))
        return st.with_ts(frozenset(e for e in ts if self.relevant(e)))

    def oracle(self, ip, st, atom):
        # the elements of a variable list are variables
        if atom[0] in ('isnone', 'truth') and atom[1][0] == 'elem' and mentions_call(atom[1], 'variable_list') \
                and atom[1][1][0] == 'call' and atom[1][1][1] == 'variable_list':
            return atom[0] == 'truth'
        if atom[0] == 'truth':
            # one declaration has one optional attribute
            for p, s in props_of(atom[1]):
                for fact in st.ts:
                    if p == 'optional' and s and fact[:2] == ('opt', s):
                        return fact[2]
        return None

    def relevant(self, fact):
        if fact[0] == 'match':
            return fact[1] == {'dimensions': 'rank', 'dimension-value': 'dimensions'}.get(self.focus, self.focus)
        return fact[0] == 'mismatch' or fact[0] in self.FACTS[self.focus]

    def on_iter(self, ip, st, node, it):
        if (node is self.outer or is_dim_loop(ip, node)) and partial(it):
            self.cut.append((ip.fi, node, it))

    def iter_start(self, ip, st, node):
        if node is self.outer:
            drop = ('match', 'arrayref', 'opt')
            return st.with_ts(frozenset(e for e in st.ts if e[0] not in drop))
        if is_dim_loop(ip, node):
            return st.with_ts(frozenset(e for e in st.ts if e != ('match', 'dimensions')))
        return st

    def iter_end(self, ip, st, node):
        ts = set(st.ts)
        if node is self.outer:
            self.iters += 1
            arr = ('arrayref',) in ts
            for att in ATTRS:
                if arr or att != self.focus:
                    continue
                if att == 'optional':
                    om = {e[2] for e in ts if e[:2] == ('opt', 'm')}
                    of = {e[2] for e in ts if e[:2] == ('opt', 'f')}
                    okay = ('match', 'optional') in ts or (len(om) == 1 and om == of)
                elif att == 'order':
                    okay = ('match', 'order') in ts or ('unordered',) in ts
                elif att == 'intent':
                    okay = ('match', 'intent') in ts or ('notscheme',) in ts
                elif att == 'dimensions':
                    okay = ('match', 'rank') in ts
                else:
                    okay = ('match', att) in ts
                if okay:
                    self.seen.add(att)
                else:
                    ts.add(('mismatch', att))
            return st.with_ts(frozenset(ts))
        if self.focus == 'dimension-value' and is_dim_loop(ip, node):
            if ('match', 'dimensions') in ts:
                self.seen.add('dimension-value')
            else:
                ts.add(('mismatch', 'dimension-value'))
            return st.with_ts(frozenset(ts))
        return st


    def iter_break(self, ip, st, node):
        # the variables that follow are not compared
        if node is self.outer or (self.focus == 'dimension-value' and is_dim_loop(ip, node)):
            return st.with_ts(st.ts | {('mismatch', self.focus)})
        return st


def is_index(v):
    if v[0] == 'j':
        return all(is_index(x) for x in v[1])
    return v[0] == 'top' and v[1] in ('idx', 'int')


def is_rank(atom):
    return all(x[0] == 'call' and x[1] == 'len' for x in atom[1:])


def mixed(atom):
    """Membership test relating the two sides (not a side with itself)."""
    left = {s for _, s in props_of(atom[1])}
    right = {s for _, s in props_of(atom[2])}
    return ('m' in left and 'f' in right) or ('f' in left and 'm' in right)


def is_htype(v, hdr=None):
    if v[0] == 'attr' and v[2] in ('header_type', 'ptype'):
        return hdr is None or mentions(v, hdr)
    return v[0] == 'call' and v[1] in ('header_type',) and (hdr is None or mentions(v, hdr))


def count_of(v):
    """'m'/'f' if V counts (possibly adjusted) the variables of a header."""
    if v[0] == 'j':
        got = {count_of(x) for x in v[1]}
        return got.pop() if len(got) == 1 else None
    while v[0] == 'bin' and v[1] in ('Sub', 'Add'):
        v = v[2]
    if v[0] == 'j':
        return count_of(v)
    if v[0] == 'call' and v[1] == 'len' and mentions_call(v, 'variable_list'):
        return side(v)
    return None


def mentions_call(v, name):
    if not isinstance(v, (tuple, frozenset)):
        return False
    if isinstance(v, tuple) and v and v[0] == 'call' and v[1].split(".")[-1] == name:
        return True
    return any(mentions_call(x, name) for x in v if isinstance(x, (tuple, frozenset)))


def is_dim_loop(ip, node):
    """A loop over a variable's dimensions inside the analysed functions."""
    text = ast.unparse(node.iter) if isinstance(node, ast.For) else ""
    return ip.fi.name != "compare_fheader_to_mheader" and getattr(node, "_dimloop", "dim" in text)


def outer_loop(fi):
    """The loop over the metadata variables (the last outermost one)."""
    loops = [n for n in ast.walk(fi.node) if isinstance(n, (ast.For, ast.While))]
    inner = set()
    for lp in loops:
        for sub in ast.walk(lp):
            if sub is not lp and isinstance(sub, (ast.For, ast.While)):
                inner.add(sub)
    tops = [lp for lp in loops if lp not in inner]
    if not tops:
        raise AnalysisBroken("no loop over the variables in %s" % fi.ident)
    return max(tops, key=lambda n: len(list(ast.walk(n))))


def check(ctx, project):
    ctx.rule("reported", "on every path through the comparison, a variable attribute that was not found equal on "
             "the two sides (and has no documented excuse) makes the returned error text non-empty")
    ctx.rule("compared", "for each attribute some path establishes equality of the metadata value and the "
             "Fortran value (a value compared with itself establishes nothing)")
    ctx.rule("raised", "the accumulated errors are raised: no normal return with a non-empty error text, an "
             "unmatched metadata table or an unmatched Fortran table with variables")
    ctx.rule("called", "each parsed file reaches the comparison before its tables are accepted")
    fi = project.func("ccpp_capgen", "compare_fheader_to_mheader")
    params = fi.params
    args = {params[0]: META, params[1]: FORT}
    for focus in Compare.FACTS:
        rule = Compare(outer_loop(fi), focus)
        ip = Interp(project, rule)
        ip.term_limit = 200
        ip.step_limit = 3000000
        ex = ip.run(fi, args=args, ts=frozenset())
        for ident in ip.visited:
            ctx.saw(ident)
        ctx.count("paths", len(ex.ret))
        if not rule.iters or not ex.ret:
            raise AnalysisBroken("the comparison loop was not recognised")
        judge(ctx, project, fi, ip, rule, ex)
    ctx.at_least("reported", 6)
    check_raise(ctx, project)
    check_called(ctx, project)


def judge(ctx, project, fi, ip, rule, ex):
    att = rule.focus
    for inner, node, it in rule.cut:
        ctx.bad("reported", "all compared:%s" % inner.name, "the comparison does not look at all of them: %s" %
                show(it)[:200], inner.where(node))
    if att in ATTRS or att == 'dimension-value':
        ctx.check(att in rule.seen, "compared", att, "no path of the comparison establishes that %s agrees" % att,
                  fi.where())
    if att == 'count' and not any(e[0] == 'count' for st, _, _ in ex.ret for e in st.ts):
        raise AnalysisBroken("no comparison of the numbers of variables was recognised")
    if att == 'headertype' and not any(e[0] == 'headertype' for st, _, _ in ex.ret for e in st.ts):
        raise AnalysisBroken("no comparison of the table types was recognised")
    for st, val, node in ex.ret:
        nonempty = ip.const_truth(val)
        for e in sorted(st.ts, key=repr):
            if e[0] == 'mismatch':
                ctx.check(nonempty is True, "reported", e[1],
                          "%s may differ between metadata and Fortran and the comparison returns %s (%s)" %
                          (e[1], show(val)[:60], trace(st)), fi.where(node))
        if ('headertype', False) in st.ts:
            facts = [(a, v) for a, v in st.preds.items() if is_htype(a[1])]
            host = any(a[0] == 'eq' and K('host') in a[1:] and v for a, v in facts)
            ctx.check(host or nonempty is True, "reported", "table type",
                      "table types differ and no error is reported", fi.where(node))
        if ('count', False) in st.ts:
            okay = nonempty is True
            if not okay:
                # extra Fortran variables are only acceptable outside scheme tables
                okay = ('longer', 'f') in st.ts and any(
                    e[0] == 'ftype-in' and e[1][0] == 'l' and K('scheme') not in e[1][1] for e in st.ts)
            ctx.check(okay, "reported", "variable count",
                      "the numbers of variables differ and no error is reported (%s)" % trace(st), fi.where(node))


def trace(st):
    return "path: " + "; ".join("line %d %s is %s" % (l, show_atom(a)[:80], v) for l, a, v in st.trace[-6:])


class Raise(Rule):
    merge = True
    max_depth = 3
    text = False

    def __init__(self, metas, forts, loops=None):
        self.compared = 0
        self.metas, self.forts = metas, forts
        self.loops = loops
        self.found = set()

    def inline(self, fi, depth):
        return fi.module.name == "ccpp_capgen" and fi.name != "compare_fheader_to_mheader"

    def on_call(self, ip, st, node, name, target, recv, args, kwargs):
        if getattr(target, "name", name.split(".")[-1]) == "compare_fheader_to_mheader":
            self.compared += 1
            ts = st.ts | {'compared'}
            return [(st.with_ts(ts | {'errors'}), ('nes', 'errors')), (st.with_ts(ts), K(''))]
        return None

    def on_assume(self, ip, st, atom, val):
        if atom[0] == 'truth' and atom[1][0] == 'attr' and atom[1][2] == 'has_variables' and val:
            return st.with_ts(st.ts | {'orphan'})
        if val == (atom[0] != 'isnone') and atom[0] in ('eq', 'in', 'isnone', 'truth') and self.is_title(atom):
            if ip.loops:
                self.found.add(ip.loops[0])
            return st.with_ts(st.ts | {'matched'})
        return st

    def is_title(self, atom):
        """A fact relating the title of a metadata table to the Fortran tables."""
        text = set()
        for x in atom[1:]:
            if isinstance(x, tuple):
                text |= self.titles(x)
        return self.metas in text and (self.forts in text or any(
            isinstance(x, tuple) and mentions(x, self.forts) for x in atom[1:]))

    def titles(self, v):
        out = set()
        if isinstance(v, tuple) and v and v[0] == 'attr' and v[2] in ('title', 'table_name'):
            for src in (self.metas, self.forts):
                if mentions(v, src):
                    out.add(src)
            return out
        if isinstance(v, (tuple, frozenset)):
            for x in v:
                if isinstance(x, (tuple, frozenset)):
                    out |= self.titles(x)
        return out

    def iter_start(self, ip, st, node):
        if self.loops and node in self.loops:
            return st.with_ts(st.ts - {'matched'})
        return st

    def iter_end(self, ip, st, node):
        if self.loops and node in self.loops and 'matched' not in st.ts:
            return st.with_ts(st.ts | {'unmatched'})
        return st


def check_raise(ctx, project):
    fi = project.func("ccpp_capgen", "check_fortran_against_metadata")
    metas, forts = ('param', fi.params[0]), ('param', fi.params[1])
    first = Raise(metas, forts)
    Interp(project, first).run(fi, ts=frozenset())
    if not first.found:
        raise AnalysisBroken("check_fortran_against_metadata: no matching of table titles found")
    rule = Raise(metas, forts, first.found)
    ip = Interp(project, rule)
    ex = ip.run(fi, ts=frozenset())
    for ident in ip.visited:
        ctx.saw(ident)
    if not rule.compared or not ex.ret:
        raise AnalysisBroken("check_fortran_against_metadata: no comparison found")
    raised = [e for e in ex.exc if 'errors' in e[0].ts]
    ctx.check(bool(raised), "raised", "errors-found", "no path raises the accumulated errors", fi.where())
    for st, _, node in ex.ret:
        ctx.check('errors' not in st.ts, "raised", "errors-found",
                  "returns normally although the comparison found errors (%s)" % trace(st), fi.where(node))
        ctx.check('orphan' not in st.ts, "raised", "unmatched-fortran-table",
                  "returns normally although a Fortran table with variables has no metadata (%s)" % trace(st),
                  fi.where(node))
    ctx.check(any('orphan' in e[0].ts for e in ex.exc), "raised", "unmatched-fortran-table",
              "no path rejects a Fortran table without metadata", fi.where())
    for st, _, node in ex.ret:
        ctx.check('unmatched' not in st.ts, "raised", "unmatched-metadata-table",
                  "returns normally although a metadata table has no Fortran counterpart (%s)" % trace(st),
                  fi.where(node))


class Called(Rule):
    merge = True
    max_depth = 3
    text = False

    def __init__(self, reach):
        self.reach = reach
        self.loops = set()
        self.ends = []

    def inline(self, fi, depth):
        return fi.module.name == "ccpp_capgen" and fi.name not in (
            "check_fortran_against_metadata",)

    def on_call(self, ip, st, node, name, target, recv, args, kwargs):
        short = getattr(target, "name", name.split(".")[-1])
        if short == "parse_metadata_file":
            if ip.loops:
                self.loops.add(id(ip.loops[0]))
            return [(st.with_ts(st.ts | {'parsed'}), ('call', 'parse_metadata_file', None, tuple(args[:1])))]
        if short == "check_fortran_against_metadata":
            return [(st.with_ts((st.ts | {'checked'}) if 'parsed' in st.ts else st.ts), NONE)]
        return None

    def iter_end(self, ip, st, node):
        if 'parsed' in st.ts and ip.loops and ip.loops[0] is node:
            self.ends.append((st, ip.fi, node))
            return st.with_ts(st.ts - {'parsed', 'checked'})
        return st


def check_called(ctx, project):
    num = 0
    for name in ("parse_host_model_files", "parse_scheme_files"):
        fi = project.func("ccpp_capgen", name)
        rule = Called(None)
        ip = Interp(project, rule)
        ip.term_limit = 200
        ip.step_limit = 3000000
        ip.run(fi, ts=frozenset())
        for ident in ip.visited:
            ctx.saw(ident)
        if not rule.ends:
            raise AnalysisBroken("%s: no loop over the files" % name)
        for st, where, node in rule.ends:
            num += 1
            ctx.check('checked' in st.ts, "called", name,
                      "a metadata file is accepted on a path that does not compare it with its Fortran (%s)" %
                      trace(st), where.where(node))
