"""C24: schemes are called in the order, and as often, as the suite definition gives them.

The readers and writers of suites are interpreted on one suite that is known only by its structure: elements of an XML tree or parts of a
group with names, several of each kind, and a scheme that is used twice.  Everything else (variables, arguments, files) is unknown, and
a loop over something unknown is left out, with what it assigns or changes unknown after it.  What is read must be the structure, and
the calls that are written must be the schemes, in the same order."""
import ast
import re

from sa.absint import Interp, Rule, Exits, K, NONE, TRUE, FALSE, show
from sa.project import AnalysisBroken

SELF = ('param', 'self')
STORES = {'append', 'extend', 'insert', 'add', 'update', 'remove', 'pop', 'clear', 'sort', 'reverse', 'setdefault', 'discard', 'write'}


def lst(*vals):
    return ('l', tuple(vals), 'list')


def el(name):
    return ('el', name)


def text_of(val):
    """VAL as a text; what is not known is a \\0."""
    if val[0] == 'k':
        return str(val[2])
    if val[0] == 's':
        return ''.join(p if isinstance(p, str) else text_of(p) for p in val[1])
    if val[:2] == ('bin', 'Add'):
        return text_of(val[2]) + text_of(val[3])
    return '\0'


class Walk(Interp):
    """Loops over what is not known are left out."""
    stages = None

    def binop(self, op, a, b, node, aug=False):
        for seq, num in ((a, b), (b, a)):
            if op == 'Mult' and seq[0] == 'l' and num[0] == 'k' and num[1] == 'int' and 0 <= num[2] < 20:
                return ('l', seq[1] * num[2], seq[2])
        return super().binop(op, a, b, node, aug)

    def update_place(self, expr, new, st):
        """A name for a list that is kept elsewhere: the list changes there, too."""
        place = self.other_name(expr.id) if isinstance(expr, ast.Name) else None
        if place is not None:
            out = []
            for s, val in self.ev(place, st):
                if val == s.env.get(expr.id):
                    out += [s2.bind(expr.id, new) for s2 in super().update_place(place, new, s)]
                else:
                    out.append(s.bind(expr.id, new))
            return out
        return super().update_place(expr, new, st)

    def other_name(self, name):
        """The place of which NAME is another name in this function (None: there is none)."""
        found = []
        for n in ast.walk(self.fi.node):
            if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store):
                found.append(n)
        values = [n.value for n in ast.walk(self.fi.node) if isinstance(n, ast.Assign) and len(n.targets) == 1 and n.targets[0] in found]
        if len(found) == 1 and len(values) == 1 and isinstance(values[0], (ast.Subscript, ast.Attribute)) and \
                not (isinstance(values[0], ast.Subscript) and isinstance(values[0].slice, ast.Slice)):
            return values[0]
        return None

    def e_Name(self, node, st):
        if node.id == 'CCPP_STAGES' and node.id not in st.env and self.stages is not None:
            return [(st, self.stages)]
        return super().e_Name(node, st)

    def for_over(self, node, st, it):
        seq = self.seq_of(it)
        if seq is not None and not any(e[0] == 'many' for e in seq):
            return super().for_over(node, st, it)
        top = ('top', 'loop', '', node.lineno)
        for n in ast.walk(node):
            tgt = None
            if isinstance(n, (ast.Name, ast.Attribute, ast.Subscript)) and isinstance(n.ctx, ast.Store):
                tgt = n
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in STORES:
                tgt = n.func.value
            while isinstance(tgt, ast.Subscript):
                tgt = tgt.value
            if isinstance(tgt, ast.Name):
                if st.env.get(tgt.id, ('?',))[0] not in ('param', 'ob', 'el'):
                    st = st.bind(tgt.id, top)
            elif isinstance(tgt, ast.Attribute) and isinstance(tgt.value, ast.Name) and tgt.value.id in st.env:
                st = st.put((st.env[tgt.value.id], self.mangle(tgt.attr)), top)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in self.rule.events:
                st = self.rule.unknown_event(self, st, n)
        out = Exits()
        out.next = [st]
        return out


class Model(Rule):
    """Elements ('el', name) and objects ('ob', name): what is known of them is in TABLE: (name, attribute) -> value.
    ts: the events of the path, in order."""
    merge = True
    keep_none = True
    max_parts = 4000
    max_states = 4000
    calls_may_raise = False
    events = ('add_part', 'write')

    def __init__(self, table, children=None, inline=(), calls=None, wanted=None, known=None):
        self.table, self.children, self.names = table, children or {}, set(inline)
        self.calls, self.wanted, self.known = calls or {}, wanted, known
        self.problems = set()

    def inline(self, fi, depth):
        if fi.name in self.names or fi.name.startswith('_') and not fi.name.endswith('__'):
            return True
        if fi.cls is not None and depth < 4 and fi.name not in self.events + tuple(self.calls) and self.has_event(fi):
            return True
        return fi.cls is None and depth < 4 and fi.name not in self.calls and any(
                isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ('append', 'add_part') for x in ast.walk(fi.node))

    def has_event(self, fi):
        """FI writes or adds the parts of a group."""
        loop = {n.id for f in ast.walk(fi.node) if isinstance(f, (ast.For, ast.comprehension)) for n in ast.walk(f.target) if isinstance(n, ast.Name)}
        return any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in self.events and
                   (x.func.attr != 'write' or isinstance(x.func.value, ast.Name) and x.func.value.id in loop) for x in ast.walk(fi.node))

    def unknown_event(self, ip, st, node):
        """An event in a loop that was left out."""
        if node.func.attr == 'add_part' or isinstance(node.func.value, ast.Name) and node.func.value.id in ('item', 'part'):
            return st.with_ts(st.ts + ((node.func.attr, '?', '?'),))
        return st

    # ---------------------------------------------------------------- what is known
    def on_attr(self, ip, st, node, base, attr):
        if base[0] == 'item' and base[1][0] == 'el' and base[2] in (K(0), K(-1)):
            kids = self.children.get(base[1][1], ())
            base = el(kids[base[2][2]]) if kids else base
        if base[0] in ('el', 'ob') and (base[1], attr) in self.table:
            return [(st, self.table[base[1], attr])]
        if base == SELF and ('self', attr) in self.table and (base, attr) not in st.heap:
            return [(st, self.table['self', attr])]
        return None

    def seq_of(self, ip, it):
        if it[0] == 'el':
            return [el(x) for x in self.children.get(it[1], ())]
        if it[0] == 'l' and it[2] == 'set' and len(it[1]) > 1:
            return [('many', ('elem', it))]
        return None

    def oracle(self, ip, st, atom):
        if atom[0] == 'truth' and atom[1][0] == 'el':
            return bool(self.children.get(atom[1][1]))
        if atom[0] == 'isnone' and atom[1][0] in ('el', 'ob'):
            return False
        if atom[0] == 'truth' and atom[1][0] == 'ob':
            return True
        return self.known(atom) if self.known else None

    def on_call(self, ip, st, node, name, target, recv, args, kwargs):
        short = name.rsplit('.', 1)[-1]
        if recv is not None and recv[0] == 'el':
            if short == 'get' and args:
                return [(st, self.table.get((recv[1], '@' + str(args[0][2])), args[1] if len(args) > 1 else NONE))]
            if short in ('iter', 'findall', 'find', 'iterfind', 'getchildren', 'itertext', 'remove', 'insert'):
                if short == 'getchildren':
                    return [(st, recv)]
                return [(st, ('top', 'other elements', short, node.lineno))]
        if short == 'len' and args and args[0][0] == 'el':
            return [(st, K(len(self.children.get(args[0][1], ()))))]
        if short in ('list', 'tuple') and args and args[0][0] == 'el':
            return [(st, lst(*[el(x) for x in self.children.get(args[0][1], ())]))]
        if short in ('sorted', 'set', 'frozenset') and args and recv is None:
            val = args[0]
            if val[0] == 'l' and len(val[1]) < 2:
                return [(st, ('l', val[1], 'list' if short == 'sorted' else 'set'))]
            if short != 'sorted' and val[0] == 'l':
                return [(st, ('l', val[1], 'set'))]
            return [(st, ('top', 'order lost', short, node.lineno))]
        if short == 'reversed' and args:
            val = args[0]
            if val[0] == 'el':
                val = lst(*[el(x) for x in self.children.get(val[1], ())])
            if val[0] == 'l':
                return [(st, lst(*val[1][::-1]))]
            return [(st, ('top', 'order lost', short, node.lineno))]
        if short in ('sort', 'reverse') and recv is not None and recv[0] == 'l' and len(recv[1]) > 1:
            new = lst(*recv[1][::-1]) if short == 'reverse' else ('top', 'order lost', short, node.lineno)
            return [(s, NONE) for s in ip.update_place(node.func.value, new, st)]
        if short == 'insert' and recv is not None and recv[0] == 'l' and len(args) == 2 and args[0][0] == 'k' and \
                not any(e[0] == 'many' for e in recv[1]):
            new = list(recv[1])
            new.insert(args[0][2], args[1])
            return [(s, NONE) for s in ip.update_place(node.func.value, lst(*new), st)]
        if short in self.calls:
            return self.calls[short](ip, st, node, target, recv, args, kwargs)
        if short in self.events:
            return self.event(ip, st, short, recv, args, node)
        return None

    def event(self, ip, st, short, recv, args, node):
        if short == 'add_part' and args:
            return [(st.with_ts(st.ts + (('add_part', recv, args[0]),)), NONE)]
        if short == 'write' and recv is not None and recv[0] == 'ob':
            return [(st.with_ts(st.ts + (('write', recv, NONE),)), NONE)]
        if short == 'write' and args and self.wanted is not None:
            got = tuple(('call',) + m.groups() for m in self.wanted.finditer(text_of(args[0])))
            if got:
                st = st.with_ts(st.ts + got)
            return [(st, NONE)]
        return [(st, NONE)] if short == 'write' else None


def made(cls):
    """The constructor of a class: the object is what it is made from."""
    def ctor(ip, st, node, target, recv, args, kwargs):
        if kwargs.get('**', NONE)[0] == 'd' and not kwargs['**'][2]:
            kwargs = dict({k: v for k, v in kwargs.items() if k != '**'}, **{k[2]: v for k, v in kwargs['**'][1]})
        return [(st, ('made', cls, tuple(args[:1]), tuple(sorted(kwargs.items()))))]
    return ctor


def const(val):
    return lambda ip, st, node, target, recv, args, kwargs: [(st, val)]


def word(val):
    """A readable form of what was built."""
    if val[0] in ('el', 'ob'):
        return val[1]
    if val[0] == 'made':
        kw = dict(val[3])
        return "%s(%s)" % (val[1], ", ".join([word(x) for x in val[2]] + ["%s=%s" % (k, word(v)) for k, v in kw.items()]))
    if val[0] == 'l':
        return "[%s]" % ", ".join(word(x) for x in val[1])
    if val[0] == 'k':
        return str(val[2])
    if val == SELF:
        return 'self'
    return "unknown"


class Judge:
    def __init__(self, ctx):
        self.ctx = ctx

    def run(self, project, fi, model, args=None, heap=None, stages=None):
        self.ctx.saw(fi)
        ip = Walk(project, model)
        ip.stages = stages
        ex = ip.run(fi, args=args or {}, ts=(), heap=heap or {})
        if not ex.ret:
            raise AnalysisBroken("%s never returns" % fi.ident)
        self.ctx.count("paths", len(ex.ret))
        return ex

    def same(self, rule, fi, what, paths, expected):
        """Every path must give EXPECTED."""
        bad = sorted({g for g in paths if g != expected}, key=repr)
        if bad:
            self.ctx.bad(rule, "%s %s" % (fi.ident, what), "%s: %s, should be %s" % (what, str(bad[0])[:300], str(expected)[:300]), fi.where(fi.node))
        else:
            self.ctx.ok(rule, "%s %s" % (fi.ident, what), fi.where(fi.node))


# ------------------------------------------------------------------------------------------ ccpp_prebuild
def prebuild_tree():
    """A suite of ccpp_prebuild: (table, children)."""
    table, kids = {}, {}

    def add(who, kind, text=None, sub=(), **attrs):
        table[who, 'tag'] = K(kind)
        table[who, 'text'] = K(text) if text else K('\n')
        table[who, 'attrib'] = ('d', tuple((K(k), K(v)) for k, v in attrs.items()), False)
        for k, v in attrs.items():
            table[who, '@' + k] = K(v)
        kids[who] = tuple(sub)
    add('root', 'suite', sub=('i', 'g1', 'g2', 'f'), name='su')
    add('i', 'init', 'ini')
    add('f', 'finalize', 'fin')
    add('g1', 'group', sub=('c1', 'c2'), name='one')
    add('g2', 'group', sub=('c3',), name='two')
    add('c1', 'subcycle', sub=('s1', 's2', 's6'), loop='1')
    add('c2', 'subcycle', sub=('s3', 's4'), loop='3')
    add('c3', 'subcycle', sub=('s5',), loop='2')
    for s, name in (('s1', 'zed'), ('s2', 'alf'), ('s3', 'mid'), ('s4', 'zed'), ('s5', 'alf'), ('s6', 'zed')):
        add(s, 'scheme', name)
    return table, kids


def cycle(loop, *schemes):
    return (loop, schemes)


WANT_PRE = (("init", (cycle(1, 'ini'),), True, False), ("one", (cycle(1, 'zed', 'alf', 'zed'), cycle(3, 'mid', 'zed')), False, False),
            ("two", (cycle(2, 'alf'),), False, False), ("finalize", (cycle(1, 'fin'),), False, True))


def group_of(val):
    """A Group that was made, in the form of WANT_PRE."""
    if val[0] != 'made' or val[1] != 'Group':
        return word(val)
    kw = dict(val[3])
    subs = kw.get('subcycles', NONE)
    cycles = []
    for c in subs[1] if subs[0] == 'l' else (subs,):
        if c[0] != 'made':
            cycles.append(word(c))
            continue
        ck = dict(c[3])
        sch = ck.get('schemes', NONE)
        cycles.append((ck.get('loop', NONE)[2] if ck.get('loop', NONE)[0] == 'k' else word(ck.get('loop', NONE)),
                       tuple(x[2] if x[0] == 'k' else word(x) for x in sch[1]) if sch[0] == 'l' else word(sch)))
    return (word(kw.get('name', NONE)), tuple(cycles), kw.get('init', FALSE) == TRUE, kw.get('finalize', FALSE) == TRUE)


def prebuild_read(jud, project):
    cls = project.cls('mkstatic', 'Suite')
    fi = cls.methods.get('parse')
    if fi is None:
        raise AnalysisBroken("mkstatic.Suite.parse not found")
    table, kids = prebuild_tree()
    calls = {'getroot': const(el('root')), 'Group': made('Group'), 'Subcycle': made('Subcycle'), 'exists': const(TRUE)}
    tree = ('ob', 'tree')
    calls['parse'] = const(tree)
    for flag in (TRUE, FALSE):
        model = Model(table, kids, calls=calls, inline=())
        heap = {(SELF, '_call_tree'): ('d', (), False), (SELF, '_sdf_name'): K('suite_su.xml')}
        ex = jud.run(project, fi, model, {'make_call_tree': flag}, heap)
        good = [st for st, val, _ in ex.ret if val != FALSE]
        if not good:
            raise AnalysisBroken("mkstatic.Suite.parse never succeeds on the model suite")
        got = []
        for st in good:
            groups = st.heap.get((SELF, '_groups'), NONE)
            got.append(tuple(group_of(g) for g in groups[1]) if groups[0] == 'l' else word(groups))
        jud.same("read", fi, "groups, subcycles and schemes", got, WANT_PRE)
        if flag == TRUE:
            got = []
            for st in good:
                tree_ = st.heap.get((SELF, '_call_tree'), NONE)
                got.append(tuple(sorted((word(k), word(v)) for k, v in tree_[1])) if tree_[0] == 'd' else word(tree_))
            jud.same("read", fi, "call tree", got, (("one", "[zed, alf, zed, mid, zed, mid, zed, mid, zed]"), ("two", "[alf, alf]")))


def stage_table(project):
    pairs = []
    for node in project.mod('common').tree.body:
        if isinstance(node, ast.Assign) and ast.unparse(node.targets[0]).startswith('CCPP_STAGES[') and \
                isinstance(node.targets[0].slice, ast.Constant) and isinstance(node.value, ast.Constant):
            pairs.append((K(node.targets[0].slice.value), K(node.value.value)))
    if not any(k == K('run') for k, _ in pairs):
        raise AnalysisBroken("the phases were not found")
    return ('d', tuple(pairs), False)


def prebuild_suite(jud, project, stages):
    fi = project.cls('mkstatic', 'Suite').methods.get('write')
    if fi is None:
        raise AnalysisBroken("mkstatic.Suite.write not found")
    table = {}
    for name, init, final in (('init', TRUE, FALSE), ('zwei', FALSE, FALSE), ('eins', FALSE, FALSE), ('finalize', FALSE, TRUE)):
        table.update({(name, 'name'): K(name), (name, 'init'): init, (name, 'finalize'): final,
                      (name, 'update_cap'): TRUE, (name, 'filename'): K('f'), (name, 'subroutines'): lst(), (name, 'module'): K('m')})
    groups = lst(*[('ob', n) for n in ('init', 'zwei', 'eins', 'finalize')])
    free = ('l', (('top', 'a', '', 1), ('top', 'b', '', 1), ('top', 'c', '', 1)), 'tuple')
    calls = {'create_arguments_module_use_var_defs': const(free), 'create_argument_list_wrapped': const(('top', 'args', '', 1)),
             'create_argument_list_wrapped_explicit': const(('top', 'args', '', 1))}
    model = Model(table, calls=calls, wanted=re.compile(r"ierr\s*=\s*su_([a-z\0]+)_([a-z\0]+)_cap\s*\("))
    model.events = ('write',)
    heap = {(SELF, '_groups'): groups, (SELF, '_name'): K('su')}
    want = []
    for k, v in stages[1]:
        want += [('call', n, v[2]) for n in ('init', 'zwei', 'eins', 'finalize') if n not in ('init', 'finalize') or n == k[2]]
    ex = jud.run(project, fi, model, heap=heap, stages=stages)
    first = tuple(('write', ('ob', n), NONE) for n in ('init', 'zwei', 'eins', 'finalize'))
    got = {tuple(e for e in st.ts if e[0] == 'call') for st, _, _ in ex.ret}
    jud.same("call", fi, "groups called in each phase", got, tuple(want))
    got = {tuple(e for e in st.ts if e[0] == 'write') for st, _, _ in ex.ret}
    jud.same("call", fi, "group caps written", got, first)


def prebuild_group(jud, project, stages):
    fi = project.cls('mkstatic', 'Group').methods.get('write')
    if fi is None:
        raise AnalysisBroken("mkstatic.Group.write not found")
    table = {('c1', 'schemes'): lst(K('zed'), K('alf'), K('zed')), ('c1', 'loop'): K(1), ('c2', 'schemes'): lst(K('mid'), K('zed')), ('c2', 'loop'): K(3)}

    def known(atom):
        """Each scheme has arguments in each phase."""
        if "('param', 'arguments')" in repr(atom):
            return True
        return None
    model = Model(table, wanted=re.compile(r"call\s+([a-z]+)_(%s)\s*\(" % "|".join(sorted((k[2] for k, _ in stages[1]), key=len, reverse=True))),
                  known=known)
    model.events = ('write',)
    cycles = lst(('ob', 'c1'), ('ob', 'c2'))
    for k, _ in stages[1]:
        heap = {(SELF, '_subcycles'): cycles, (SELF, '_init'): FALSE, (SELF, '_finalize'): FALSE, (SELF, '_name'): K('one'), (SELF, '_suite'): K('su')}
        ex = jud.run(project, fi, model, heap=heap, stages=('d', tuple(p for p in stages[1] if p[0] == k), False))
        got = {tuple(e for e in st.ts if e[0] == 'call') for st, _, _ in ex.ret}
        jud.same("call", fi, "schemes called in phase %s" % k[2], got, tuple(('call', n, k[2]) for n in ('zed', 'alf', 'zed', 'mid', 'zed')))


# ------------------------------------------------------------------------------------------ ccpp_capgen
def capgen_tree():
    table, kids = {}, {}

    def add(who, kind, text=None, sub=(), **attrs):
        table[who, 'tag'] = K(kind)
        table[who, 'text'] = K(text) if text else K('\n')
        table[who, 'name'] = K(who)
        for k, v in attrs.items():
            table[who, '@' + k] = K(v)
        kids[who] = tuple(sub)
    add('root', 'suite', sub=('i', 'g1', 'g2', 'f'), name='su')
    add('i', 'init', 'ini')
    add('f', 'final', 'fin')
    add('g1', 'group', sub=('s1', 'c1', 's2', 's1b'), name='one')
    add('g2', 'group', sub=('ts',), name='two')
    add('g3', 'group', sub=(), name='three')
    add('ts', 'time_split', sub=('s2', 's1'))
    add('new', 'time_split', sub=())
    add('c1', 'subcycle', sub=('s3', 's4'), loop='2', name='cyc')
    for s, name in (('s1', 'zed'), ('s1b', 'zed'), ('s2', 'alf'), ('s3', 'mid'), ('s4', 'zed')):
        add(s, 'scheme', name)
    return table, kids


def capgen_read(jud, project):
    table, kids = capgen_tree()
    tag = project.mod('suite_objects').tree
    names = {n.targets[0].id: n.value.value for n in tag.body if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and
             isinstance(n.value, ast.Constant)}
    ts_tag = names.get('_API_TIMESPLIT_TAG')
    if ts_tag is None:
        raise AnalysisBroken("the tag of time split was not found")
    for n in ('ts', 'new'):
        table[n, 'tag'] = K(ts_tag)

    def ctor(cls):
        return lambda ip, st, node, target, recv, args, kwargs: [(st, ('made', cls, (args[0] if args else kwargs.get('item', NONE),), ()))]
    calls = {'Scheme': ctor('Scheme'), 'Subcycle': ctor('Subcycle'), 'TimeSplit': ctor('TimeSplit'), '__init__': const(NONE), 'fromstring': const(el('new')),
             'transitions': const(lst(K('initialize'), K('run')))}
    inline = ('new_suite_object',)
    so = 'suite_objects'

    def parts(ex, target, where):
        return {tuple((('to ' + word(e[1]) + ': ') if e[1] != target else '') + word(e[2]) for e in st.ts if e[0] == 'add_part') for st, _, _ in ex.ret}

    def known(atom):
        if atom[0] == 'in' and atom[1][0] == 'k' and 'process_types' in repr(atom[2]):
            return atom[1][2] in (ts_tag, names.get('_API_PROCESSSPLIT_TAG'))
        return None

    def one(fi, args, what, expected):
        ex = jud.run(project, fi, Model(table, kids, inline=inline, calls=calls, known=known), args)
        jud.same("read", fi, what, parts(ex, SELF, fi), expected)
    grp = project.cls(so, 'Group').methods.get('__init__')
    inner = "TimeSplit(new)"
    run = K('run')
    t = 'to %s: ' % inner
    one(grp, {'group_xml': el('g1'), 'transition': run}, "a group of the run phase",
        (inner, t + 'Scheme(s1)', t + 'Subcycle(c1)', t + 'Scheme(s2)', t + 'Scheme(s1b)'))
    one(grp, {'group_xml': el('g2'), 'transition': run}, "a group with a time split", ('TimeSplit(ts)',))
    one(grp, {'group_xml': el('g1'), 'transition': K('initialize')}, "a group of another phase",
        ('Scheme(s1)', 'Subcycle(c1)', 'Scheme(s2)', 'Scheme(s1b)'))
    one(project.cls(so, 'TimeSplit').methods['__init__'], {'sub_xml': el('ts')}, "parts of a time split", ('Scheme(s2)', 'Scheme(s1)'))
    one(project.cls(so, 'Subcycle').methods['__init__'], {'sub_xml': el('c1')}, "parts of a subcycle", ('Scheme(s3)', 'Scheme(s4)'))
    # the suite
    fi = project.cls('ccpp_suite', 'Suite').methods['parse']

    def new_group(ip, st, node, target, recv, args, kwargs):
        return [(st, ('made', 'Group', (args[0],), ()))]

    def phase(ip, st, node, target, recv, args, kwargs):
        return [(st, {K('init'): K('initialize'), K('final'): K('finalize')}.get(args[0], NONE) if args else NONE)]
    full = ('d', ((K('initialize'), ('ob', 'pinit')), (K('finalize'), ('ob', 'pfinal'))), False)
    sc = dict(calls)
    sc.update({'read_xml_file': const(('l', (NONE, el('root')), 'tuple')), 'new_group': new_group, 'new_group_from_name': const(('ob', 'phase group')),
               'transition_match': phase, 'validate_xml_file': const(TRUE)})
    priv = '_Suite__groups'
    ex = jud.run(project, fi, Model(table, kids, calls=sc), heap={(SELF, priv): lst(), (SELF, '_full_phases'): full})
    got = set()
    for st, _, _ in ex.ret:
        groups = st.heap.get((SELF, priv), NONE)
        got.add(tuple(word(g) for g in groups[1] if g != ('ob', 'phase group')) if groups[0] == 'l' else word(groups))
    jud.same("read", fi, "groups", got, ('Group(g1)', 'Group(g2)'))
    jud.same("read", fi, "schemes of the suite", parts(ex, SELF, fi), ('to pinit: Scheme(i)', 'to pfinal: Scheme(f)'))


def capgen_phases(jud, project):
    """The schemes of a suite get into the groups of the phases they have."""
    fi = project.cls('ccpp_suite', 'Suite').methods['analyze']
    table = {('s_zed', 'name'): K('zed'), ('s_alf', 'name'): K('alf'), ('s_zed2', 'name'): K('zed')}
    schemes = {'run1': lst(('ob', 's_zed'), ('ob', 's_alf')), 'run2': lst(('ob', 's_zed2')), 'pinit': lst(), 'pfinal': lst()}

    def of_group(ip, st, node, target, recv, args, kwargs):
        return [(st, schemes[recv[1]])] if recv is not None and recv[0] == 'ob' and recv[1] in schemes else None
    lib = ('d', tuple((K(n), ('d', tuple((K(p), ('ob', n + '_' + p)) for p in ph), False)) for n, ph in (
        ('zed', ('run', 'initialize')), ('other', ('run', 'initialize', 'finalize')), ('alf', ('finalize', 'initialize', 'run')))), False)
    full = ('d', ((K('initialize'), ('ob', 'pinit')), (K('finalize'), ('ob', 'pfinal'))), False)
    adds = {('pinit', 'zed'), ('pinit', 'alf'), ('pfinal', 'alf')}

    def scheme_in(val):
        m = re.search(r"<scheme>\s*(\w+)\s*</scheme>", word(val))
        return m.group(1) if m else word(val)
    for there in (set(), {('pinit', 'zed')}, {('pfinal', 'alf')}, adds):
        want = {"to %s: %s" % x for x in adds - there}

        def has_item(ip, st, node, target, recv, args, kwargs, there=there):
            """A group has the schemes that were there and those that were added."""
            if recv is None or recv[0] != 'ob' or not args or args[0][0] != 'k':
                return None
            now = {(e[1][1], scheme_in(e[2])) for e in st.ts if e[0] == 'add_part' and e[1] is not None and e[1][0] == 'ob'}
            return [(st, TRUE if (recv[1], args[0][2]) in there | now else FALSE)]
        calls = {'schemes': of_group, 'has_item': has_item, 'fromstring': lambda ip, st, node, t, r, a, k: [(st, ('made', 'xml', (a[0],), ()))],
                 'Scheme': lambda ip, st, node, t, r, a, k: [(st, ('made', 'Scheme', (a[0],), ()))], 'analyze': const(NONE),
                 'variable_list': const(lst()), 'argument_list': const(lst())}
        groups = lst(*[('ob', n) for n in ('pinit', 'run1', 'run2', 'pfinal')])
        model = Model(dict(table, **{}), calls=calls)
        model.table['self', 'groups'] = groups
        heap = {(SELF, '_Suite__groups'): groups, (SELF, '_full_phases'): full}
        ex = jud.run(project, fi, model, {'scheme_library': lib}, heap)
        got = []
        for st, _, _ in ex.ret:
            got.append(tuple(sorted("to %s: %s" % (word(e[1]), scheme_in(e[2])) for e in st.ts)))
        jud.same("phases", fi, "schemes added to the groups of their phases" + (", if %s is there" % sorted(there) if there else ""), got, tuple(sorted(want)))


def capgen_parts(jud, project):
    """add_part puts an item at the end, parts returns them all."""
    cls = project.cls('suite_objects', 'SuiteObject')
    fi = cls.methods['add_part']
    own = (SELF, '_SuiteObject__parts')
    item = ('ob', 'new')
    table = {('new', 'needs_vertical'): NONE, ('new', 'name'): K('n')}
    for have in ((), ('p1',), ('p1', 'p2')):
        objs = tuple(('ob', n) for n in have)
        model = Model(table, known=lambda a: False if a[0] in ('in', 'eq') and item in a[1:] else None, calls={'reset_parent': const(NONE)})
        model.events = ()
        ex = jud.run(project, fi, model, {'item': item, 'replace': FALSE}, {own: ('l', objs, 'list')})
        got = {word(st.heap.get(own, NONE)) for st, _, _ in ex.ret}
        jud.same("kept", fi, "an item added to %d parts" % len(have), got, word(lst(*(objs + (item,)))))
    fi = cls.methods['parts']
    model = Model({})
    ex = jud.run(project, fi, model, {}, {own: lst(('ob', 'p2'), ('ob', 'p1'))})
    jud.same("kept", fi, "all parts in order", {word(v) for _, v, _ in ex.ret}, '[p2, p1]')
    # nobody else changes the order
    for f in cls.methods.values():
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('sort', 'reverse') and \
                    isinstance(n.func.value, ast.Attribute) and n.func.value.attr.endswith('__parts'):
                jud.ctx.bad("kept", f.ident, "the parts are put into another order", f.where(n))


def capgen_write(jud, project):
    so = 'suite_objects'
    parts = lst(('ob', 'p2'), ('ob', 'p1'), ('ob', 'p3'))
    want = tuple(('write', p, NONE) for p in parts[1])
    for cname in ('TimeSplit', 'Subcycle', 'VerticalLoop', 'Group'):
        fi = project.cls(so, cname).methods['write']
        for given in (({'suite_vars': ('ob', 'vars'), 'allocate': a, 'deallocate': d} for a in (TRUE, FALSE) for d in (TRUE, FALSE)) if cname == 'Group' else ({},)):
            model = Model({('self', 'parts'): parts, ('self', 'loop'): ('top', 'loop', '', 1), ('self', 'dimension_name'): ('top', 'dim', '', 1)})
            model.merge_over = 40
            model.events = ('write',)
            ex = jud.run(project, fi, model, {k: v for k, v in given.items() if k in fi.params})
            jud.same("call", fi, "parts written", {tuple(e for e in st.ts if e[0] == 'write') for st, _, _ in ex.ret}, want)
    fi = project.cls(so, 'Scheme').methods['write']
    model = Model({('self', '_Scheme__subroutine_name'): K('zed_run'), ('self', 'subroutine_name'): K('zed_run')}, wanted=re.compile(r"^\s*call\s+([\w\0]+)"))
    model.events = ('write',)
    model.merge_over = 40
    ex = jud.run(project, fi, model)
    calls = [(tuple(e for e in st.ts if e[0] == 'call'), st.preds) for st, _, _ in ex.ret]
    # a scheme without a routine in the phase is left out
    flags = [{a for a, v in preds.items() if v is bool(got) and a[0] == 'truth' and a[1][:2] == ('attr', SELF)} for got, preds in calls]
    missing = any(not got for got, _ in calls) and not set.intersection(*flags)
    jud.same("call", fi, "routine called", {got for got, _ in calls if got or missing}, (('call', 'zed_run'),))


def check(ctx, project):
    ctx.rule("read", "groups, subcycles and schemes are read in the order of the suite definition, each once")
    ctx.rule("kept", "a part is added at the end of its group; the parts of a group are given in that order")
    ctx.rule("phases", "a scheme of the suite is added to the group of each phase it has a routine for, once")
    ctx.rule("call", "the routines of the parts are called in their order, each once")
    jud = Judge(ctx)
    stages = stage_table(project)
    prebuild_read(jud, project)
    prebuild_suite(jud, project, stages)
    prebuild_group(jud, project, stages)
    capgen_read(jud, project)
    capgen_phases(jud, project)
    capgen_parts(jud, project)
    capgen_write(jud, project)
