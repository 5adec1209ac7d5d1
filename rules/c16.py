"""C16: what a host has only under a condition is touched only where the condition holds.

The writers of generated code are interpreted with the properties of a variable, the variable found under a standard name and the
condition of a variable as terms of their own.  Of what is written the open IF blocks are kept; every line which names the variable
has to lie in one on its condition."""
import ast

from sa.absint import Interp, Rule, K, TRUE, FALSE, NONE, fragment, mentions, show
from sa.project import AnalysisBroken

MOD = "suite_objects"


def P(name):
    return ('param', name)


def short(name):
    return name.split(".")[-1]


def prop(var, name):
    return ('prop', var, name)


def parts_of(val):
    return val[1] if val[0] == 's' else (val[2],) if val[:2] == ('k', 'str') else (val,)


def lit(part):
    return part if isinstance(part, str) else None


def strip(parts):
    """PARTS without the blanks at both ends."""
    parts = list(parts)
    while parts and lit(parts[0]) is not None and not lit(parts[0]).strip():
        parts.pop(0)
    while parts and lit(parts[-1]) is not None and not lit(parts[-1]).strip():
        parts.pop()
    if parts and lit(parts[0]) is not None:
        parts[0] = lit(parts[0]).lstrip()
    if parts and lit(parts[-1]) is not None:
        parts[-1] = lit(parts[-1]).rstrip()
    return tuple(parts)


def line_of(parts):
    return "".join(p if lit(p) is not None else show(p) for p in parts)[:80]


def opens(parts):
    """The condition of an `if (...) then`."""
    if parts and lit(parts[0]) is not None and lit(parts[-1]) is not None:
        head, tail = lit(parts[0]).lower(), lit(parts[-1]).lower()
        if len(parts) == 1:
            return (head,) if head.startswith('if') and head.endswith('then') and '(' in head else None
        if head.replace(' ', '').startswith('if(') and tail.replace(' ', '').endswith(')then'):
            first = lit(parts[0])[head.index('(') + 1:]
            last = lit(parts[-1])[:tail.rindex(')')]
            return tuple(p for p in (first,) + parts[1:-1] + (last,) if lit(p) is None or lit(p).strip(' ()'))
    return None


def holds(st, cond):
    """Is the condition known to hold where ST writes?"""
    stack = [x[1] for x in st.ts if x[0] == 'stack']
    if stack and any(blk == (cond,) for blk in stack[0]):
        return True
    return any(a[0] == 'eq' and v is True and {a[1], a[2]} == {cond, K('.true.')} for a, v in st.preds.items())


class Lines(Rule):
    """The lines written to the output file."""
    merge = True
    keep_none = True
    merge_over = 1
    text = True
    max_depth = 4
    keepers = ()

    def __init__(self):
        self.bad = []
        self.n = 0

    def inline(self, fi, depth):
        return fi.module.name == MOD and fi.name not in self.keepers

    def oracle(self, ip, st, atom):
        # find_variable is mocked to find
        if atom[0] in ('isnone', 'truth') and atom[1][0] in ('var', 'cond'):
            return atom[0] == 'truth'
        # a variable has a name
        if atom[0] == 'truth' and atom[1][0] == 'prop' and atom[1][2].endswith('_name'):
            return True
        return None

    def on_call(self, ip, st, node, name, target, recv, args, kwargs):
        name = short(name)
        if name == 'get_prop_value' and recv is not None and args and args[0][0] == 'k':
            return [(st, prop(recv, args[0][2]))]
        if name == 'conditional' and recv is not None:
            return [(st, ('l', (('cond', recv), ('needed', recv)), 'tuple'))]
        if name == 'find_variable':
            std = kwargs.get('standard_name', args[0] if args else None)
            if std is not None:
                return [(st, ('var', std))]
        if name == 'write' and recv is not None and self.is_file(recv) and args:
            return [(self.wrote(ip, st, node, args[0]), NONE)]
        if name == 'comment':
            return [(st, NONE)]
        return self.call(ip, st, node, name, recv, args, kwargs)

    def is_file(self, recv):
        return recv[0] == 'param' and 'file' in recv[1] or recv == P('outfile')

    def call(self, ip, st, node, name, recv, args, kwargs):
        return None

    def wrote(self, ip, st, node, text):
        parts = strip(parts_of(text))
        if not parts:
            return st
        stack = ([x[1] for x in st.ts if x[0] == 'stack'] or [()])[0]
        rest = frozenset(x for x in st.ts if x[0] != 'stack')
        head = lit(parts[0])
        if len(parts) == 1 and head is not None and head.lower().replace(' ', '') == 'endif':
            return st.with_ts(rest | {('stack', stack[:-1])})
        if head is not None and head.startswith('!'):
            return st
        cond = opens(parts)
        st = self.line(ip, st, node, parts)
        if cond is not None:
            st = st.with_ts(frozenset(x for x in st.ts if x[0] != 'stack') | {('stack', stack + (cond,))})
        return st

    def line(self, ip, st, node, parts):
        return st

    def fault(self, ip, node, what):
        if all((what, node.lineno) != b[:2] for b in self.bad):
            self.bad.append((what, node.lineno, ip.fi.where(node)))


def method(project, mod, cls, name):
    fi = project.cls(mod, cls).methods.get(name)
    if fi is None:
        raise AnalysisBroken("%s.%s not found" % (cls, name))
    return fi


# ----------------------------------------------------------------- the call of a scheme
def roots(val, out):
    """The elements of the lists of the scheme VAL is made of."""
    if isinstance(val, tuple):
        if val[:1] == ('elem',) and val[1][0] == 'attr' and val[1][1] == P('self'):
            out.add(val)
            return out
        for x in val:
            roots(x, out)
    return out


class Write(Lines):
    """Scheme.write: optional variables and transformations."""
    keepers = ('write_var_debug_check', 'optional_var_condition', 'call_string')

    def __init__(self, opt, places, std_at):
        super().__init__()
        self.opt = ('attr', P('self'), opt)
        self.places, self.std_at = places, std_at      # what is where in its elements; where the transformations keep the standard name
        self.el = ('elem', self.opt)
        self.host, self.var, self.moved = (('item', self.el, K(places[x])) for x in ('host', 'var', 'moved'))
        self.name = ('var', prop(self.var, 'standard_name'))
        self.loops, self.joins, self.calls = set(), [], []
        self.lines = self.transforms = 0

    def call(self, ip, st, node, name, recv, args, kwargs):
        if name == 'optional_var_condition':
            return [(st, ('when', args[0] if args else kwargs.get('standard_name')))]
        if name == 'call_string':
            return [(st, ('arguments',))]
        if name in ('forward_transform', 'reverse_transform'):
            return [(st, ('transform', recv))]
        if name == 'write_var_debug_check':
            return [(st, NONE)]
        return None

    def on_iter(self, ip, st, node, it):
        if self.whole(it):
            self.loops.add((ip.fi.ident, node.lineno))

    def whole(self, val):
        """Is VAL made of the list, not of its elements?"""
        return val == self.opt or val != self.el and isinstance(val, tuple) and any(self.whole(x) for x in val)

    def iter_start(self, ip, st, node):
        if (ip.fi.ident, node.lineno) not in self.loops:
            return st
        return st.with_ts(frozenset(x for x in st.ts if x[0] not in ('joined', 'excused', 'took')))

    def on_assume(self, ip, st, atom, val):
        if atom == ('truth', self.moved):
            return st.with_ts(st.ts | {('took', atom, val)})
        if atom in (('truth', self.host), ('truth', prop(self.name, 'optional'))) and not val or atom == ('isnone', self.host) and val:
            return st.with_ts(st.ts | {('excused',)})
        return st

    def iter_end(self, ip, st, node):
        loop = (ip.fi.ident, node.lineno)
        if loop not in self.loops:
            return st
        rest = frozenset(x for x in st.ts if x[0] not in ('joined', 'excused', 'took'))
        if ('joined',) in st.ts:
            return st.with_ts(rest | {('all', loop)})
        if ('excused',) in st.ts:
            return st.with_ts(rest)
        return st.with_ts(rest | {('left', loop)})

    def line(self, ip, st, node, parts):
        if opens(parts) is not None:
            return st
        els = roots(parts, set())
        head = lit(parts[0])
        if head is not None and head.lower().startswith('call ') and ('arguments',) in parts:
            self.calls.append((st.ts, ip.fi.where(node)))
        elif self.el in els:
            self.lines += 1
            if any(lit(p) is not None and '=>' in lit(p) for p in parts):
                self.joins.append((parts, st, ip.fi.where(node)))
                st = st.with_ts(st.ts | {('joined',)})
            if not holds(st, ('cond', self.host)):
                self.fault(ip, node, "a line that names an optional variable is not in a block on the condition of the variable")
        for el in els:
            if el[1][2] in self.std_at and any(lit(p) is None and p[0] == 'transform' for p in parts):
                self.transforms += 1
                cond = ('when', ('item', el, K(self.std_at[el[1][2]])))
                if not holds(st, cond) and st.preds.get(('truth', cond)) is not False and st.preds.get(('isnone', cond)) is not True:
                    self.fault(ip, node, "a transformation is not in a block on the condition of its variable")
        return st


def pointer_of(rule, parts, st):
    """Does `pointer => target` join the group's pointer of the variable to its variable, or to the transformed copy?"""
    own = prop(rule.name, 'local_name')
    text = []
    for p in parts:
        one = lit(p)
        if one is None:
            text.append(p)
        else:
            text += [x for x in one.replace('=>', ' => ').split() if x]
    if text == [own, '_ptr', '=>', own]:
        return True, ('took', ('truth', rule.moved), False) in st.ts
    if text == [own, '_ptr', '=>', prop(rule.var, 'local_name'), '_local']:
        return True, ('took', ('truth', rule.moved), True) in st.ts
    return text[:3] == [own, '_ptr', '=>'], False


def check_write(ctx, project, opt, places, std_at):
    fi = method(project, MOD, 'Scheme', 'write')
    ctx.saw(fi)
    rule = Write(opt, places, std_at)
    Interp(project, rule).run(fi, ts=frozenset())
    if not rule.calls:
        raise AnalysisBroken("Scheme.write does not write the call of the scheme")
    if not rule.transforms or not rule.lines:
        raise AnalysisBroken("Scheme.write writes no transformations or names no optional variables")
    for what, _, where in rule.bad:
        ctx.bad("guarded", "Scheme.write: " + what, what, where)
    if not rule.bad:
        ctx.ok("guarded", "Scheme.write", fi.where())
    ctx.count("lines of Scheme.write", rule.lines + rule.transforms)
    loops = {x[1] for ts, _ in rule.calls for x in ts if x[0] == 'all'}
    whole = [lp for lp in loops if not any(('left', lp) in ts for ts, _ in rule.calls)]
    ctx.check(bool(whole), "pointer", "before the call", "a scheme may be called before the pointers to its optional arguments are associated, "
              "or one of them is left out", rule.calls[0][1])
    for parts, st, where in rule.joins:
        ptr, target = pointer_of(rule, parts, st)
        ctx.check(ptr, "pointer", "name at line of " + line_of(parts), "the pointer that is associated is not the one "
                  "of the group's variable with the standard name of the argument", where)
        ctx.check(target, "pointer", "target at line of " + line_of(parts), "the pointer is not associated with the "
                  "group's variable of that standard name, or its transformed copy where there is one", where)


# ----------------------------------------------------------------- what is passed, and declared
class Args(Lines):
    """CallList.call_string: the actual arguments."""
    keepers = ('is_suite_variable',)

    def __init__(self):
        super().__init__()
        self.loops = set()

    def call(self, ip, st, node, name, recv, args, kwargs):
        if name == 'variable_list':
            return [(st, ('vars',))]
        return None

    def on_iter(self, ip, st, node, it):
        if mentions(it, ('vars',)):
            self.loops.add(id(node))

    def iter_start(self, ip, st, node):
        return st.with_ts(frozenset(x for x in st.ts if x[0] != 'took')) if id(node) in self.loops else st

    def on_assume(self, ip, st, atom, val):
        if atom[0] == 'truth' and atom[1][0] == 'prop' and atom[1][2] == 'optional':
            return st.with_ts(st.ts | {('took', atom, val)})
        return st

    def oracle(self, ip, st, atom):
        if atom[0] == 'in' and mentions(atom[1], 'standard_name') and atom[1][0] == 'prop':
            return False
        return super().oracle(ip, st, atom)


def names_in(val, out):
    """The texts an argument list may hold."""
    if val[0] == 'j':
        for x in val[1]:
            names_in(x, out)
    elif val[0] == 's':
        out.append(val[1])
    return out


class Store(Args):
    """The variables of call_string after each argument."""
    def __init__(self):
        super().__init__()
        self.seen = []

    def on_bound(self, ip, st, node, name, val):
        if val[0] == 's' and any(lit(p) is not None and '=' in lit(p) for p in val[1]):
            self.seen.append((st, val, ip.fi.where(node)))
        return st


def check_args(ctx, project):
    fi = method(project, MOD, 'CallList', 'call_string')
    ctx.saw(fi)
    rule = Store()
    rule.max_parts = 60
    args = {p: P(p) for p in fi.params}
    args.update({'is_func_call': TRUE, 'cldicts': ('l', (('home', 0), ('many', ('home', 1))), 'list')})
    Interp(project, rule).run(fi, args=args, ts=frozenset())
    var = ('elem', ('vars',))
    dvar = ('var', prop(var, 'standard_name'))
    n = {True: 0, False: 0}
    for st, val, where in rule.seen:
        took = {x[1:] for x in st.ts if x[0] == 'took'}
        both = all((('truth', prop(y, 'optional')), True) in took for y in (var, dvar))
        n[both] += 1
        last = max(i for i, p in enumerate(val[1]) if lit(p) is not None and '=' in lit(p))
        tails = alternatives(val[1][last + 1:])
        ptr = [x for x in tails if any(lit(p) is not None and p.startswith('_ptr') for p in x)]
        if both:
            ok = len(ptr) == len(tails) and all(x[0] == prop(dvar, 'local_name') and x[1].startswith('_ptr') for x in ptr)
            ctx.check(ok, "pointer", "argument that is optional", "an optional argument is not passed as the pointer of the group's variable "
                      "with its standard name", where)
        else:
            ctx.check(not ptr, "pointer", "argument that is not optional", "an argument which is not optional for the scheme and the group "
                      "is passed as a pointer", where)
    if not n[True] or not n[False]:
        raise AnalysisBroken("call_string: the arguments were not followed")


def alternatives(parts):
    """The texts PARTS may be, each as a tuple of parts."""
    out = [()]
    for p in parts:
        if lit(p) is not None:
            more = [(p,)]
        elif p[0] == 's':
            more = alternatives(p[1])
        elif p[0] == 'j':
            more = [x for alt in p[1] for x in alternatives((alt,))]
        elif p[:2] == ('k', 'str'):
            more = [(p[2],)]
        elif p[:2] == ('bin', 'Add'):
            more = alternatives(tuple(p[2:]))
        else:
            more = [(p,)]
        out = [a + b for a in out for b in more][:64]
    return out


class Declare(Lines):
    """Group.write: the local pointers."""
    keepers = ('write', 'call_string', 'declare_variables', 'allocate_dim_str', 'declarations')
    text = True
    liveness = True
    join_lists = True

    def __init__(self):
        super().__init__()
        self.named, self.missed, self.ready = [], None, []
        self.loops = set()

    def slice_events(self, fi):
        def event(n):
            return isinstance(n.func, ast.Attribute) and (
                n.func.attr in ('write_ptr_def', 'append') or n.func.attr == 'write' and (
                    len(n.args) == 4 or any('nullify' in x.value for x in ast.walk(n) if isinstance(x, ast.Constant) and
                                            isinstance(x.value, str))))
        return event

    def call(self, ip, st, node, name, recv, args, kwargs):
        if name == 'variable_list' and recv is not None and recv[0] == 'attr' and recv[2].endswith('call_list'):
            return [(st, ('vars',))]
        if name == 'append' and args and args[0][0] == 'l' and len(args[0][1]) == 4:
            self.named.append((args[0][1][0], ip.fi.where(node)))
            own = [(st.with_ts(st.ts | {('declared',)}), None)] if mentions(args[0][1][0], ('elem', ('vars',))) else [(st, None)]
            return [x for s, _ in own for x in ip.builtin(s, node, name, recv, args, kwargs) or [(s, NONE)]]
        if name == 'write_ptr_def':
            return [(st.with_ts(st.ts | {('pointer',)}), NONE)]
        if name == 'write' and len(args) == 4:
            self.ready.append((st.ts, ip.fi.where(node)))
            return [(st, NONE)]
        return None

    def on_iter(self, ip, st, node, it):
        if mentions(it, ('vars',)):
            self.loops.add(id(node))

    def iter_start(self, ip, st, node):
        return st.with_ts(frozenset(x for x in st.ts if x[0] not in ('declared', 'took'))) if id(node) in self.loops else st

    def on_assume(self, ip, st, atom, val):
        if atom == ('truth', prop(('elem', ('vars',)), 'optional')):
            return st.with_ts(st.ts | {('took', val)})
        return st

    def iter_end(self, ip, st, node):
        if id(node) in self.loops:
            if ('took', True) in st.ts and ('declared',) not in st.ts:
                self.missed = self.missed or ip.fi.where(node)
            st = st.with_ts(frozenset(x for x in st.ts if x[0] not in ('declared', 'took')))
        return st

    def line(self, ip, st, node, parts):
        head = lit(parts[0])
        if head is not None and head.lower().startswith('nullify') and not any(x[0] == 'stack' and x[1] for x in st.ts):
            return st.with_ts(st.ts | {('nullified',)})
        return st


class Def(Lines):
    """write_ptr_def: is the pointer initialized where it is declared?"""
    def __init__(self):
        super().__init__()
        self.texts = []

    def line(self, ip, st, node, parts):
        self.texts.append((parts, ip.fi.where(node)))
        return st


def check_declared(ctx, project):
    fi = method(project, MOD, 'Group', 'write')
    ctx.saw(fi)
    rule = Declare()
    Interp(project, rule).run(fi, ts=frozenset())
    own = ('elem', ('vars',))
    mine = [(n, w) for n, w in rule.named if mentions(n, own)]
    if not mine or not rule.ready:
        raise AnalysisBroken("Group.write declares no pointers for its optional arguments")
    for name, where in mine:
        ctx.check(name == ('s', (prop(own, 'local_name'), '_ptr')), "pointer", "declared", "the pointer declared for an optional argument "
                  "of a group is not the one its schemes are given", where)
    ctx.check(rule.missed is None, "pointer", "each argument of a group", "an optional argument of a group has no pointer", rule.missed or fi.where())
    made = [(ts, w) for ts, w in rule.ready if ('pointer',) in ts]
    ctx.check(any(('nullified',) in ts for ts, w in made), "fresh", "before the first scheme", "the pointers of a group are not nullified "
              "before its schemes are called: they may be associated from an earlier call", rule.ready[0][1])
    fi = method(project, 'metavar', 'Var', 'write_ptr_def')
    ctx.saw(fi)
    rule = Def()
    Interp(project, rule).run(fi, ts=frozenset())
    if not rule.texts:
        raise AnalysisBroken("write_ptr_def writes nothing")
    saved = [w for parts, w in rule.texts if any('=>' in x or 'save' in x.lower() for alt in alternatives(parts) for x in alt if lit(x) is not None)]
    ctx.check(not saved, "fresh", "declaration", "a local pointer is initialized where it is declared, which makes it one variable for all "
              "threads and calls", saved[0] if saved else fi.where())


# ----------------------------------------------------------------- which variables are optional
class Collect(Lines):
    """Scheme.analyze: the arguments that are optional are put on the list, with what is known of them."""
    keepers = ('match_variable',)
    verdict = ('l', (('verdict',),) + tuple(('got', i) for i in range(1, 6)), 'tuple')

    def __init__(self, opt):
        super().__init__()
        self.opt = ('attr', P('self'), opt)
        self.missed, self.entries = None, []
        self.n = 0

    def inline(self, fi, depth):
        return False

    def call(self, ip, st, node, name, recv, args, kwargs):
        if name == 'match_variable':
            return [(st.with_ts(frozenset({('of', args[0])})), self.verdict)]
        if name == 'clone' and recv is not None:
            return [(st, ('copy', recv))]
        if name == 'add_var_transform' and args:
            return [(st.with_ts(st.ts | {('moved', args[0])}), NONE)]
        if name == 'append' and recv == self.opt and args:
            return [(st.with_ts(st.ts | {('put',)}), NONE)] if self.put(ip, st, node, args[0]) else [(st, NONE)]
        return None

    def put(self, ip, st, node, val):
        self.entries.append((val, st, ip.fi.where(node)))
        return True

    def on_assume(self, ip, st, atom, val):
        if atom[0] == 'truth' and atom[1][0] == 'prop' and atom[1][2] == 'optional':
            return st.with_ts(st.ts | {('took', atom[1][1], val)})
        return st

    def iter_end(self, ip, st, node):
        var = [x[1] for x in st.ts if x[0] == 'of']
        if var:
            self.n += 1
            if ('put',) not in st.ts and ('took', var[0], False) not in st.ts:
                self.missed = self.missed or ip.fi.where(node)
            st = st.with_ts(frozenset())
        return st


def check_collect(ctx, project, opt, places):
    fi = method(project, MOD, 'Scheme', 'analyze')
    ctx.saw(fi)
    rule = Collect(opt)
    Interp(project, rule).run(fi, ts=frozenset())
    if not rule.n or not rule.entries:
        raise AnalysisBroken("Scheme.analyze: no optional argument is noted")
    ctx.check(rule.missed is None, "known", "every optional argument", "an argument of a scheme which is optional is not put on the list of "
              "optional arguments", rule.missed or fi.where())
    # what match_variable gives as the variable that was found
    src = ('got', 1)
    for val, st, where in rule.entries:
        var = [x[1] for x in st.ts if x[0] == 'of']
        ok = val[0] == 'l' and len(val[1]) == 4 and bool(var)
        got = dict(zip(sorted(places, key=places.get), [val[1][i] for i in sorted(places.values())])) if ok else {}
        ctx.check(ok and got['host'] == src and got['var'] == var[0], "known", "variable and source", "an optional argument is noted with "
                  "another variable than the one found for it", where)
        moved = any(x[0] == 'moved' for x in st.ts)
        known = got.get('moved') in (TRUE, FALSE) and (got['moved'] == TRUE) == moved
        ctx.check(known, "known", "transformed" if moved else "not transformed", "an optional argument is noted as transformed although it "
                  "is not, or the other way round", where)


class Condition(Lines):
    """optional_var_condition: the condition of an argument, None if there is none."""
    def __init__(self, opt, places, std):
        super().__init__()
        self.opt, self.std = ('attr', P('self'), opt), std
        self.el = ('elem', self.opt)
        self.host, self.var = (('item', self.el, K(places[x])) for x in ('host', 'var'))
        self.skipped = []

    def call(self, ip, st, node, name, recv, args, kwargs):
        return None

    def on_assume(self, ip, st, atom, val):
        same = ('eq', prop(self.var, 'standard_name'), self.std)
        if atom[0] == 'eq' and {atom[1], atom[2]} == set(same[1:]) and not val or atom == ('truth', self.host) and not val or \
                atom == ('isnone', self.host) and val or atom[0] == 'eq' and {atom[1], atom[2]} == {('cond', self.host), K('.true.')} and val:
            return st.with_ts(st.ts | {('excused',)})
        if atom[0] == 'eq' and {atom[1], atom[2]} == set(same[1:]):
            return st.with_ts(st.ts | {('same',)})
        return st

    def iter_start(self, ip, st, node):
        return st.with_ts(frozenset())

    def iter_end(self, ip, st, node):
        if ('excused',) not in st.ts:
            self.skipped.append(ip.fi.where(node))
        return st


def check_condition(ctx, project, opt, places):
    fi = method(project, MOD, 'Scheme', 'optional_var_condition')
    ctx.saw(fi)
    rule = Condition(opt, places, P(fi.params[1]))
    ex = Interp(project, rule).run(fi, ts=frozenset())
    found = [(st, val, n) for st, val, n in ex.ret if val != NONE]
    ctx.check(bool(found) and all(val == ('cond', rule.host) and ('same',) in st.ts for st, val, _ in found), "known", "condition",
              "the condition given for an argument is not the one of the variable it is connected to", fi.where())
    early = [n for st, val, n in ex.ret if val == NONE and any(isinstance(b, ast.For) and n in list(ast.walk(b)) for b in ast.walk(fi.node))]
    ctx.check(not rule.skipped and not early, "known", "condition of every argument", "no condition is given for an argument that has one",
              (rule.skipped or [fi.where()])[0])


class Transform(Lines):
    """add_var_transform: what the transformations are kept with."""
    def __init__(self, names):
        super().__init__()
        self.names, self.kept = names, {}

    def inline(self, fi, depth):
        return False

    def call(self, ip, st, node, name, recv, args, kwargs):
        if name == 'append' and recv is not None and recv[0] == 'attr' and recv[2] in self.names and args:
            self.kept.setdefault(recv[2], []).append((args[0], ip.fi.where(node)))
            return [(st, NONE)]
        return None


def check_transform(ctx, project, std_at):
    fi = method(project, MOD, 'Scheme', 'add_var_transform')
    ctx.saw(fi)
    rule = Transform(std_at)
    Interp(project, rule).run(fi, ts=frozenset())
    var = P(fi.params[1])
    for name, at in sorted(std_at.items()):
        if name not in rule.kept:
            raise AnalysisBroken("add_var_transform keeps nothing in " + name)
        for val, where in rule.kept[name]:
            ctx.check(val[0] == 'l' and len(val[1]) > at and val[1][at] == prop(var, 'standard_name'), "known", name.split("__")[-1],
                      "a transformation is kept without the standard name of its variable", where)


# ----------------------------------------------------------------- who may have such an argument
class Match(Lines):
    """match_variable with a source that exists under a condition, for an argument that is not optional."""
    def __init__(self, var):
        super().__init__()
        self.var = var

    def inline(self, fi, depth):
        return False

    def oracle(self, ip, st, atom):
        if atom[0] in ('truth', 'isnone') and atom[1] == ('source',):
            return atom[0] == 'truth'
        if atom[0] == 'truth' and atom[1][0] == 'prop' and atom[1][2] == 'optional' and atom[1][1] == self.var:
            return False
        if atom[0] == 'eq' and any(x[0] == 'k' and x[2] in ('.true.', 'T') for x in atom[1:]) and any(
                mentions(x, prop(('source',), 'active')) for x in atom[1:]):
            return False
        return None

    def call(self, ip, st, node, name, recv, args, kwargs):
        if name == 'match_dimensions':
            return [(st, ('l', tuple(('dim', i) for i in range(6)), 'tuple'))]
        if name == 'find_variable':
            return [(st, NONE), (st, ('source',))]
        return None

    def on_call(self, ip, st, node, name, target, recv, args, kwargs):
        if short(name) == 'find_variable':
            return self.call(ip, st, node, 'find_variable', recv, args, kwargs)
        return super().on_call(ip, st, node, name, target, recv, args, kwargs)

    def on_assume(self, ip, st, atom, val):
        if atom[0] in ('in', 'eq') and val and mentions_any(atom, 'ptype'):
            return st.with_ts(st.ts | {('local',)})
        return st


def mentions_any(val, name):
    return val == name or isinstance(val, tuple) and any(mentions_any(x, name) for x in val)


def check_match(ctx, project):
    fi = method(project, MOD, 'SuiteObject', 'match_variable')
    ctx.saw(fi)
    ex = Interp(project, Match(P(fi.params[1]))).run(fi, ts=frozenset())
    took = [node for st, val, node in ex.ret if ('local',) not in st.ts and val[0] == 'l' and len(val[1]) > 1 and val[1][1] == ('source',)]
    ctx.check(not took, "needed", "argument that is not optional", "an argument which is not optional is connected to a variable the host has only under a "
              "condition", fi.where(took[0] if took else None))
    if not ex.ret:
        raise AnalysisBroken("match_variable does not end")


# ----------------------------------------------------------------- conditions in terms of local names
def low(val):
    """VAL without what only changes its case."""
    while val[0] == 'call' and val[1] in ('lower', 'strip') and val[2] is not None:
        val = val[2]
    return val


class Words(Lines):
    """A condition in standard names becomes one in local names, word by word."""
    merge_over = 4

    def __init__(self, joined):
        super().__init__()
        self.joined = joined
        self.loops, self.kinds = {}, set()
        self.faults = {}

    def inline(self, fi, depth):
        return False

    def oracle(self, ip, st, atom):
        if atom[0] in ('isnone', 'truth') and atom[1][0] == 'var':
            return None
        return super().oracle(ip, st, atom)

    def item(self, ip):
        return None

    def on_iter(self, ip, st, node, it):
        if self.is_words(it):
            self.loops[id(node)] = ('elem', it)

    @staticmethod
    def is_words(it):
        return it[0] == 'call' and it[1] in ('findall', 'finditer', 'split')

    def iter_start(self, ip, st, node):
        if id(node) not in self.loops:
            return st
        self.word = self.loops[id(node)]
        return st.with_ts(frozenset(x for x in st.ts if x[0] == 'whole') | {('word',)})

    def call(self, ip, st, node, name, recv, args, kwargs):
        if name == 'int' and recv is None and args:
            ip.maybe_raise(st, node)
            return [(st.with_ts(st.ts | {('number',)}), ('call', 'int', None, tuple(args)))]
        if name == 'append' and args and self.piece(args[0]) and ast.unparse(node.func.value) in self.joined:
            return [(self.add(ip, st, node, args[0]), NONE)]
        return None

    def on_attr(self, ip, st, node, base, attr):
        return [(st, prop(base, attr))] if attr == 'local_name' else None

    def on_assume(self, ip, st, atom, val):
        if atom[0] == 'in' and low(atom[1]) == getattr(self, 'word', None) and atom[2][0] == 'l' and \
                all(x[0] == 'k' for x in atom[2][1]) and val:
            return st.with_ts(st.ts | {('sign',)})
        if atom[0] == 'eq' and sum(self.has_words(x) for x in atom[1:]) == 1:
            return st.with_ts(frozenset(x for x in st.ts if x[0] != 'whole') | {('whole', val)})
        return st

    def has_words(self, val):
        return isinstance(val, tuple) and (len(val) == 4 and val[0] == 'call' and self.is_words(val) and val[1] != 'split' or
                                           any(self.has_words(x) for x in val))

    def piece(self, val):
        word = getattr(self, 'word', None)
        return word is not None and (low(val) == word or val[0] == 'prop' and val[2] == 'local_name')

    def on_bound(self, ip, st, node, name, val):
        if ('word',) in st.ts and (isinstance(node, ast.AugAssign) or isinstance(node, ast.Assign) and
                                   isinstance(node.value, (ast.BinOp, ast.JoinedStr))):
            last = val[3] if val[:2] == ('bin', 'Add') else parts_of(val)[-1]
            if lit(last) is None and self.piece(last):
                return self.add(ip, st, node, last)
        return st

    def add(self, ip, st, node, piece):
        if any(x[0] == 'added' for x in st.ts):
            self.faults.setdefault("a word of a condition is written twice", ip.fi.where(node))
        marks = {x[0] for x in st.ts}
        if low(piece) == self.word:
            self.kinds.add('sign' if 'sign' in marks else 'number')
            if 'sign' not in marks and 'number' not in marks:
                self.faults.setdefault("a standard name is left in a condition as it is", ip.fi.where(node))
        else:
            self.kinds.add('name')
            if 'sign' in marks or not self.found(piece[1]):
                self.faults.setdefault("a word of a condition becomes the local name of something else", ip.fi.where(node))
        return st.with_ts(st.ts | {('added',)})

    def found(self, var):
        """Is VAR what has the word as its standard name?"""
        if var[0] == 'var':
            return low(var[1]) == self.word
        # the first entry of a table by standard name
        return var[0] == 'item' and var[2] == K(0) and var[1][0] == 'item' and low(var[1][2]) == self.word

    def iter_end(self, ip, st, node):
        if id(node) in self.loops:
            if ('added',) not in st.ts:
                self.faults.setdefault("a word of a condition is left out", ip.fi.where(node))
            whole = [x for x in st.ts if x[0] == 'whole']
            if not (whole and whole[0][1]):
                self.faults.setdefault("what is between the words of a condition is left out without an error", ip.fi.where(node))
            st = st.with_ts(frozenset(x for x in st.ts if x[0] == 'whole'))
        return st


def check_words(ctx, project):
    n = 0
    for mod in ("metavar", "mkstatic"):
        for fi in project.mod(mod).all_funcs():
            calls = [x for x in ast.walk(fi.node) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and
                     x.func.attr in ('findall', 'finditer') and 'CONDITIONAL' in ast.unparse(x.func.value).upper()]
            if not calls or fi.outer is not None:
                continue
            n += 1
            ctx.saw(fi)
            loops = [x for x in ast.walk(fi.node) if isinstance(x, ast.For)]
            names = {t.id for s in ast.walk(fi.node) if isinstance(s, ast.Assign) and s.value in calls for t in s.targets if isinstance(t, ast.Name)}
            loops = [x for x in loops if x.iter in calls or isinstance(x.iter, ast.Name) and x.iter.id in names]
            if not loops:
                raise AnalysisBroken("%s does not go through the words of a condition" % fi.qualname)
            frag, env = fragment(fi, lambda x: x in loops or x in calls)
            if frag.node.body == fi.node.body:
                env = {p: P(p) for p in fi.params}
            rule = Words({ast.unparse(x.args[0]) for x in ast.walk(fi.node) if isinstance(x, ast.Call) and x.args and
                          isinstance(x.func, ast.Attribute) and x.func.attr == 'join'})
            Interp(project, rule).run(frag, args=env, ts=frozenset())
            for what, where in sorted(rule.faults.items()):
                ctx.bad("words", fi.qualname + ": " + what, what, where)
            ctx.check(rule.kinds == {'sign', 'number', 'name'}, "words", fi.qualname + ": kinds of words", "operators, numbers or names are not kept "
                      "or translated: only %s are" % ", ".join(sorted(rule.kinds)), fi.where())
            if not rule.faults:
                ctx.ok("words", fi.qualname, fi.where())
    if n < 2:
        raise AnalysisBroken("where conditions are translated was not found")


# ----------------------------------------------------------------- the debug checks
class Debug(Lines):
    """write_var_debug_check: what it writes about the variable."""
    keepers = ('replace_horiz_dim_debug_check', 'is_horizontal_dimension')

    def __init__(self, var):
        super().__init__()
        self.var = var
        self.name = prop(('var', prop(var, 'standard_name')), 'local_name')

    def line(self, ip, st, node, parts):
        if any(lit(p) is None and mentions(p, self.name) for p in parts):
            self.n += 1
            if not holds(st, ('cond', self.var)):
                self.fault(ip, node, "a check of a variable is written outside a block on the condition of the variable")
        return st


def check_debug(ctx, project):
    fi = method(project, MOD, 'Scheme', 'write_var_debug_check')
    ctx.saw(fi)
    rule = Debug(P(fi.params[1]))
    Interp(project, rule).run(fi, ts=frozenset())
    if rule.n < 2:
        raise AnalysisBroken("write_var_debug_check: no line names the variable")
    ctx.count("lines of debug checks", rule.n)
    for what, line, where in rule.bad:
        ctx.bad("guarded", "write_var_debug_check: " + what, what, where)
    if not rule.bad:
        ctx.ok("guarded", "write_var_debug_check", fi.where())


PLACES = {'host': 0, 'var': 1, 'moved': 3}
STD_AT = {'_Scheme__reverse_transforms': 2, '_Scheme__forward_transforms': 1}


def optional_list(project):
    """The attribute of Scheme that lists the optional arguments: a list of several things known of each, grown where it was
    asked whether the argument is optional."""
    found = set()
    for fi in project.cls(MOD, 'Scheme').methods.values():
        for test in ast.walk(fi.node):
            if isinstance(test, ast.If) and "'optional'" in ast.unparse(test.test):
                found |= {x.func.value.attr for s in test.body for x in ast.walk(s) if isinstance(x, ast.Call) and
                          isinstance(x.func, ast.Attribute) and x.func.attr == 'append' and isinstance(x.func.value, ast.Attribute) and
                          isinstance(x.func.value.value, ast.Name) and x.func.value.value.id == 'self'}
    name = found.pop() if len(found) == 1 else '__optional_vars'
    return '_Scheme' + name if name.startswith('__') else name


def check(ctx, project):
    OPT = optional_list(project)
    ctx.rule("guarded", "every line that names a variable which exists under a condition lies in an IF block on that condition, unless "
             "the condition is .true.")
    ctx.rule("pointer", "an optional argument is passed as the pointer of the group's variable of that standard name, which is associated "
             "before the call")
    ctx.rule("fresh", "a group starts with none of its pointers associated, whatever was called before or is called at the same time")
    ctx.rule("known", "every optional argument of a scheme is noted with the variable it is connected to and how it is transformed")
    ctx.rule("needed", "an argument which is not optional is not connected to a variable that exists only under a condition")
    ctx.rule("words", "a condition is translated word by word: operators and numbers stay, a standard name becomes the local name of the "
             "variable that has it, and nothing is left out")
    check_write(ctx, project, OPT, PLACES, STD_AT)
    check_args(ctx, project)
    check_declared(ctx, project)
    check_collect(ctx, project, OPT, PLACES)
    check_condition(ctx, project, OPT, PLACES)
    check_transform(ctx, project, STD_AT)
    check_match(ctx, project)
    check_words(ctx, project)
    check_debug(ctx, project)
