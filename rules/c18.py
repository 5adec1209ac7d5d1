"""C18: the variables of one dictionary have different standard names and different Fortran names.

VarDictionary.add_variable is interpreted path by path: what each path knows of the two names when it stores the variable, and what the
table of names in use holds afterwards.  The generator of new names is judged by what is known of a name when its loop ends."""
import ast

from sa.absint import Interp, Rule, St, K, TRUE, FALSE, NONE, mentions, show
from sa.project import AnalysisBroken
from rules.c09 import P, short, method

MOD, CLS = 'metavar', 'VarDictionary'
ME, NEW = P('self'), P('newvar')
ASKED = ('find_variable', 'find_local_name', 'new_internal_variable_name')


def lowered(term):
    """TERM without lower()."""
    while term[0] == 'call' and term[1] == 'lower' and term[2] is not None:
        term = term[2]
    return term


def is_lower(term):
    return term[0] == 'call' and term[1] == 'lower' and term[2] is not None


class Names(Rule):
    merge = True
    keep_none = True
    merge_over = 4
    text = False
    max_depth = 3
    stay = ASKED

    def inline(self, fi, depth):
        return fi.cls is not None and fi.cls.name == CLS and fi.name not in self.stay

    def on_call(self, ip, st, node, name, target, recv, args, kwargs):
        name = short(name)
        every = list(args) + [kwargs[k] for k in sorted(kwargs)]
        if name == 'get_prop_value' and args and args[0][0] == 'k' and recv is not None:
            return [(st, ('prop', recv, args[0][2]))]
        if name == 'clone' and every and recv is not None:
            return [(st, ('clone', recv, every[0]))]
        if name == 'new_internal_variable_name' and recv == ME:
            return [(st, ('fresh', node.lineno))]
        if name == 'find_local_name' and recv == ME and every:
            return [(st, ('found', every[0]))]
        if name == 'find_variable' and recv == ME:
            std = kwargs.get('standard_name', args[0] if args else None)
            here = kwargs.get('any_scope', args[2] if len(args) > 2 else TRUE)
            return [(st, ('there', std, here))] if std is not None else None
        if name == 'compatible' and recv is not None and args:
            return [(st, ('judged', recv, args[0]))]
        if name == 'lower' and recv is not None:
            return [(st, recv if is_lower(recv) else ('call', 'lower', recv, ()))]
        if name == 'keys' and recv is not None and not args:
            return [(st, recv)]
        if name in ('list', 'set', 'tuple', 'sorted', 'frozenset') and recv is None and tuple(args) == (TABLE,):
            return [(st, TABLE)]
        if recv == TABLE and name == 'get' and args:
            return [(st, ('item', TABLE, args[0]))]
        if recv == TABLE and name == 'setdefault' and len(args) == 2:
            then = frozenset(x for x in st.ts if x[0] == 'took') | {('took', ('in', args[0], TABLE), False)}
            return [(st.with_ts(st.ts | {('named', args[0], args[1], then)}), ('item', TABLE, args[0]))]
        return None

    def on_assume(self, ip, st, atom, val):
        return st.with_ts(st.ts | {('took', atom, val)})

    def iter_start(self, ip, st, node):
        return st.with_ts(frozenset(x for x in st.ts if x[0] != 'took'))

    def on_store(self, ip, st, node, kind, base, key, val):
        if kind == 'item' and base in (ME, TABLE):
            what = 'stored' if base == ME else 'named'
            return st.with_ts(st.ts | {(what, key, val, frozenset(x for x in st.ts if x[0] == 'took'))})
        return st


TABLE = ('attr', ME, '_VarDictionary__local_names')


def facts(ts):
    """What is known; to have been found is not to be None, to have an entry is to be in the table."""
    out = {}
    for x in ts:
        if x[0] != 'took':
            continue
        atom, val = x[1], x[2]
        if atom[0] == 'truth' and atom[1][0] in ('found', 'there'):
            atom, val = ('isnone', atom[1]), not val
        if atom[0] in ('isnone', 'truth') and atom[1][0] == 'item' and atom[1][1] == TABLE:
            atom, val = ('in', atom[1][2], TABLE), val if atom[0] == 'truth' else not val
        out[atom] = val
    return out


def origin(val):
    """(variable VAL is a clone of, its new Fortran name or None)."""
    name = None
    while val[0] == 'clone':
        subst = val[2]
        if subst[0] == 'd':
            if any(k == K('standard_name') for k, _ in subst[1]) or subst[2]:
                return None, None
            subst = next((v for k, v in subst[1] if k == K('local_name')), None)
        if subst is not None and subst != NONE and name is None:
            name = subst
        val = val[1]
    return val, name


class Add:
    """What the paths of add_variable do."""

    def __init__(self, ctx, fi):
        self.ctx, self.fi = ctx, fi
        self.faults = set()
        self.n = {'paths that add': 0, 'paths that do not': 0, 'names registered': 0}
        self.std = ('prop', NEW, 'standard_name')
        self.own = ('prop', NEW, 'local_name')

    def std_of(self, term):
        return term[0] == 'prop' and term[2] == 'standard_name' and origin(term[1])[0] == NEW

    def own_of(self, term, val):
        """Is TERM the Fortran name of VAL?"""
        term = lowered(term)
        _, name = origin(val)
        if name is not None and term == name:
            return True
        if term[0] == 'prop' and term[2] == 'local_name':
            base, other = origin(term[1])
            return base == NEW and other == name
        return False

    def present(self, took):
        for atom, val in took.items():
            if atom[0] == 'in' and self.std_of(atom[1]) and atom[2] == ME:
                return val
        return None

    def path(self, st):
        took = facts(st.ts)
        stored = [x for x in st.ts if x[0] == 'stored']
        named = [x for x in st.ts if x[0] == 'named']
        there = next((v for a, v in took.items() if a[0] == 'isnone' and a[1][0] == 'there' and self.std_of(a[1][1])), None)
        if not stored:
            self.n['paths that do not'] += 1
            if self.present(took) is not True:
                self.faults.add(("added", "a variable that is not in the dictionary may be left out without an error"))
            if took.get(('truth', P('exists_ok'))) is not True:
                self.faults.add(("standard", "a second variable of a standard name is accepted although exists_ok is not set"))
            if there is False:
                compat = any(a[0] == 'truth' and a[1][0] == 'attr' and a[1][1][0] == 'judged' and a[1][2] == 'compat' and v for a, v in took.items())
                if not compat:
                    self.faults.add(("standard", "a second variable of a standard name is accepted although it may not be compatible with the first"))
                same = any(a[0] == 'eq' and v and all(x[0] == 'prop' and x[2] == 'intent' for x in a[1:]) for a, v in took.items())
                if not same and took.get(('truth', P('adjust_intent'))) is not True:
                    self.faults.add(("standard", "a second variable of a standard name is accepted with another intent"))
        for _, key, val, then in stored:
            self.n['paths that add'] += 1
            before = facts(then)
            base, name = origin(val)
            if base != NEW or not self.std_of(key):
                self.faults.add(("added", "what is stored is not the new variable under its standard name"))
                continue
            if self.present(before) is not False:
                self.faults.add(("standard", "the variable that has the standard name is replaced"))
            if name is None:
                free = any(a[0] == 'isnone' and a[1][0] == 'found' and lowered(a[1][1]) == self.own and v for a, v in before.items())
                if not free:
                    self.faults.add(("local", "a variable is added although its Fortran name may belong to another one"))
            elif name[0] != 'fresh':
                self.faults.add(("local", "a variable is added under a Fortran name that is not known to be free"))
            elif took.get(('truth', P('gen_unique'))) is not True:
                self.faults.add(("local", "a variable is renamed although gen_unique is not set"))
            known = any(a[0] == 'in' and a[2] == TABLE and is_lower(a[1]) and self.own_of(a[1], val) and v for a, v in took.items())
            if not known and not any(is_lower(x[1]) and self.own_of(x[1], val) and self.std_of(x[2]) for x in named):
                self.faults.add(("registered", "the Fortran name of a variable that is added is not recorded as used"))
        for _, key, val, then in named:
            self.n['names registered'] += 1
            before = facts(then)
            if not self.std_of(val):
                self.faults.add(("registered", "a Fortran name is recorded for another variable"))
            free = any(a[0] == 'in' and a[1] == key and a[2] == TABLE and not v for a, v in before.items()) or lowered(key)[0] == 'fresh' or \
                any(a[0] == 'isnone' and a[1][0] == 'found' and lowered(a[1][1]) == lowered(key) and v for a, v in before.items()) or \
                lowered(key)[0] == 'prop' and (origin(lowered(key)[1])[1] or ('',))[0] == 'fresh'
            if not free:
                self.faults.add(("registered", "the Fortran name of another variable may be recorded for this one"))


def check_add(ctx, project):
    fi = method(project, MOD, CLS, 'add_variable')
    ctx.saw(fi)
    ex = Interp(project, Names()).run(fi, args={p: P(p) for p in fi.params}, ts=frozenset())
    add = Add(ctx, fi)
    for st, _, _ in ex.ret:
        add.path(st)
    for k, v in add.n.items():
        ctx.count(k, v)
        if not v:
            raise AnalysisBroken("add_variable: no %s" % k)
    for rule, what in sorted(add.faults):
        ctx.bad(rule, what, what, fi.where())
    for rule in ("added", "standard", "local", "registered"):
        if not any(r == rule for r, _ in add.faults):
            ctx.ok(rule, "paths of add_variable", fi.where())


def uses(term, out):
    """The keys TABLE is looked up with in TERM."""
    if isinstance(term, tuple) and term:
        if term[0] == 'item' and len(term) == 3 and term[1] == TABLE:
            out.add(term[2])
        if term[0] == 'in' and len(term) == 3 and term[2] == TABLE:
            out.add(term[1])
        if term[0] == 'call' and len(term) > 3 and term[2] == TABLE and term[3] and isinstance(term[3], tuple):
            out.add(term[3][0])
        for x in term:
            uses(x, out)
    return out


class Find(Names):
    stay = ('find_variable',)
    max_depth = 1

    def inline(self, fi, depth):
        return Names.inline(self, fi, depth) and fi.name != 'find_local_name'


def check_found(ctx, project):
    fi = method(project, MOD, CLS, 'find_local_name')
    ctx.saw(fi)
    ex = Interp(project, Find()).run(fi, args={p: P(p) for p in fi.params}, ts=frozenset())
    asked, name, faults = set(), ('call', 'lower', P(fi.params[1]), ()), set()
    for st, val, _ in ex.ret:
        took = facts(st.ts)
        for a in took:
            uses(a, asked)
        uses(val, asked)
        inside = took.get(('in', name, TABLE))
        if val == NONE:
            if inside is not False:
                faults.add("a name that is in use may not be found")
        elif val[0] == 'there':
            if name not in uses(val[1], set()) or val[2] != FALSE:
                faults.add("the variable that is returned is not the one of the dictionary that has the name")
        elif not (val[0] in ('call', 'found') and inside is False):
            faults.add("what is returned is not a variable that has the name")
    for key in asked:
        if key != name:
            faults.add("names are not looked up in lower case, as they are recorded")
    if not asked:
        raise AnalysisBroken("find_local_name: does not look at the names in use")
    for what in sorted(faults):
        ctx.bad("found", what, what, fi.where())
    if not faults:
        ctx.ok("found", "find_local_name", fi.where())
    ctx.count("lookups of names", len(asked))


class Fresh(Find):
    """Keeps what the variables are at the end of each turn of a loop."""

    def __init__(self):
        self.turns = []

    def iter_start(self, ip, st, node):
        st = Find.iter_start(self, ip, st, node)
        return St(st.env, st.heap, {k: v for k, v in st.preds.items() if k[0] == 'truth'}, st.ts, st.trace)

    def iter_end(self, ip, st, node):
        self.turns.append((node.lineno, dict(st.env), facts(st.ts)))
        return st

    iter_break = iter_end


def judge_fresh(val, took, faults):
    free = any(a[0] == 'in' and is_lower(a[1]) and lowered(a[1]) == val and a[2] in (TABLE, ('call', 'list', None, (TABLE,))) and not v
               for a, v in took.items())
    free = free or any(a[0] == 'isnone' and a[1][0] == 'found' and lowered(a[1][1]) == val and v for a, v in took.items())
    if not free:
        faults.add("the name that is returned may be in use, in upper or lower case")
    if not any(a[0] in ('lt', 'le') and mentions(a, val) and mentions(a, P('max_len')) for a in took):
        faults.add("the name that is returned may be too long")


def check_fresh(ctx, project):
    fi = method(project, MOD, CLS, 'new_internal_variable_name')
    ctx.saw(fi)

    rule = Fresh()
    ex = Interp(project, rule).run(fi, args={p: P(p) for p in fi.params}, ts=frozenset())
    faults, n = set(), 0
    for st, val, node in ex.ret:
        took = facts(st.ts)
        n += 1
        if val == NONE:
            faults.add("no name may be returned")
            continue
        direct = set()
        judge_fresh(val, took, direct)
        var = node.value.id if direct and isinstance(node, ast.Return) and isinstance(node.value, ast.Name) else None
        ends = [(env[var], then) for _, env, then in rule.turns if env.get(var, NONE)[0] not in ('top', 'j')] if var else ()
        if not ends:
            faults |= direct
        for end, then in ends:
            if end != NONE:
                judge_fresh(end, then, faults)
    if not n:
        raise AnalysisBroken("new_internal_variable_name: returns nothing")
    for what in sorted(faults):
        ctx.bad("fresh", what, what, fi.where())
    if not faults:
        ctx.ok("fresh", "new_internal_variable_name", fi.where())


class Over(Names):
    """An add_variable that calls the one of VarDictionary."""
    max_depth = 1

    def inline(self, fi, depth):
        return False

    def on_call(self, ip, st, node, name, target, recv, args, kwargs):
        func = node.func
        if isinstance(func, ast.Attribute) and func.attr == 'add_variable':
            got = dict(zip(('newvar', 'run_env', 'exists_ok', 'gen_unique', 'adjust_intent'), args))
            got.update(kwargs)
            return [(st.with_ts(st.ts | {('passed', frozenset(got.items()))}), NONE)]
        if short(name) == 'find_variable' and recv is not None and recv != ME:
            return [(st, ('other', recv, kwargs.get('standard_name', args[0] if args else NONE)))]
        return Names.on_call(self, ip, st, node, name, target, recv, args, kwargs)


def check_over(ctx, project):
    """Dictionaries that have an add_variable of their own."""
    n = 0
    for mod in project.modules.values():
        for fi in mod.all_funcs():
            if fi.name != 'add_variable' or fi.cls is None or fi.cls.name == CLS:
                continue
            n += 1
            ctx.saw(fi)
            ex = Interp(project, Over()).run(fi, args={p: P(p) for p in fi.params}, ts=frozenset())
            faults = set()
            for st, _, _ in ex.ret:
                passed = [dict(x[1]) for x in st.ts if x[0] == 'passed']
                if len(passed) != 1:
                    faults.add("a variable is not added, or twice, without an error")
                    continue
                base, name = origin(passed[0].get('newvar', NONE))
                if base != NEW or name is not None:
                    faults.add("another variable is added")
                for flag in ('exists_ok', 'gen_unique'):
                    if passed[0].get(flag, FALSE) not in (P(flag), FALSE) and not (
                            passed[0][flag] == TRUE and facts(st.ts).get(('truth', P(flag))) is True):
                        faults.add("%s is set although the caller has not set it" % flag)
                    if passed[0].get(flag, FALSE) == FALSE and facts(st.ts).get(('truth', P(flag))) is not False:
                        faults.add("%s is not passed on" % flag)
                took = facts(st.ts)
                others = [a for a in took if a[0] in ('isnone', 'truth') and a[1][0] == 'other']
                if 'ddt' in "".join(ast.unparse(x) for x in ast.walk(fi.cls.node) if isinstance(x, ast.Attribute)) and fi.cls.name == 'HostModel':
                    none = any(took[a] == (a[0] == 'isnone') for a in others)
                    if not none and took.get(('truth', P('exists_ok'))) is not True and not any(
                            a[0] == 'isnone' and a[1][0] == 'there' and not v for a, v in took.items()):
                        faults.add("a standard name that a component of a host variable has is not looked for")
            for what in sorted(faults):
                ctx.bad("standard", fi.qualname + ": " + what, what, fi.where())
            if not faults:
                ctx.ok("standard", fi.qualname, fi.where())
    ctx.count("add_variable of other dictionaries", n)
    if not n:
        raise AnalysisBroken("no other add_variable")


RENAMED = (("suite_objects", "SuiteObject", "add_variable_to_call_tree", "add_call_list_variable", "an argument of a scheme"),
           ("suite_objects", "SuiteObject", "add_call_list_variable", "add_variable", "an argument of a group"),
           ("suite_objects", "SuiteObject", "add_call_list_variable", "add_call_list_variable", "an argument of a group"),
           ("suite_objects", "Group", "manage_variable", "add_variable", "a variable of a group"),
           ("suite_objects", "CallList", "add_vars", "add_variable", "an argument of a group"),
           ("ccpp_suite", "API", "__init__", "add_vars", "an argument of a group"))


def check_renamed(ctx, project):
    for mod, cls, name, callee, what in RENAMED:
        fi = method(project, mod, cls, name)
        ctx.saw(fi)
        calls = [x for x in ast.walk(fi.node) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == callee]
        if not calls:
            raise AnalysisBroken("%s.%s: no call of %s" % (cls, name, callee))
        good = False
        for call in calls:
            flag = next((k.value for k in call.keywords if k.arg == 'gen_unique'), None)
            if any(k.arg is None for k in call.keywords) or (flag is not None and not (isinstance(flag, ast.Constant) and not flag.value)):
                good = True
            elif flag is None and len(call.args) >= 4 and callee == 'add_variable' or len(call.args) >= 3 and callee != 'add_variable':
                good = True
        ctx.check(good, "renamed", "%s.%s: %s" % (cls, name, callee), "%s with a Fortran name that is in use gets no new name" % what, fi.where(calls[0]))


class Unique(Names):
    def on_call(self, ip, st, node, name, target, recv, args, kwargs):
        every = list(args) + [kwargs[k] for k in sorted(kwargs)]
        if recv == P('host_model') and short(name) == 'find_local_name' and every:
            return [(st, ('found', every[0]))]
        if recv == P('host_model') and short(name) == 'new_internal_variable_name':
            return [(st, ('fresh', node.lineno))]
        return None


def check_unique(ctx, project):
    fi = project.func('host_cap', 'unique_local_name')
    if fi is None:
        raise AnalysisBroken("unique_local_name not found")
    ctx.saw(fi)
    ex = Interp(project, Unique()).run(fi, args={p: P(p) for p in fi.params}, ts=frozenset())
    good = bool(ex.ret)
    for st, val, _ in ex.ret:
        took = facts(st.ts)
        good = good and (val[0] == 'fresh' or val == P(fi.params[0]) and any(
            a == ('isnone', ('found', val)) and v or a == ('truth', ('found', val)) and not v for a, v in took.items()))
    ctx.check(good, "fresh", "unique_local_name", "the name that is returned may belong to a variable of the host", fi.where())


def check(ctx, project):
    ctx.rule("added", "a new variable is added under its standard name or there is an error")
    ctx.rule("standard", "the variable that has a standard name stays; a second one is an error unless exists_ok is set and it is compatible")
    ctx.rule("local", "a variable is added only if its Fortran name is not in use in the dictionary, or under a new name if gen_unique is set")
    ctx.rule("registered", "the Fortran name under which a variable is added is recorded as used by it, in lower case; what is recorded stays")
    ctx.rule("found", "a name that is in use is found whatever its case")
    ctx.rule("fresh", "a name that is made up is not in use, whatever its case, and not too long")
    ctx.rule("renamed", "arguments of groups and of the host's calls, and the variables a group keeps, get a new name if theirs is in use")
    check_add(ctx, project)
    check_over(ctx, project)
    check_renamed(ctx, project)
    check_unique(ctx, project)
    check_found(ctx, project)
    check_fresh(ctx, project)
