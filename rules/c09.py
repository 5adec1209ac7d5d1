"""C09: the intent a group's argument gets covers what every scheme of the group does with it, and protected variables are not
written.

The few intents there are (none, in, out, inout) are put one after the other into the abstract interpreter, for each of the two
declarations which meet; what is left of them on every path is compared with their join."""
import ast

from sa.absint import Interp, Rule, K, TRUE, FALSE, NONE, fragment, mentions
from sa.project import AnalysisBroken

INTENTS = ('in', 'out', 'inout')


def P(name):
    return ('param', name)


def short(name):
    return name.split(".")[-1]


def join(one, two):
    """The intent which permits what both permit (None: nothing is known of it)."""
    if one is None or one == two:
        return two
    return one if two is None else 'inout'


def given(val):
    return NONE if val is None else K(val)


class Props(Rule):
    """get_prop_value gives what .props says, by variable and property."""
    merge = True
    keep_none = True
    merge_over = 4
    text = False
    max_depth = 3
    homes = ()
    stop = ()
    props = {}

    def inline(self, fi, depth):
        return fi.module.name in self.homes and fi.name not in self.stop

    def value_of(self, st, recv, name):
        return self.props.get((recv, name))

    def on_call(self, ip, st, node, name, target, recv, args, kwargs):
        if short(name) == 'get_prop_value' and args and args[0][0] == 'k':
            val = self.value_of(st, recv, args[0][2])
            if val is not None:
                return [(st, val)]
        return self.call(ip, st, node, short(name), recv, args, kwargs)

    def call(self, ip, st, node, name, recv, args, kwargs):
        return None


def method(project, mod, cls, name):
    fi = project.cls(mod, cls).methods.get(name)
    if fi is None:
        raise AnalysisBroken("%s.%s not found" % (cls, name))
    return fi


# ----------------------------------------------------------------- two declarations meet
class Adjust(Props):
    homes = ('metavar',)
    stop = ('context_string',)
    me, src = P('self'), None

    def oracle(self, ip, st, atom):
        if atom[0] == 'in' and atom[1] == K('intent'):
            return self.props[(self.me, 'intent')] != NONE
        if atom[0] in ('truth', 'isnone') and atom[1] == self.src:
            return atom[0] == 'truth'
        return None

    def on_store(self, ip, st, node, kind, base, key, val):
        if key == K('intent') and mentions(base, self.me):
            return st.with_ts(frozenset(x for x in st.ts if x[0] != 'set') | {('set', val)})
        return st


def check_adjust(ctx, project):
    fi = method(project, 'metavar', 'Var', 'adjust_intent')
    ctx.saw(fi)
    rule = Adjust()
    rule.src = P(fi.params[1])
    for mine in (None,) + INTENTS:
        for other in (None,) + INTENTS:
            for prot in (True, False):
                rule.props = {(rule.me, 'intent'): given(mine), (rule.src, 'intent'): given(other), (rule.me, 'protected'): K(prot)}
                ex = Interp(project, rule).run(fi, ts=frozenset())
                what = "%s meets %s%s" % (mine, other, ", protected" if prot else "")
                writes = other in ('out', 'inout')
                if prot and writes:
                    ctx.check(not ex.ret and ex.exc, "protected", what, "a variable which is protected takes an intent of %s" % other,
                              fi.where())
                    continue
                want = join(mine, other if other else 'in')
                got = set()
                for st, _, _ in ex.ret:
                    val = [x[1] for x in st.ts if x[0] == 'set']
                    got.add(val[0] if val else given(mine))
                ctx.check(got == {K(want)}, "join", what, "an intent of %s that meets one of %s gives %s instead of %s" %
                          (mine, other, ", ".join(sorted(str(g[2]) if g[0] == 'k' else '?' for g in got)) or "an error", want), fi.where())


class Add(Props):
    homes = ('metavar',)
    stop = ('context_string', 'find_variable', 'find_local_name', 'compatible', 'adjust_intent', 'clone', 'array_ref',
            'new_internal_variable_name', 'get_prop_value')
    cvar, new, compat = ('there',), None, ('compat',)

    def oracle(self, ip, st, atom):
        if atom[0] in ('truth', 'isnone') and atom[1] in (self.cvar, ('attr', self.compat, 'compat')):
            return atom[0] == 'truth'
        if atom[0] == 'in' and atom[1] == ('std',):
            return True
        return None

    def call(self, ip, st, node, name, recv, args, kwargs):
        if name == 'find_variable':
            return [(st, self.cvar)]
        if name == 'find_local_name':
            return [(st, NONE)]
        if name == 'compatible':
            return [(st, self.compat)]
        if name == 'array_ref':
            return [(st, NONE)]
        if name == 'adjust_intent' and recv == self.cvar and args[:1] == [self.new]:
            return [(st.with_ts(st.ts | {('adjusted',)}), NONE)]
        return None


def check_add(ctx, project):
    fi = method(project, 'metavar', 'VarDictionary', 'add_variable')
    ctx.saw(fi)
    rule = Add()
    rule.new = P(fi.params[1])
    for mine in INTENTS:
        for other in INTENTS:
            for adjust in (True, False):
                rule.props = {(rule.cvar, 'intent'): K(mine), (rule.new, 'intent'): K(other),
                              (rule.new, 'standard_name'): ('std',)}
                ex = Interp(project, rule).run(fi, {'exists_ok': TRUE, 'adjust_intent': K(adjust), 'gen_unique': FALSE}, ts=frozenset())
                what = "%s then %s%s" % (mine, other, "" if adjust else ", as they are")
                if not adjust:
                    ctx.check(mine == other and ex.ret or mine != other and not ex.ret, "merge", what,
                              "two declarations with intents %s and %s are %s" % (mine, other, "refused" if mine == other else
                                                                                 "taken for the same"), fi.where())
                    continue
                done = bool(ex.ret) and all(('adjusted',) in st.ts for st, _, _ in ex.ret)
                ctx.check(bool(ex.ret) and (done or join(mine, other) == mine), "merge", what, "a variable of intent %s is added where "
                          "there is one of intent %s, but its intent is not adjusted" % (other, mine), fi.where())


# ----------------------------------------------------------------- from a scheme to its group
class Group(Props):
    homes = ('suite_objects',)
    stop = ('add_call_list_variable', 'find_variable', 'adjust_intent', 'is_suite_variable', 'add_variable_to_call_tree')
    var = None

    def oracle(self, ip, st, atom):
        if atom[0] in ('truth', 'isnone') and atom[1][0] == 'var':
            return atom[0] == 'truth'
        return None

    def call(self, ip, st, node, name, recv, args, kwargs):
        if name == 'find_variable':
            where = 'calls' if mentions_name(recv, 'call_list') else 'group'
            own = where == 'group' and kwargs.get('any_scope', args[2] if len(args) > 2 else TRUE) == FALSE
            return [(st, NONE), (st.with_ts(st.ts | {('own',)}) if own else st, ('var', where))]
        if name == 'adjust_intent' and recv is not None and recv[:2] == ('var', 'calls') and args[:1] == [self.var]:
            return [(st.with_ts(st.ts | {('done',)}), NONE)]
        if name == 'add_call_list_variable' and args[:1] == [self.var]:
            return [(st.with_ts(st.ts | {('done',)}), NONE)]
        if name == 'is_suite_variable' and args:
            return [(st.with_ts(st.ts | {('suite',)}), TRUE), (st, FALSE)]
        return None


def check_group(ctx, project):
    fi = method(project, 'suite_objects', 'Scheme', 'update_group_call_list_variable')
    ctx.saw(fi)
    rule = Group()
    rule.merge = False
    rule.var = P(fi.params[1])
    ex = Interp(project, rule).run(fi, ts=frozenset())
    missed = None
    n = 0
    for st, _, node in ex.ret:
        n += 1
        if ('done',) not in st.ts and ('own',) not in st.ts and ('suite',) not in st.ts:
            missed = missed or node or fi.node
    if not n:
        raise AnalysisBroken("update_group_call_list_variable does not end")
    ctx.check(missed is None, "group", "update_group_call_list_variable", "an argument of a scheme which neither the group nor the "
              "suite owns does not reach the group's call list with its intent", fi.where(missed))


class Walk(Props):
    """The arguments of a scheme, one after the other."""
    homes = ()
    stop = ()

    def __init__(self):
        self.missed = None
        self.n = 0

    def call(self, ip, st, node, name, recv, args, kwargs):
        if name == 'match_variable':
            vals = (('verdict',),) + tuple(('got', i) for i in range(1, 6))
            return [(st.with_ts(frozenset({('of', args[0])})), ('l', vals, 'tuple'))]
        if name in ('update_group_call_list_variable', 'add_call_list_variable', 'manage_variable') and args:
            var = [x[1] for x in st.ts if x[0] == 'of']
            alts = args[0][1] if args[0][0] == 'j' else (args[0],)
            same = bool(var) and all(a == var[0] or a == ('copy', var[0]) for a in alts)
            if same:
                st = st.with_ts(st.ts | {(name,)})
            return [(st, NONE)]
        if name == 'clone' and recv is not None:
            dct = args[0] if args else kwargs.get('subst_dict', NONE)
            if dct[0] == 'd' and any(k == K('intent') for k, _ in dct[1]) or kwargs.get('remove_intent', FALSE) != FALSE:
                return [(st, ('other',))]
            return [(st, ('copy', recv))]
        return None

    def on_assume(self, ip, st, atom, val):
        if atom == ('truth', ('verdict',)):
            return st.with_ts(st.ts | {('found', val)})
        return st

    def iter_end(self, ip, st, node):
        var = [x[1] for x in st.ts if x[0] == 'of']
        if var:
            marks = {x[0] for x in st.ts}
            self.n += 1
            if ('found', True) in st.ts:
                ok = {'update_group_call_list_variable', 'add_call_list_variable'} <= marks
            elif ('found', False) in st.ts:
                ok = {'manage_variable', 'add_call_list_variable'} <= marks
            else:
                ok = False
            if not ok:
                self.missed = self.missed or node
            st = st.with_ts(frozenset())
        return st


def check_scheme(ctx, project):
    fi = method(project, 'suite_objects', 'Scheme', 'analyze')
    ctx.saw(fi)
    rule = Walk()
    Interp(project, rule).run(fi, ts=frozenset())
    if not rule.n:
        raise AnalysisBroken("Scheme.analyze does not go through the arguments of the scheme")
    ctx.check(rule.missed is None, "group", "every argument of a scheme", "an argument of a scheme that has a source is not told to the "
              "call list of the scheme and to its group, or one without a source is not made a variable of the group", fi.where())


class Calls(Props):
    """add_call_list_variable: what is added to the call list, and how."""
    homes = ()
    stop = ()

    def __init__(self):
        self.how = []

    def call(self, ip, st, node, name, recv, args, kwargs):
        if name == 'add_variable' and recv is not None and mentions_name(recv, 'call_list'):
            self.how.append((st, args, dict(kwargs)))
            return [(st, NONE)]
        if name == 'clone' and recv is not None:
            dct = args[0] if args else kwargs.get('subst_dict', NONE)
            return [(st, ('copy', recv, dct))]
        return None


def mentions_name(val, name):
    return val == name or isinstance(val, tuple) and any(mentions_name(x, name) for x in val)


def check_calls(ctx, project):
    n = 0
    for cls in ('SuiteObject', 'Scheme', 'Group'):
        fi = project.cls('suite_objects', cls).methods.get('add_call_list_variable')
        if fi is None:
            continue
        n += 1
        ctx.saw(fi)
        rule = Calls()
        new = P(fi.params[1])
        rule.props = {(new, 'intent'): NONE}
        rule.merge = False
        Interp(project, rule).run(fi, ts=frozenset())
        if not rule.how and cls == 'SuiteObject':
            raise AnalysisBroken("add_call_list_variable adds nothing to the call list")
        adj = all(kw.get('adjust_intent') == TRUE for _, _, kw in rule.how)
        ctx.check(adj, "calls", cls + ": intents are merged", "a variable is added to a call list without merging its intent with that of the "
                  "same variable already there", fi.where())
        bad = False
        for st, args, _ in rule.how:
            var = args[0]
            if var[0] == 'copy':
                dct = var[2]
                sets = dct[0] == 'd' and any(k == K('intent') for k, _ in dct[1])
                has = any(a[0] == 'in' and a[1] == K('intent') and v is True for a, v in st.preds.items())
                stored = any(key == K('intent') or key == ('item', K('intent')) for _, key in st.heap)
                bad = bad or not (sets or has or stored)
        ctx.check(not bad, "calls", cls + ": there is an intent", "a variable without an intent is added to a call list as it is", fi.where())
    for cls in ('SuiteObject', 'CallList'):
        fi = project.cls('suite_objects', cls).methods.get('add_variable')
        if fi is None:
            continue
        got = []

        class Sup(Props):
            def call(self, ip, st, node, name, recv, args, kwargs):
                if name == 'add_variable':
                    got.append((args, kwargs))
                    return [(st, NONE)]
                return None
        ex = Interp(project, Sup()).run(fi, ts=frozenset())
        ctx.saw(fi)
        names = method(project, 'metavar', 'VarDictionary', 'add_variable').params[1:]
        ok = bool(ex.ret) and bool(got)
        for args, kwargs in got:
            vals = dict(zip(names, args))
            vals.update(kwargs)
            ok = ok and all(vals.get(x) == P(x) for x in ('exists_ok', 'gen_unique', 'adjust_intent'))
        ctx.check(ok, "calls", cls + ".add_variable", "%s.add_variable does not pass on how the variable is to be added" % cls, fi.where())
    if not n:
        raise AnalysisBroken("add_call_list_variable not found")


# ----------------------------------------------------------------- protected variables
class Guard(Props):
    """match_variable with a source that is protected."""
    merge_over = 1
    var = None

    def oracle(self, ip, st, atom):
        return atom[0] == 'truth' if atom[0] in ('truth', 'isnone') and atom[1] == ('source',) else None

    def value_of(self, st, recv, name):
        if name == 'protected' and recv != self.var:
            return TRUE
        if name == 'type' and recv == self.var:
            return K('real')
        return self.props.get((recv, name))

    def call(self, ip, st, node, name, recv, args, kwargs):
        if name == 'match_dimensions':
            return [(st, ('l', tuple(('dim', i) for i in range(6)), 'tuple'))]
        if name == 'find_variable':
            return [(st, NONE), (st, ('source',))]
        return None

    def on_assume(self, ip, st, atom, val):
        if atom[0] in ('in', 'eq') and mentions_name(atom, 'ptype') and val:
            return st.with_ts(st.ts | {('local',)})
        return st


def check_guard(ctx, project):
    fi = method(project, 'suite_objects', 'SuiteObject', 'match_variable')
    ctx.saw(fi)
    for intent in INTENTS:
        rule = Guard()
        rule.var = P(fi.params[1])
        rule.props = {(rule.var, 'intent'): K(intent)}
        ex = Interp(project, rule).run(fi, ts=frozenset())
        took = [node for st, val, node in ex.ret if ('local',) not in st.ts and val[0] == 'l' and val[1][1] == ('source',)]
        if intent == 'in':
            ctx.check(bool(took), "protected", "argument of intent in", "no scheme can read a protected variable", fi.where())
        else:
            ctx.check(not took, "protected", "argument of intent " + intent, "a scheme argument of intent %s is connected to a variable "
                      "which is protected" % intent, fi.where(took[0] if took else None))


class Dummy(Props):
    """The dummy arguments of the host's interface."""
    def __init__(self, var):
        self.var = var
        self.got = []

    def value_of(self, st, recv, name):
        return self.props.get(name)

    def oracle(self, ip, st, atom):
        if atom[0] == 'in' and mentions_name(atom[1], 'stdname'):
            return self.loop
        return None

    def call(self, ip, st, node, name, recv, args, kwargs):
        if name == 'clone' and recv is not None:
            dct = args[0] if args else kwargs.get('subst_dict', NONE)
            val = [v for k, v in dct[1] if k == K('intent')] if dct[0] == 'd' else []
            self.got.append(val[0] if val else None)
            return [(st, ('copy',))]
        return None


def check_dummy(ctx, project):
    sites = []
    for fi in project.all_funcs():
        if fi.module.name != 'host_cap':
            continue
        for loop in ast.walk(fi.node):
            if isinstance(loop, ast.For) and any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'clone'
                                                 for n in ast.walk(loop)) and \
                    any(isinstance(n, ast.Constant) and n.value == 'protected' for n in ast.walk(loop)) and \
                    not any(isinstance(n, ast.For) and n is not loop for n in ast.walk(loop)):
                sites.append((fi, loop))
    if not sites:
        raise AnalysisBroken("where host_cap makes dummy arguments was not found")
    for fi, loop in sites:
        ctx.saw(fi)
        for prot in (True, False):
            for isloop in (True, False):
                rule = Dummy(None)
                rule.loop = isloop
                rule.props = {'protected': K(prot), 'standard_name': ('stdname',)}
                frag, env = fragment(fi, lambda n: n is loop)
                Interp(project, rule).run(frag, env, ts=frozenset())
                want = 'in' if prot or isloop else 'inout'
                ctx.check(bool(rule.got) and set(rule.got) == {K(want)}, "dummy", "protected %s, loop variable %s" % (prot, isloop),
                          "a dummy argument of the host's interface does not get intent %s" % want, fi.where(loop))


# ----------------------------------------------------------------- ccpp_prebuild
def sites_of(fi):
    """The if statements of FI that change an intent depending on intents."""
    up = {}
    for n in ast.walk(fi.node):
        for c in ast.iter_child_nodes(n):
            up[c] = n

    def speaks(tree):
        return any(isinstance(x, ast.Attribute) and x.attr == 'intent' for x in ast.walk(tree))
    out = []
    for n in ast.walk(fi.node):
        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == 'intent' for t in n.targets):
            best, cur = None, up.get(n)
            while cur is not None and not isinstance(cur, (ast.For, ast.While, ast.FunctionDef)):
                if isinstance(cur, ast.If) and (speaks(cur.test) or any(isinstance(x, ast.Attribute) and x.attr == 'parents' for x in ast.walk(cur.test))
                                                and any(isinstance(x, ast.If) and speaks(x.test) for x in ast.walk(cur))):
                    best = cur
                cur = up.get(cur)
            if best is not None and best not in out:
                out.append(best)
    return out


class Meet(Props):
    """A variable of a suite part or suite and one more use of it."""
    merge = False

    def __init__(self):
        self.targets = set()
        self.mine = self.other = None
        self.there = self.index = None
        self.copied = set()

    def on_store(self, ip, st, node, kind, base, key, val):
        if key in ('intent', K('intent')):
            self.targets.add(base)
            if self.mine is not None:
                return st.with_ts(frozenset({('set', val)}))
        elif self.mine is not None and kind == 'item':
            self.copied.add((base, val))
            return st.with_ts(st.ts | {('copied', val)})
        return st

    def on_attr(self, ip, st, node, base, attr):
        if attr == 'intent' and self.mine is not None:
            cur = [x[1] for x in st.ts if x[0] == 'set']
            if base in self.targets:
                return [(st, cur[0] if cur else K(self.mine))]
            return [(st, K(self.other))]
        return None

    def oracle(self, ip, st, atom):
        if self.mine is not None and atom[0] == 'in' and mentions_name(atom[2], 'parents'):
            return self.there
        if self.mine is not None and atom[0] == 'eq' and all(x[0] != 'k' for x in atom[1:]):
            return not self.index
        return None


def check_prebuild(ctx, project):
    n = 0
    for fi in project.all_funcs():
        if fi.module.name not in ('mkstatic', 'ccpp_prebuild'):
            continue
        for k, site in enumerate(sites_of(fi)):
            n += 1
            ctx.saw(fi)
            frag, env = fragment(fi, lambda x: x is site)
            rule = Meet()
            Interp(project, rule).run(frag, env, ts=frozenset())
            absent = any(isinstance(c, ast.Compare) and isinstance(c.ops[0], (ast.In, ast.NotIn)) for c in ast.walk(site.test))
            index = any(isinstance(x, ast.Compare) and isinstance(x.ops[0], (ast.Eq, ast.NotEq)) and
                        all(isinstance(y, ast.Name) for y in (x.left, x.comparators[0])) for x in ast.walk(site))
            where = "%s:%d" % (fi.qualname, k)
            for mine in INTENTS:
                for other in INTENTS:
                    for there in ((True, False) if absent else (True,)):
                        for idx in ((True, False) if index else (False,)):
                            rule.mine, rule.other, rule.there, rule.index = mine, other, there, idx
                            ex = Interp(project, rule).run(frag, env, ts=frozenset())
                            used = 'in' if idx else other
                            got = set()
                            for st, _, _ in ex.ret:
                                val = [x[1] for x in st.ts if x[0] == 'set']
                                got.add(val[0] if val else K(mine) if there else K(other) if any(x[0] == 'copied' for x in st.ts) else NONE)
                            want = join(mine, used) if there else used
                            ok = bool(got) and all(g[0] == 'k' and g[2] is not None and join(g[2], want) == g[2] for g in got)
                            ctx.check(ok, "prebuild", "%s: %s%s meets %s%s" % (where, mine, "" if there else " (new)", other, ", as index" if idx else ""),
                                      "the intent of an argument is %s although a scheme needs %s" % (
                                          ", ".join(sorted(str(g[2]) if g[0] == 'k' else '?' for g in got)), want), fi.where(site))
    if n < 2:
        raise AnalysisBroken("where ccpp_prebuild merges intents was not found")


def check(ctx, project):
    ctx.rule("join", "Var.adjust_intent leaves the join of the two intents, for each of the combinations there are")
    ctx.rule("merge", "VarDictionary.add_variable adjusts the intent of the variable already there, or refuses the new one")
    ctx.rule("group", "each argument of a scheme reaches the scheme's call list and that of its group")
    ctx.rule("calls", "call lists are extended with adjust_intent, and with variables that have an intent")
    ctx.rule("protected", "a protected variable takes no intent but in, and no argument of another intent is connected to it")
    ctx.rule("dummy", "a dummy argument of the host's interface has intent in only if it is protected or a loop variable, else inout")
    ctx.rule("prebuild", "where ccpp_prebuild merges the uses of a variable, the intent left covers the join, for each combination there is")
    check_prebuild(ctx, project)
    check_adjust(ctx, project)
    check_add(ctx, project)
    check_group(ctx, project)
    check_scheme(ctx, project)
    check_calls(ctx, project)
    check_guard(ctx, project)
    check_dummy(ctx, project)
