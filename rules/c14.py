"""C14: what the datatable reports is what ccpp_capgen wrote and used.

The writer of the datatable is interpreted with its elements as paths of tags: what it stores where is a table of (path, attribute or
text) -> values.  The reports are interpreted on the same paths; what they put into their answers is looked up in that table and
compared with what the report is about, and every place they look at has to be one the writer fills."""
import ast

from sa.absint import Interp, Rule, K, TRUE, FALSE, NONE, show, mentions
from sa.project import AnalysisBroken
from rules.c29 import mentions_head

MOD = "ccpp_datafile"
ANY = '*'


def P(name):
    return ('param', name)


def short(name):
    return name.split(".")[-1]


def path(val):
    """Where an element is."""
    if val[0] == 'el':
        return val[1]
    if val[0] == 'elem':
        up = path(val[1])
        return None if up is None else up + (ANY,)
    if val[0] == 'call' and val[1] in ('list', 'iter', 'sorted', 'tuple') and val[3]:
        return path(val[3][0])
    return None


def same(place, read):
    """Does a place the writer fills answer to one that is read?"""
    return len(place) == len(read) and all(r == ANY or w == (r if isinstance(r, tuple) else K(r)) for w, r in zip(place, read))


class Tree(Rule):
    merge = True
    keep_none = True
    merge_over = 1
    liveness = True
    text = True
    max_depth = 7

    def inline(self, fi, depth):
        return fi.module.name == MOD

    def fact(self, st, what):
        return st.with_ts(st.ts | {what})

    def oracle(self, ip, st, atom):
        # what a search does not find is given as None
        return False if atom[0] == 'isnone' and path(atom[1]) is not None else None

    def on_attr(self, ip, st, node, base, attr):
        p = path(base)
        if p is not None and attr in ('text', 'tag'):
            return [(st, (attr, p))]
        return None

    def attribute(self, st, p, name, default):
        return [(st, ('att', p, name))]

    def on_call(self, ip, st, node, name, target, recv, args, kwargs):
        name = short(name)
        p = path(recv) if recv is not None else None
        if p is not None and name == 'get' and args:
            return self.attribute(st, p, args[0], args[1] if len(args) > 1 else kwargs.get('default', NONE))
        if p is not None and name in ('find', 'iterfind', 'findall') and args:
            self.looked(st, p, args[0], node, ip)
            return [(self.fact(st, ('sought', p + (args[0],))), ('el', p + (args[0],))), (st, NONE)]
        return self.call(ip, st, node, name, target, recv, args, kwargs)

    def looked(self, st, p, tag, node, ip):
        pass

    def call(self, ip, st, node, name, target, recv, args, kwargs):
        return None


def defaults(fi):
    a = fi.node.args
    got = {p.arg: d for p, d in zip(reversed(a.posonlyargs + a.args), reversed(a.defaults))}
    got.update({p.arg: d for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
    return {n: NONE if d.value is None else K(d.value) for n, d in got.items() if isinstance(d, ast.Constant)}


# ----------------------------------------------------------------- writing
class Writer(Tree):
    """What is stored where; every member of a collection leaves something."""
    def __init__(self, ctx):
        self.ctx = ctx
        self.queue, self.bare = [], {}
        self.attrs, self.texts, self.places = {}, {}, set()
        self.lookups = []
        self.left, self.loops_seen = {}, {}
        self.asked, self.twice = set(), []

    def on_attr(self, ip, st, node, base, attr):
        if attr == '__class__':
            return [(st, ('class of', base))]
        if attr == '__name__' and base[0] == 'class of':
            src = base[1]
            if src[0] == 'elem' and src[1][0] == 'attr' and src[1][2] == 'groups':
                return [(st, K('Group'))]
        return super().on_attr(ip, st, node, base, attr)

    def looked(self, st, p, tag, node, ip):
        self.lookups.append((p, tag, node, ip.fi))

    def on_stmt(self, ip, st, node):
        # what is made of the members is seen in the loop over them
        return self.effect(ip, st) if isinstance(node, ast.For) else st

    def effect(self, ip, st):
        return st.with_ts(st.ts | {('did', n.lineno) for n in self.live(ip)})

    def live(self, ip):
        return [n for n in ip.loops if isinstance(n, ast.AST)]

    def attribute(self, st, p, name, default):
        return [(st, ('att', p, name))]

    def on_assume(self, ip, st, atom, val):
        if atom[0] == 'truth':
            for x in (atom[1][1] if atom[1][0] == 'j' else (atom[1],)):
                if path(x) is not None:
                    self.bare.setdefault((ip.fi.name, show(x)), ip.fi)
        if atom[0] == 'eq' and any(isinstance(x, tuple) and x[:1] == ('att',) for x in atom[1:]):
            at = [x for x in atom[1:] if x[:1] == ('att',)][0]
            other = [x for x in atom[1:] if x is not at][0]
            self.asked.add((at, other))
            if val:
                return self.fact(st, ('same', at, other))
        return st

    def call(self, ip, st, node, name, target, recv, args, kwargs):
        if name == 'SubElement' and len(args) > 1 and path(args[0]) is not None:
            p = path(args[0]) + (args[1],)
            self.places.add(p)
            return [(self.effect(ip, self.fact(st, ('made', p))), ('el', p))]
        fi = target
        if fi is not None and fi.module.name == MOD and any(path(a) is not None for a in args):
            # analysed on its own, with these arguments
            given = defaults(fi)
            given.update(zip(fi.params, args))
            given.update(kwargs)
            todo = (fi, tuple(sorted(given.items(), key=lambda x: x[0])))
            if all(len(path(a) or ()) < 8 for a in args) and sum(f is fi for f in ip.stack) < 1 and todo not in self.queue:
                self.queue.append(todo)
            return [(self.effect(ip, st), NONE)]
        if name == 'Element' and args:
            self.places.add((args[0],))
            return [(st, ('el', (args[0],)))]
        if name == 'set' and recv is not None and path(recv) is not None and len(args) == 2:
            p = path(recv)
            self.attrs.setdefault((p, args[0]), set()).add(args[1])
            old = [x for x in st.ts if x[0] == 'same' and x[2] == args[1] and ('made', p) in st.ts]
            if old:
                self.twice.append((p, node, ip.fi))
            return [(self.effect(ip, st), NONE)]
        if name in ('add', 'append', 'extend', 'update') and args:
            return ip.builtin(self.effect(ip, st), node, name, recv, args, kwargs)
        return None

    def on_store(self, ip, st, node, kind, base, key, val):
        p = path(base)
        if p is not None and key in ('text', K('text')):
            self.texts.setdefault(p, set()).add(val)
        return self.effect(ip, st)

    def on_iter(self, ip, st, node, it):
        if isinstance(node, ast.For):
            self.loops_seen[node.lineno] = (it, ip.fi, node)

    def counted(self, node):
        """Loops over collections of the run."""
        got = self.loops_seen.get(getattr(node, 'lineno', None))
        if got is None or not isinstance(node, ast.For):
            return None
        it = got[0]
        if path(it) is not None or it[0] in ('l', 'd', 'k', 'j'):
            return None
        return got

    def iter_start(self, ip, st, node):
        st = st.with_ts(frozenset(x for x in st.ts if x != ('did', node.lineno) and x[0] not in ('same',)))
        outer = [('did', n.lineno) for n in self.live(ip) if n is not node]
        return st.with_ts(st.ts | frozenset(outer)) if self.counted(node) else st

    def iter_end(self, ip, st, node):
        got = self.counted(node)
        if got is not None and ('did', node.lineno) not in st.ts:
            self.left.setdefault(node.lineno, (got, []))[1].append(st)
        return st

    def iter_break(self, ip, st, node):
        got = self.counted(node)
        if got is not None:
            self.left.setdefault(node.lineno, (got, []))[1].append(None)
        return st


def written(ctx, project):
    """Interpret the writer: what is where."""
    fi = project.func(MOD, "generate_ccpp_datatable")
    rule = Writer(ctx)
    Interp(project, rule).run(fi, ts=frozenset())
    ctx.saw(fi)
    done = 0
    while done < len(rule.queue):
        sub, given = rule.queue[done]
        done += 1
        ctx.saw(sub)
        Interp(project, rule).run(sub, dict(given), ts=frozenset())
        if done > 400:
            raise AnalysisBroken("the writer of the datatable does not end")
    ctx.count("places", len(rule.places))
    ctx.count("attributes", len(rule.attrs))
    for ln, (it, where, node) in sorted(rule.loops_seen.items()):
        if (rule.counted(node) is None and not any(isinstance(n, ast.comprehension) for n in ast.walk(node.iter))) or where.module.name != MOD:
            continue
        bad = []
        for st in rule.left.get(ln, (None, ()))[1]:
            empty = st is not None and any(a[0] == 'truth' and a[1][0] == 'attr' and a[1][2] == 'parts' and v is False for a, v in st.preds.items())
            if not empty:
                bad.append(st)
        for n in ast.walk(node.iter):
            few = isinstance(n, ast.comprehension) and any(not (isinstance(t, ast.Attribute) and t.attr == 'parts') for t in n.ifs)
            few = few or isinstance(n, ast.keyword) and isinstance(n.value, ast.Constant) and n.value.value is False
            if few or isinstance(n, ast.Slice) or isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'filter':
                bad.append(None)
        ctx.check(not bad, "entry", "%s: %s" % (where.name, show(it)[:90]), "a member of the collection can be left out of the datatable", where.where(node))
    for p, tag, node, where in rule.lookups:
        ctx.check(any(q == p + (tag,) for q in rule.places), "lookup", "%s: %s" % (where.name, show(tag)[:60]),
                  "looks for an element <%s>, which is not written there" % show(tag)[:60], where.where(node))
    for (name, what), where in sorted(rule.bare.items()):
        ctx.bad("lookup", "%s: %s" % (name, what[:60]), "an element without parts counts as missing", where.where())
    # a scheme has one entry, whatever number of groups it is in
    for p in sorted(rule.places, key=str):
        names = rule.attrs.get((p, K('name')), ())
        if p[-1] != K('scheme') or not names:
            continue
        for val in names:
            known = [a for a, b in rule.asked if b == val and a[1][:-1] == p[:-1]]
            twice = [x for x in rule.twice if x[0] == p]
            ctx.check(known and not twice, "once", "scheme", "a scheme that is in several groups gets several entries", project.func(MOD, "_new_scheme_entry").where())
    return rule


# ----------------------------------------------------------------- reading
FILES, SCHEMES, SUITES, DICTS = 'ccpp_files', 'schemes', 'suites', 'var_dictionaries'


class Reader(Tree):
    """One report: what it puts into its answer."""
    join_lists = True
    action = None
    exclude = True
    intent = protected = hidden = None     # what the variable looked at is

    def __init__(self):
        self.read, self.answers, self.finds = {}, {}, {}
        self.sought = set()
        self.turns = []

    def inline(self, fi, depth):
        return fi.module.name == MOD and fi.name not in ('_is_variable_protected', '_find_var_dictionary', '_command_line_parser')

    def note(self, ip, node, place):
        self.read.setdefault(place, ip.fi.where(node))

    def on_attr(self, ip, st, node, base, attr):
        p = path(base)
        if p is not None and attr in ('text', 'tag'):
            if attr == 'text':
                self.note(ip, node, (p, '#'))
            return [(st, (attr, p))]
        return None

    def attribute(self, st, p, name, default):
        if name == K('intent') and self.intent is not None:
            return [(st, K(self.intent))]
        return [(st, ('att', p, name))]

    def looked(self, st, p, tag, node, ip):
        self.note(ip, node, (p + (tag,), None))

    def oracle(self, ip, st, atom):
        if atom[0] == 'in' and atom[1][0] == 'att' and atom[1][2] == K('name') and self.hidden is not None:
            self.sought.add(atom[2])
            return self.hidden
        return super().oracle(ip, st, atom)

    def call(self, ip, st, node, name, target, recv, args, kwargs):
        if name == 'action_is' and args and args[0][0] == 'k':
            return [(st, K(args[0][2] == self.action))]
        if name == '_read_datatable':
            return [(st, ('el', (K('ccpp_datatable'),)))]
        if name == '_find_var_dictionary':
            given = dict(zip(('table', 'dict_name', 'dict_type'), args))
            given.update(kwargs)
            got = ('el', (K('ccpp_datatable'), K(DICTS), ('dict', given.get('dict_name', NONE), given.get('dict_type', NONE))))
            return [(st, got), (st, NONE)]
        if name == '_is_variable_protected':
            where = path(args[2]) if len(args) > 2 else path(kwargs.get('var_dict', NONE))
            host = where is not None and isinstance(where[-1], tuple) and where[-1][:1] == ('dict',) and where[-1][2] == K('host')
            return [(st, K(bool(self.hidden if host and self.action != 'host_variables' else self.protected)))]
        if name == 'get' and recv is not None and path(recv) is not None and args:
            self.note(ip, node, (path(recv), args[0]))
        if name in ('add', 'append') and args:
            val = args[0]
            for x in (val[1] if val[0] == 'j' else (val,)):
                self.answers.setdefault(self.refined(st, x), []).append((dict(st.preds), ip.fi.where(node)))
            return ip.builtin(self.fact(st, ('put', val, ip.loops[-1].lineno if ip.loops else 0)), node, name, recv, args, kwargs)
        return None

    def refined(self, st, val):
        """The place VAL is from, as far as the tags on the way are known."""
        if val[0] not in ('att', 'text'):
            return val
        p = list(val[1])
        for i, tag in enumerate(p):
            if tag == ANY:
                for a, v in st.preds.items():
                    if v and a[0] == 'eq' and ('tag', val[1][:i + 1]) in a[1:]:
                        got = [x for x in a[1:] if x[0] == 'k']
                        if got:
                            p[i] = got[0]
        return (val[0], tuple(p)) + val[2:]

    def iter_start(self, ip, st, node):
        return st.with_ts(frozenset(x for x in st.ts if x[0] != 'put'))

    def on_iter(self, ip, st, node, it):
        if isinstance(node, ast.For):
            self.finds[node.lineno] = path(it)

    def over(self, node):
        """The element whose parts the loop goes through."""
        return self.finds.get(getattr(node, 'lineno', None))

    def iter_end(self, ip, st, node):
        if self.over(node) is not None:
            self.turns.append((self.over(node), [x[1] for x in st.ts if x[0] == 'put' and x[2] == node.lineno], dict(st.preds), node, ip.fi))
        return st

    def iter_break(self, ip, st, node):
        if self.over(node) is not None:
            self.turns.append((self.over(node), None, dict(st.preds), node, ip.fi))
        return st


# reports that name things: what the answer is made of
WANT = {
    'host_files': {'elem(host_files)'},
    'suite_files': {'elem(suite_files)'},
    'utility_files': {'ccpp_kinds'},
    'ccpp_files': {'elem(host_files)', 'elem(suite_files)', 'ccpp_kinds'},
    'suite_list': {'elem(api.suites).name'},
    'module_list': {'elem(scheme_headers).module'},
    'dependencies': {'elem(host_model.metadata_tables()[elem(host_model.metadata_tables())].dependencies)', 'elem(scheme_tdict[elem(scheme_tdict)].dependencies)'},
}


def values(table, val):
    """What the writer puts at the place VAL is read from."""
    out = set()
    if val[0] == 'att':
        for (p, name), vals in table.attrs.items():
            if name == val[2] and same(p, val[1]):
                # (what is copied from the table itself is not new)
                out |= {v for v in vals if v[0] != 'att'}
    elif val[0] == 'text':
        for p, vals in table.texts.items():
            if same(p, val[1]):
                out |= vals
    return out


def excused(preds, wanted):
    """Is what the loop looks at absent, or not what was asked for?"""
    for a, v in preds.items():
        for x in a[1:]:
            if not isinstance(x, tuple) or x[:1] not in (('att',), ('text',), ('tag',)):
                continue
            if a[0] == 'isnone' and v or a[0] == 'truth' and not v:
                return True
            if a[0] == 'eq' and not v and (x[0] == 'tag' and wanted.get('tag') in a[1:] or x[0] == 'att' and x[2] == K('name') and wanted.get('suite')):
                return True
    return False


def dictionary(p):
    """The kind of dictionary whose variables are at P."""
    if p is not None and len(p) == 4 and p[3] == K('variables') and isinstance(p[2], tuple) and p[2][:1] == ('dict',):
        return p[2]
    return None


def report(project, action, **kw):
    fi = project.func(MOD, "datatable_report")
    rule = Reader()
    rule.action = action
    for k, v in kw.items():
        setattr(rule, k, v)
    ex = Interp(project, rule).run(fi, {'exclude_protected': K(rule.exclude)}, ts=frozenset())
    return fi, rule, ex


def reports(project):
    """The names of the reports there are."""
    for node in project.mod(MOD).tree.body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name) and node.targets[0].id == '_VALID_REPORTS':
            try:
                return [x['report'] for x in ast.literal_eval(ast.parse(ast.unparse(node.value).replace(": bool", ": 'bool'").replace(": str", ": 'str'"), mode='eval').body)]
            except (ValueError, KeyError) as exc:
                raise AnalysisBroken("the reports cannot be read: %s" % exc)
    raise AnalysisBroken("_VALID_REPORTS not found")


SHORT = {'host_files': 'host_files', 'suite_files': 'suite_files', 'utility_files': 'utilities', 'ccpp_files': None}
INTENTS = {'required_variables': ('in', 'out', 'inout'), 'input_variables': ('in', 'inout'), 'output_variables': ('out', 'inout'), 'host_variables': ()}


def check_reports(ctx, project, table):
    known = reports(project)
    for action in sorted(set(WANT) | set(INTENTS) | {'process_list'}):
        ctx.check(action in known, "report", action, "the report is not offered any more", MOD)
    for action in known:
        if action == 'show':
            continue
        if action in INTENTS:
            check_variables(ctx, project, table, action)
            continue
        fi, rule, ex = report(project, action)
        ctx.saw(fi)
        if action not in WANT and action != 'process_list':
            raise AnalysisBroken("a report without a rule: %s" % action)
        places(ctx, table, rule, action)
        got, parts = set(), set()
        for val in rule.answers:
            inner = [x for x in atoms(val) if x[0] in ('att', 'text')]
            for x in inner:
                vals = values(table, x)
                if not vals:
                    ctx.bad("place", "%s: %s" % (action, x[2][2] if x[0] == 'att' else 'text'), "the report reads what the writer does not store", fi.where())
                (got if val == x else parts).update(show(v) for v in vals)
        if action == 'process_list':
            ctx.check(parts == {'elem(scheme_headers).process_type', 'elem(elem(elem(api.suites).groups).schemes()).name'}, "content", action,
                      "the report is made of %s" % ", ".join(sorted(parts | got)), fi.where())
        else:
            files = {x for x in got if x.startswith("os.path.join(source_dir")}
            ctx.check(got - files == WANT[action] and (not files or action in ('utility_files', 'ccpp_files')), "content", action,
                      "the report lists %s" % ", ".join(sorted(got)), fi.where())
        wanted = {'tag': K(SHORT[action]) if SHORT.get(action) else None}
        adds = {n.lineno for _, put, _, n, _ in rule.turns if put}
        bad = [(n, f) for p, put, preds, n, f in rule.turns if n.lineno in adds and not put and not excused(preds, wanted) or
               put is None]
        ctx.check(adds and not bad, "each", action, "a part of the table can be left out of the report", bad[0][1].where(bad[0][0]) if bad else fi.where())
        whole = [v for _, v, _ in ex.ret if any(mentions(v, x) for x in raw(rule))]
        ctx.check(bool(whole), "answer", action, "what was collected is not what is returned", fi.where())


def raw(rule):
    return [x[1] for _, put, _, _, _ in rule.turns for x in [(0, y) for y in (put or ())]]


def atoms(val):
    """The places VAL is made of."""
    if not isinstance(val, (tuple, frozenset)):
        return []
    if isinstance(val, tuple) and val and val[0] in ('att', 'text', 'tag'):
        return [val]
    return [y for x in val for y in atoms(x)]


def places(ctx, table, rule, action):
    """What a report looks at is written."""
    for (p, what), where in sorted(rule.read.items(), key=str):
        if dictionary(p) or any(isinstance(x, tuple) and x[:1] == ('dict',) for x in p):
            p = tuple(K('var_dictionary') if isinstance(x, tuple) and x[:1] == ('dict',) else x for x in p)
        if what is None:
            ok = any(same(q, p) for q in table.places)
        elif what == '#':
            ok = any(same(q, p) for q in table.texts)
        else:
            ok = any(same(q, p) and n == what for q, n in table.attrs)
        ctx.check(ok, "place", "%s: %s%s" % (action, "/".join(x if isinstance(x, str) else show(x) for x in p), "" if what is None else
                                             " text" if what == '#' else " @" + show(what)), "the report looks where nothing is written", where)


def check_variables(ctx, project, table, action):
    """Which variables are in a report, by intent and protection."""
    for exclude in (True, False):
        for intent in ('in', 'out', 'inout'):
            for prot in (True, False):
                for hidden in (True, False):
                    if hidden and not exclude:
                        continue
                    fi, rule, ex = report(project, action, exclude=exclude, intent=intent, protected=prot, hidden=hidden)
                    ctx.saw(fi)
                    what = "%s, intent %s%s%s%s" % (action, intent, ", protected" if prot else "", ", protected in the host" if hidden else "",
                                                   ", protected excluded" if exclude else "")
                    places(ctx, table, rule, action) if (exclude, intent, prot, hidden) == (True, 'in', False, False) else None
                    books, some, left = set(), [], 0
                    bad = None
                    for p, put, _, n, f in rule.turns:
                        book = dictionary(p)
                        if book is None:
                            continue
                        books.add(book)
                        if book[2] == K('host'):
                            want = (not (exclude and prot)) if action == 'host_variables' else (exclude and hidden)
                        else:
                            want = intent in INTENTS[action] and not (exclude and (prot or hidden))
                            if hidden and put and not prot and intent in INTENTS[action] and len(put) == 1:
                                # the host may have no variables, then none is left out because of it
                                some.append(put)
                                continue
                            left += not put
                        if put is None or bool(put) != want or any(x != ('att', p + (ANY,), K('name')) for x in put):
                            bad = (want, n, f)
                    if some and not left:
                        bad = (False, fi.node, fi)
                    kind = 'host' if action == 'host_variables' else 'group_call_list'
                    ctx.check(any(b[2] == K(kind) for b in books) and bad is None, "variables", what,
                              "the variable is %s the report" % ("left out of" if bad and bad[0] else "put into" if bad else "not looked for in"),
                              bad[2].where(bad[1]) if bad else fi.where())
                    host = [x for x in atoms(tuple(v for _, v, _ in ex.ret)) if x[0] == 'att' and any(
                        isinstance(y, tuple) and y[:1] == ('dict',) and y[2] == K('host') for y in x[1])]
                    if action != 'host_variables':
                        ctx.check(not host, "variables", what + ": host", "variables of the host are in the report", fi.where())
                        if exclude and hidden:
                            ctx.check(any(x for x in rule.sought if any(y[2] == K('host') for z in atoms(x) for y in z[1] if isinstance(y, tuple) and y[:1] == ('dict',))),
                                      "variables", what + ": left out", "what is protected in the host is not looked for", fi.where())
                    if action != 'host_variables':
                        names(ctx, project, table, rule, what, books, fi)


def names(ctx, project, table, rule, what, books, fi):
    """The dictionaries looked at are the call lists of the groups of the suite asked for."""
    for book in books:
        if book[2] != K('group_call_list'):
            continue
        group = atoms(book[1])
        at = (K('ccpp_datatable'), K(DICTS), K('var_dictionary'))
        ctx.check(book[2] in table.attrs.get((at, K('type')), ()) and any(show(v).endswith(".call_list.name") for v in table.attrs.get((at, K('name')), ())), "place",
                  what + ": call list", "no dictionary of type %s is written" % show(book[2]), fi.where())
        vals = {show(v) for x in group for v in values(table, x)}
        ctx.check(vals == {'elem(elem(api.suites).groups).name'}, "suite", what + ": groups", "the groups looked at are %s" % (", ".join(sorted(vals)) or "unknown"), fi.where())
        for x in group:
            whose = [preds for v, got in rule.answers.items() if v[0] == 'att' and same_tail(v, x) for preds, _ in got]
            ok = whose and all(any(a[0] == 'eq' and v and any(y[:1] == ('att',) and values(table, y) == {('attr', ('elem', ('attr', P('api'), 'suites')), 'name')} for y in a[1:])
                                   for a, v in preds.items()) for preds in whose)
            ctx.check(bool(ok), "suite", what + ": whose", "groups of another suite than the one asked for are looked at", fi.where())
        suffix = [x for x in (book[1][1] if book[1][0] == 's' else ()) if x[0] == 'k' or isinstance(x, str)]
        cons = project.cls("suite_objects", "SuiteObject").methods.get("__init__")
        made = [n for n in ast.walk(cons.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'CallList' and n.args]
        made_as = {c.value for n in made for c in ast.walk(n.args[0]) if isinstance(c, ast.Constant) and isinstance(c.value, str)}
        read_as = {show(x).strip("'") for x in suffix} or {show(book[1]).split("}")[-1]}
        ctx.check(made_as and read_as == made_as, "suite", what + ": call list", "the call list of a group is named with %s but looked for with %s" %
                  (sorted(made_as), sorted(read_as)), cons.where())


def same_tail(a, b):
    return a[2] == b[2] and len(a[1]) == len(b[1]) and a[1][:3] == b[1][:3]


# ----------------------------------------------------------------- finding a dictionary, being protected
class Find(Tree):
    """The dictionaries looked through have (or do not have) the name and the type."""
    def __init__(self, hits):
        self.hits = hits

    def oracle(self, ip, st, atom):
        if atom[0] == 'isnone' and atom[1][0] == 'att':
            return False
        if atom[0] == 'eq':
            for x in atom[1:]:
                if x[0] == 'att' and x[2][0] == 'k':
                    return False if NONE in atom[1:] else self.hits.get(x[2][2])
        return super().oracle(ip, st, atom)


def check_find(ctx, project):
    fi = project.func(MOD, "_find_var_dictionary")
    ctx.saw(fi)
    root = {fi.params[0]: ('el', (K('ccpp_datatable'),))}
    for by_name in (True, False):
        for by_type in (True, False):
            if not (by_name or by_type):
                continue
            for hit_name in (True, False):
                for hit_type in (True, False):
                    rule = Find({'name': hit_name, 'type': hit_type})
                    args = dict(root, dict_name=P('dict_name') if by_name else NONE, dict_type=P('dict_type') if by_type else NONE)
                    preds = {('isnone', P('dict_name')): False, ('isnone', P('dict_type')): False}
                    ex = Interp(project, rule).run(fi, args, ts=frozenset(), preds=preds)
                    found = any(path(x) is not None for _, v, _ in ex.ret for x in (v[1] if v[0] == 'j' else (v,)))
                    want = (hit_name or not by_name) and (hit_type or not by_type)
                    ctx.check(found == want, "dictionary", "%s%s: name %s, type %s" % ("by name " if by_name else "", "by type" if by_type else "", hit_name, hit_type),
                              "a dictionary that %s is %s" % ("matches" if want else "does not match", "passed over" if want else "taken"), fi.where())


class Prot(Tree):
    def __init__(self, hit, val, parent):
        self.hit, self.val, self.parent = hit, val, parent
        self.climbs, self.read = set(), set()

    def attribute(self, st, p, name, default):
        self.read.add((p, name))
        if name == K('protected'):
            return [(st, K(self.val) if self.val is not None else default)]
        if name == K('parent'):
            return [(st, K('up') if self.parent else NONE)]
        return [(st, ('att', p, name))]

    def oracle(self, ip, st, atom):
        if atom[0] == 'eq' and any(x[0] == 'att' and x[2] == K('name') for x in atom[1:]):
            return self.hit
        return super().oracle(ip, st, atom)

    def call(self, ip, st, node, name, target, recv, args, kwargs):
        if name == '_find_var_dictionary':
            self.climbs.add(kwargs.get('dict_name', args[1] if len(args) > 1 else NONE))
            return [(st, ('el', (K('ccpp_datatable'), K(DICTS), K('var_dictionary')))), (st, NONE)]
        return None


def check_protected(ctx, project, table):
    fi = project.func(MOD, "_is_variable_protected")
    ctx.saw(fi)
    args = {fi.params[0]: ('el', (K('ccpp_datatable'),)), fi.params[2]: ('el', (K('ccpp_datatable'), K(DICTS), K('var_dictionary')))}
    read = set()
    for hit in (True, False):
        for val in ('True', 'False', None):
            for parent in (True, False):
                rule = Prot(hit, val, parent)
                ex = Interp(project, rule).run(fi, args, ts=frozenset())
                got = {x for _, v, _ in ex.ret for x in (v[1] if v[0] == 'j' else (v,))}
                yes = hit and val == 'True'
                what = "variable %s, protected=%s%s" % ("found" if hit else "not found", val, ", with a parent" if parent else "")
                ctx.check((TRUE in got) == yes and (yes or got == {FALSE}), "protection", what,
                          "the variable is%s taken for protected" % (" not" if yes else ""), fi.where())
                read |= rule.read
                ctx.check((K('up') in rule.climbs) == parent, "protection", what + ": parents", "the dictionaries above are not looked at", fi.where())


    for p, name in sorted(read, key=str):
        ctx.check(any(same(q, p) and n == name for q, n in table.attrs), "place", "protection: @%s" % show(name), "the report looks where nothing is written", fi.where())


# ----------------------------------------------------------------- what is passed to the writer
class Made(Rule):
    """The lists the run collects."""
    merge = True
    merge_over = 1
    keep_none = True
    max_depth = 0
    wanted = ()

    def __init__(self):
        self.calls, self.ends = [], []

    def inline(self, fi, depth):
        return False

    def on_call(self, ip, st, node, name, target, recv, args, kwargs):
        name = short(name)
        if name == 'generate_ccpp_datatable' and target is not None:
            given = dict(zip(target.params, args))
            given.update(kwargs)
            self.calls.append((given, st, node))
        if name in self.wanted:
            tag = ('made', name)
            return [(st.with_ts(st.ts | {('made', name)}), tag)]
        if name == 'replace_paths' and args:
            return [(st.with_ts(st.ts | {('moved', args[0])}), NONE)]
        return None

    def on_attr(self, ip, st, node, base, attr):
        return None


class Suites(Rule):
    merge = True
    merge_over = 1
    keep_none = True
    max_depth = 0

    def __init__(self):
        self.ends = []

    def inline(self, fi, depth):
        return False

    def on_call(self, ip, st, node, name, target, recv, args, kwargs):
        if short(name) == 'write' and recv is not None and recv[0] == 'elem':
            return [(st.with_ts(st.ts | {('wrote',)}), ('file of', recv))]
        if short(name) in ('append', 'add', 'extend') and args and mentions_head(args[0], 'file of'):
            return ip.builtin(st.with_ts(st.ts | {('kept',)}), node, name, recv, args, kwargs)
        return None

    def iter_start(self, ip, st, node):
        return st.with_ts(frozenset())

    def iter_end(self, ip, st, node):
        self.ends.append((('wrote',) in st.ts, ('kept',) in st.ts))
        return st

    def iter_break(self, ip, st, node):
        self.ends.append((True, False))
        return st


def check_lists(ctx, project):
    fi = project.cls("ccpp_suite", "API").methods["write"]
    ctx.saw(fi)
    rule = Suites()
    ex = Interp(project, rule).run(fi, ts=frozenset())
    ctx.check(all(a == b for a, b in rule.ends) and (not rule.ends or any(a for a, b in rule.ends)) and
              any(mentions_head(v, 'file of') for _, v, _ in ex.ret), "files", "API.write", "a suite cap that is written is not in the list of files", fi.where())
    # a function that writes a file returns its name
    for mod, cls, name in (("ccpp_suite", "Suite", "write"), ("host_cap", None, "write_host_cap"), ("ccpp_capgen", None, "create_kinds_file")):
        fi = project.cls(mod, cls).methods[name] if cls else project.func(mod, name)
        ctx.saw(fi)
        opened = {ast.unparse(n.args[0]) for n in ast.walk(fi.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'FortranWriter' and n.args}
        back = {ast.unparse(n.value) for n in ast.walk(fi.node) if isinstance(n, ast.Return) and n.value is not None}
        ctx.check(opened and opened == back, "files", name, "the name returned (%s) is not the name of the file written (%s)" %
                  (", ".join(sorted(back)), ", ".join(sorted(opened))), fi.where())
    fi = project.func("ccpp_capgen", "capgen")
    ctx.saw(fi)
    rule = Made()
    rule.wanted = ('write', 'write_host_cap', 'create_kinds_file')
    Interp(project, rule).run(fi, ts=frozenset())
    ctx.check(bool(rule.calls), "files", "capgen", "the datatable is not written", fi.where())
    need = {'suite_files': 'write', 'host_files': 'write_host_cap', 'ccpp_kinds': 'create_kinds_file'}
    for given, st, node in rule.calls:
        for param, maker in sorted(need.items()):
            val = given.get(param, NONE)
            did = ('made', maker) in st.ts
            parts = val[1] if val[0] == 'j' else (val,)
            ctx.check(mentions(val, ('made', maker)) if did else all(x == ('l', (), 'list') for x in parts), "files", "%s of the datatable" % param,
                      "the files given to the datatable are not those that %s wrote" % maker, fi.where(node))


RULES = {
    "entry": "every member of a collection that the datatable describes leaves an entry in it",
    "lookup": "the writer looks for elements it writes, and tests whether it found them",
    "once": "a scheme has one entry",
    "report": "the reports are offered",
    "place": "a report looks where the writer writes",
    "content": "a report is made of what it is about",
    "each": "nothing that is in the table is left out of its report",
    "answer": "what was collected is returned",
    "variables": "the variables reported have the intents asked for; protected ones are left out if asked for",
    "suite": "the variables are those of the call lists of the groups of the suite",
    "dictionary": "a dictionary is found by its name and type",
    "protection": "protection is looked for in a dictionary and those above it",
    "files": "the files in the datatable are those that were written",
}


def check(ctx, project):
    for name, text in RULES.items():
        ctx.rule(name, text)
    table = written(ctx, project)
    check_reports(ctx, project, table)
    check_find(ctx, project)
    check_protected(ctx, project, table)
    check_lists(ctx, project)
