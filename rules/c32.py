"""C32: what the group caps of ccpp_prebuild pass to a scheme.

One turn of the loop over the arguments of a scheme in Group.write is interpreted; the names of local copies and pointers are terms of
their own.  For every path, the lines it adds before and after the call and the argument it adds are read as a small program: what is in
the copy when the scheme is called, and what is in the host's variable afterwards."""
import ast
import re

from sa.absint import Interp, Rule, K, NONE, fragment, mentions, show
from sa.project import AnalysisBroken
from rules.c16 import P, short, parts_of, lit, strip, opens

MOD = "mkstatic"
CALL = re.compile(r"call \{(\w+)\}\(\{(\w+)\}\)")


def lines_of(parts):
    """PARTS as lines, each a tuple of parts, without blanks at both ends."""
    lines, cur = [], []
    for p in parts:
        if lit(p) is None:
            cur.append(p)
            continue
        first, *more = p.split('\n')
        cur.append(first)
        for x in more:
            lines.append(cur)
            cur = [x]
    lines.append(cur)
    return [x for x in (strip([p for p in ln if p != '']) for ln in lines) if x]


def sum_of(val):
    """The parts of a text put together."""
    if val[:2] == ('bin', 'Add'):
        return sum_of(val[2]) + sum_of(val[3])
    parts = parts_of(val)
    if parts and lit(parts[0]) is None and parts[0][:2] == ('bin', 'Add'):
        return sum_of(parts[0]) + parts[1:]
    return parts


class Turn(Rule):
    merge = True
    keep_none = True
    merge_over = 1
    max_parts = 200
    join_lists = True
    max_states = 4000

    def __init__(self, var):
        self.var = var
        self.stored = {}            # attribute of a copy -> what is stored there
        self.kept = []              # (table, key, what) kept for the next request
        self.names = []             # names given to copies

    def inline(self, fi, depth):
        return False

    def on_call(self, ip, st, node, name, target, recv, args, kwargs):
        name = short(name)
        if name == 'rstrip' and recv is not None:
            return [(st, recv)]
        if name == 'join' and args:
            return [(st, ('joined', node.lineno))]
        if name in ('deepcopy', 'copy') and args:
            return [(st, ('copyof', args[0], node.lineno))]
        if name == 'format' and recv is not None and recv[0] not in ('k', 's'):
            return [(st, ('convert', recv, kwargs.get('var', NONE)))]
        return None

    def entry(self, base):
        return base[0] == 'copyof' or base[0] == 'item' and base[1][0] == 'param' and base[1] != P('metadata_define')

    def on_attr(self, ip, st, node, base, attr):
        if attr == 'local_name' and self.entry(base):
            return [(st, ('name', base))]
        if base[0] == 'copyof' and attr not in ('pointer', 'actions'):
            return [(st, ('attr', base[1], attr))]
        return None

    def on_store(self, ip, st, node, kind, base, key, val):
        if kind == 'attr' and base[0] == 'copyof':
            if key == 'local_name':
                self.names.append((base, val, ip.fi.where(node)))
            else:
                self.stored.setdefault((base, key), set()).add(val)
        if kind == 'item' and val[0] == 'copyof':
            self.kept.append((base, key, val, ip.fi.where(node)))
        return st

    def on_assume(self, ip, st, atom, val):
        if any(x[0] == 'inside' for x in st.ts) and not mentions(atom, ('attr', self.var, 'intent')):
            return st
        return st.with_ts(st.ts | {('took', atom, val)})

    def iter_start(self, ip, st, node):
        return st.with_ts(st.ts | {('inside', node.lineno)})

    def iter_end(self, ip, st, node):
        return st.with_ts(st.ts - {('inside', node.lineno)})

    iter_break = iter_end

    def seq_of(self, ip, it):
        """Two dimensions stand for any number of them: a variable whose dimensions are looked at has some."""
        return [('elem', it), ('elem', it)] if it[0] == 'attr' and it[2] == 'dimensions' else None


class Path:
    """One path of a turn: its texts, and what was asked on it."""

    def __init__(self, check, st, before, after, arg, where):
        self.check, self.where = check, where
        self.before, self.after, self.arg = before, after, arg
        self.took = {x[1]: x[2] for x in st.ts if x[0] == 'took'}

    def known(self, term):
        """Is TERM known to be true?"""
        if ('truth', term) in self.took:
            return self.took[('truth', term)]
        if self.took.get(('isnone', term)):
            return False
        return None

    def equal(self, term, const):
        """Is TERM known to be the constant?"""
        for atom, val in self.took.items():
            if atom[0] == 'eq' and term in atom[1:]:
                other = atom[2] if atom[1] == term else atom[1]
                if other == K(const):
                    return val
                if other[0] == 'k' and val:
                    return False
            if atom[0] == 'in' and atom[1] == term and atom[2][0] == 'l' and all(x[0] == 'k' for x in atom[2][1]):
                if K(const) not in atom[2][1] and val:
                    return False
                if K(const) in atom[2][1] and not val:
                    return False
        return None

    def not_one(self, term, consts):
        """Is TERM known to be none of the constants?"""
        return all(self.equal(term, c) is False for c in consts)


class Check:
    def __init__(self, ctx, turn, cond, std, var):
        self.ctx, self.turn, self.cond, self.std, self.var = ctx, turn, cond, std, var
        self.stage, self.stages = None, ()
        self.faults = {}
        self.n = {'paths': 0, 'copies': 0, 'pointers': 0, 'lines': 0}

    def fault(self, rule, what, path):
        self.faults.setdefault((rule, what), path.where)

    def host(self, val):
        """Does VAL name the host's variable?"""
        names = [('item', ('item', P(t), self.std), K('name')) for t in self.tables(val)]
        return mentions(val, ('attr', self.var, 'target')) or any(mentions(val, n) for n in names)

    @staticmethod
    def tables(val):
        out = set()

        def walk(x):
            if isinstance(x, tuple):
                if len(x) == 3 and x[0] == 'item' and isinstance(x[1], tuple) and x[1][:1] == ('param',):
                    out.add(x[1][1])
                for y in x:
                    walk(y)
        walk(val)
        return out

    def same(self, a, b):
        """Two names of the same copy: as it is made, or from the table it was kept in."""
        def norm(x):
            if x[0] == 'name' and x[1][0] == 'copyof':
                kept = {(t, k) for t, k, v, _ in self.turn.kept if v == x[1]}
                if len(kept) == 1:
                    return ('name', ('item',) + kept.pop())
            return x
        return norm(a) == norm(b)

    def expand(self, parts):
        """PARTS with what earlier requests kept, in all ways."""
        alts = [()]
        for p in parts:
            vals = [p]
            if lit(p) is None:
                alts_p = list(p[1]) if p[0] == 'j' else [p]
                vals = []
                for q in alts_p:
                    if q[0] == 'item' and q[1][0] == 'attr' and q[2][0] == 'k' and self.turn.entry(q[1][1]):
                        key = q[1][2]
                        dicts = {d for (base, k), ds in self.turn.stored.items() if k == key for d in ds}
                        found = [v for d in dicts if d[0] == 'd' for kk, v in d[1] if kk == q[2]]
                        vals += found or [q]
                    else:
                        vals.append(q)
            new = []
            for v in vals:
                sub = (v,) if lit(v) is not None else parts_of(v)
                more = self.expand(sub) if sub != (v,) else [sub]
                new += [a + m for a in alts for m in more]
            alts = new
        return alts

    # ------------------------------------------------------------ lines
    def guarded(self, path, lines, when):
        stack = []
        for ln in lines:
            head = lit(ln[0])
            low = head.lower().replace(' ', '') if head is not None else ''
            if len(ln) == 1 and low in ('endif', 'enddo'):
                if stack:
                    stack.pop()
                continue
            if low.startswith('!'):
                continue
            cond = opens(ln)
            if not stack and cond != (self.cond,):
                if path.equal(self.cond, '.true.') is not True:
                    self.fault("guarded", "a line %s the call is not in a block on the condition of the variable" % when, path)
            self.n['lines'] += 1
            if cond is not None:
                stack.append(cond)
            elif low.startswith('do') and '=' in low:
                stack.append('do')
        if stack:
            self.fault("guarded", "a block opened %s the call is not closed" % when, path)

    def statement(self, ln):
        """(kind, left, right) of a line: allocate, deallocate, nullify, =>, =, or None."""
        head = lit(ln[0])
        if head is not None:
            low = head.lower().replace(' ', '')
            for kind in ('deallocate', 'allocate', 'nullify'):
                if low.startswith(kind + '('):
                    return (kind, [p for p in ln if lit(p) is None][0] if len(ln) > 1 else None, None)
        for i, p in enumerate(ln):
            if lit(p) is not None:
                for sign in ('=>', '='):
                    m = re.search(r'(?<![<>/=])%s(?![=>])' % sign, p)
                    if m:
                        left = tuple(ln[:i]) + (p[:m.start()],)
                        right = (p[m.end():],) + tuple(ln[i + 1:])
                        return (sign, strip([x for x in left if x != '']), strip([x for x in right if x != '']))
        return (None, None, None)

    def what(self, parts):
        """'host', ('temp', name), ('ptr', name), ('convert', which, what) or None."""
        parts = [p for p in parts if lit(p) is None or lit(p).strip()]
        if not parts or lit(parts[0]) is not None:
            return None
        first = parts[0]
        while first[0] == 'call' and first[1] == 'replace' and first[2] is not None:
            first = first[2]
        if first[0] == 'name':
            if len(parts) > 1 and lit(parts[1]) is not None and lit(parts[1]).startswith('_array('):
                return ('ptr', first)
            return ('temp', first)
        if first[0] == 'convert':
            which = first[1]
            if which[0] == 'item' and which[1] == ('attr', self.var, 'actions') and which[2][0] == 'k':
                return ('convert', which[2][2], self.what(parts_of(first[2])))
            return ('convert', None, None)
        if first[0] == 'bin' and first[1] == 'Add':
            return self.what((first[2],))
        return 'host' if self.host(first) else None

    # ------------------------------------------------------------ paths
    def path(self, path):
        self.n['paths'] += 1
        arg = [p for p in path.arg if lit(p) is None or lit(p).strip(' &\n')]
        if not arg:
            if not any(a[0] == 'in' and a[1] == self.std and v is False for a, v in path.took.items()):
                self.fault("argument", "an argument of the scheme is left out of the call", path)
            return
        if arg[0] != ('attr', self.var, 'local_name') or len(arg) < 3 or not (lit(arg[1]) or '').strip().startswith('='):
            self.fault("argument", "an argument is not passed by the name of the dummy argument", path)
            return
        if ',' not in (lit(arg[-1]) or '') and not any((lit(p) or '').rstrip(' &\n').endswith(',') for p in path.arg):
            self.fault("argument", "an argument is not followed by a comma", path)
        value = self.what([lit(arg[1]).split('=', 1)[1]] + arg[2:])
        always = path.equal(self.cond, '.true.') is True
        for before in self.expand(path.before):
            for after in self.expand(path.after):
                self.flow(path, lines_of(before), lines_of(after), value, always)

    def flow(self, path, before, after, value, always):
        self.guarded(path, before, "before")
        self.blocked(path, before)
        self.guarded(path, after, "after")
        act = {x: path.known(('item', ('attr', self.var, 'actions'), K(x))) for x in ('in', 'out')}
        target, temp, filled, alloc = None, None, None, None
        for ln in before:
            kind, left, right = self.statement(ln)
            if kind == 'allocate' and left is not None and left[0] == 'name':
                alloc = left
            elif kind == '=>':
                p = self.what(left)
                if p is None or p[0] != 'ptr':
                    self.fault("pointer", "what is associated is not a pointer of the group", path)
                target = (p, self.what(right), filled)
            elif kind == '=':
                to, val = self.what(left), self.what(right)
                if to is None or to == 'host' or to[0] != 'temp':
                    if to == 'host':
                        self.fault("copied", "the host's variable is changed before the call", path)
                    continue
                temp = to[1]
                if val == 'host':
                    filled = 'host'
                elif val == ('convert', 'in', 'host'):
                    filled = 'converted'
                elif val and val[0] == 'convert' and val[1] == 'in' and val[2] and val[2][0] == 'temp' and self.same(val[2][1], temp) \
                        and filled == 'host':
                    filled = 'converted'
                else:
                    self.fault("copied", "the local copy gets something else than the host's variable", path)
        # what the scheme gets
        got = value
        if value and value[0] == 'ptr':
            self.n['pointers'] += 1
            if always:
                self.fault("argument", "a variable that always exists is passed by a pointer which is never associated", path)
            if target is None or not self.same(target[0][1], value[1]):
                self.fault("pointer", "the pointer that is passed is not associated before the call", path)
                return
            got = target[1]
            nulls = [ln for ln in after if self.statement(ln)[0] == 'nullify']
            if not any(self.same(self.statement(ln)[1], value[1]) for ln in nulls):
                self.fault("pointer", "the pointer that was passed stays associated after the call", path)
        elif not always:
            self.fault("argument", "a variable that exists under a condition is passed itself, not by a pointer", path)
        if got is None:
            self.fault("argument", "what is passed is neither the host's variable nor a copy of it", path)
            return
        if got == 'host':
            if act['in'] or act['out']:
                self.fault("argument", "a variable whose units differ is passed without conversion", path)
            if act['in'] is None or act['out'] is None:
                if not path.took.get(('truth', ('attr', self.var, 'actions'))) is False:
                    self.fault("argument", "a variable is passed itself whether or not its units differ", path)
            return
        # a copy
        self.n['copies'] += 1
        name = got[1]
        if temp is not None and not self.same(temp, name):
            self.fault("copied", "the copy that is filled is not the one that is passed", path)
        if act['in'] is not False and filled != 'converted':
            self.fault("copied", "a copy is passed without the conversion of its units", path)
        if act['in'] is False and filled == 'converted':
            self.fault("copied", "the units of a copy are converted although they are the same", path)
        if target is not None and target[2] != filled:
            pass
        plain = any(
            self.what(self.statement(ln)[2] or ()) == 'host' and self.statement(ln)[0] == '=' for ln in before)
        if plain and path.equal(self.stage, 'run') is not False:
            self.fault("stages", "blocked data may be copied in the run phase", path)
        self.back(path, after, name, filled, act, alloc, plain)

    def is_blocked(self, path):
        return next((v for a, v in path.took.items() if a[0] == 'in' and 'block' in show(a[1]) and a[2][:1] == ('item',) and self.host(a[2])), None)

    def blocked(self, path, before):
        """Blocked data are copied to one array where a scheme is called for all blocks."""
        if any(self.statement(ln)[0] == '=' and self.what(self.statement(ln)[2]) == 'host' for ln in before):
            return
        if self.is_blocked(path) is False:
            return
        if any(path.equal(self.stage, x) is not False for x in self.stages if x != 'run'):
            self.fault("stages", "blocked data may be passed block by block outside of the run phase", path)

    def back(self, path, after, name, filled, act, alloc, plain):
        """After the call: from the copy to the host's variable."""
        state, back, freed = 'scheme', None, False
        for ln in after:
            kind, left, right = self.statement(ln)
            if kind == 'deallocate' and left is not None and self.same(left, name):
                freed = True
            elif kind == '=':
                to, val = self.what(left), self.what(right)
                used = val and (val[0] == 'temp' and val[1] or val[0] == 'convert' and val[2] and val[2][0] == 'temp' and val[2][1]) or None
                if used is None:
                    continue
                if freed:
                    self.fault("copied", "a copy is used after it was deallocated", path)
                if not self.same(used, name):
                    self.fault("copied", "the host's variable gets the copy of another variable", path)
                conv = val[0] == 'convert' and val[1] == 'out'
                if to and to[0] == 'temp':
                    state = 'converted' if conv else state
                elif to == 'host':
                    back = 'converted' if conv or state == 'converted' else 'plain'
        intent = ('attr', self.var, 'intent')
        only_in = path.equal(intent, 'in') is True or path.not_one(intent, ('inout', 'out'))
        if act['out']:
            if back != 'converted':
                # blocked data of intent in is not copied back
                if not (plain and only_in):
                    self.fault("copied", "what the scheme changed in a copy is not converted and copied back", path)
        elif back == 'converted':
            self.fault("copied", "a copy is converted back although it needs no conversion", path)
        elif back is None and plain and not only_in:
            self.fault("copied", "what the scheme changed in a copy of blocked data is not copied back", path)
        if alloc is not None and not freed:
            self.fault("copied", "a copy is allocated but not deallocated after the call", path)
        if freed and alloc is None:
            self.fault("copied", "a copy is deallocated but was not allocated", path)


def find_call(fi):
    """The names of the texts of the actions before, the arguments and the actions after a call."""
    for node in ast.walk(fi.node):
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr == 'format' and \
                isinstance(node.func.value, ast.Constant) and isinstance(node.func.value.value, str):
            m = CALL.search(node.func.value.value)
            if m:
                order = re.findall(r"\{(\w+)\}", node.func.value.value)
                kw = {k.arg: next((x.id for x in ast.walk(k.value) if isinstance(x, ast.Name)), None) for k in node.keywords}
                return node, kw, order, m
        if isinstance(node, ast.JoinedStr):
            text = "".join(v.value if isinstance(v, ast.Constant) else "{%s}" % next(
                (x.id for x in ast.walk(v.value) if isinstance(x, ast.Name)), '_') for v in node.values)
            m = CALL.search(text)
            if m:
                order = re.findall(r"\{(\w+)\}", text)
                return node, {x: x for x in order}, order, m
    raise AnalysisBroken("Group.write: the line of the call was not found")


def all_stages(project):
    """The keys of CCPP_STAGES."""
    keys = {node.targets[0].slice.value for node in project.mod('common').tree.body if isinstance(node, ast.Assign) and
            ast.unparse(node.targets[0]).startswith('CCPP_STAGES[') and isinstance(node.targets[0].slice, ast.Constant)}
    if 'run' not in keys:
        raise AnalysisBroken("the phases were not found")
    return sorted(keys)


def check_kept(ctx, chk, turn, std):
    """What is kept, and looked for, under the name of the host's variable."""
    bad = False
    for table, key, val, where in turn.kept:
        if not (key[0] == 'item' and key[1][0] == 'item' and key[1][2] == std and key[2] == K('name')):
            ctx.bad("kept", "kept under " + show(key)[:60], "a copy or pointer is not kept under the name of the host's variable", where)
            bad = True
    texts = {}
    for base, val, where in turn.names:
        parts = parts_of(val)
        count = [p for p in parts if lit(p) is None and p[0] == 'bin' and p[1] == 'Add' and p[3] == K(1)]
        if not count:
            ctx.bad("kept", "name of a copy", "the names of two copies or pointers may be the same: %s" % show(val)[:80], where)
            bad = True
        text = "".join(lit(p) if lit(p) is not None else '#' if p in count else '*' for p in parts)
        if (text, base) not in texts.values() and text in [t for t, _ in texts.values()]:
            ctx.bad("kept", "names " + text, "copies made in two places may have the same name", where)
            bad = True
        texts[base] = (text, base)
    if not turn.kept or not turn.names:
        raise AnalysisBroken("Group.write: no copies are kept")
    if not bad:
        ctx.ok("kept", "copies and pointers", "")


class Tail(Rule):
    """What is done with the calls of a subcycle."""
    keep_none = True
    max_parts = 200

    def inline(self, fi, depth):
        return False

    def on_assume(self, ip, st, atom, val):
        return st.with_ts(st.ts | {('took', atom, val)})


def added_to(nodes):
    """Names of what is added to in NODES (x += ..., x = ... x ...)."""
    out = set()
    for node in nodes:
        for x in ast.walk(node):
            if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name):
                out.add(x.target.id)
            elif isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and any(
                    isinstance(z, ast.Name) and z.id == x.targets[0].id for z in ast.walk(x.value)):
                out.add(x.targets[0].id)
    return out


def check_loops(ctx, project, fi, schemes, cycles, phases):
    """The text of a subcycle is put into the body of the phase once, in a loop if it has several turns."""
    frag, env = fragment(fi, lambda n: n in cycles.body)
    frag.node.body = cycles.body[cycles.body.index(schemes) + 1:] if schemes in cycles.body else None
    if not frag.node.body:
        raise AnalysisBroken("Group.write: what follows the schemes of a subcycle was not found")
    env.update({p: P(p) for p in fi.params})
    filled = added_to([schemes])
    assigned = added_to(frag.node.body)
    used = {x.id for s in frag.node.body for x in ast.walk(s) if isinstance(x, ast.Name)} & filled - assigned
    if len(used) != 1:
        raise AnalysisBroken("Group.write: the text of the calls of a subcycle was not found")
    calls = P(used.pop())
    stage, turns = P(phases.target.id), ('attr', P(cycles.target.id), 'loop')
    ex = Interp(project, Tail()).run(frag, args=env, ts=frozenset())
    bad = {}
    for st, _, _ in ex.ret:
        took = {x[1]: x[2] for x in st.ts if x[0] == 'took'}
        body = [parts_of(v) for n, v in st.env.items() if n in assigned and P(n) == parts_of(v)[0]
                and any(p == calls for p in parts_of(v)[1:])]
        if not body:
            if took.get(('truth', calls)) is not False:
                bad["the calls of a subcycle are left out of the body"] = 1
            continue
        parts = body[0][1:]
        if sum(p == calls for p in parts) != 1:
            bad["the calls of a subcycle are written more than once"] = 1
        at = parts.index(calls)
        head, tail = lines_of(parts[:at]), lines_of(parts[at + 1:])
        run = next((v for a, v in took.items() if a[0] == 'eq' and set(a[1:]) == {stage, K('run')}), None)
        many = next((v for a, v in took.items() if a == ('lt', K(1), turns)), None)
        if many is None:
            many = next((not v for a, v in took.items() if a[0] in ('lt', 'le') and a in (('le', turns, K(1)), ('lt', turns, K(2)))), None)
        loops = [ln for ln in head if (lit(ln[0]) or '').lower().startswith('do ')]
        ends = [ln for ln in tail if len(ln) == 1 and (lit(ln[0]) or '').lower().replace(' ', '') == 'enddo']
        some = next((v for a, v in took.items() if a[0] == 'truth' and 'parents' in show(a[1])), None)
        if some is False:
            continue
        if run and many:
            if len(loops) != 1 or turns not in loops[0] or re.sub(r'\s', '', lit(loops[0][0]))[-3:] != '=1,':
                bad["a subcycle with several turns is not written as a loop from 1 to their number"] = 1
        elif (run is None or run) and (many is None or many):
            bad["whether a subcycle is a loop does not depend on phase and number of turns"] = 1
        elif loops:
            bad["a subcycle is a loop outside of the run phase or with one turn"] = 1
        if len(loops) != len(ends):
            bad["the loop of a subcycle is not closed"] = 1
        starts = sum((lit(ln[0]) or '').lower().startswith('associate') for ln in head)
        stops = sum((lit(ln[0]) or '').lower().replace(' ', '') == 'endassociate' for ln in tail)
        if starts != stops:
            bad["the association of the loop counter is not closed"] = 1
    for what in sorted(bad):
        ctx.bad("loops", what, what, fi.where(cycles))
    if not bad:
        ctx.ok("loops", "subcycles", fi.where(cycles))
    ctx.count("paths after the schemes of a subcycle", len(ex.ret))


def check(ctx, project):
    ctx.rule("argument", "every argument of a scheme is passed once, by the name of the dummy argument: the host's variable itself, a copy "
             "in the scheme's units, or a pointer if the variable exists under a condition")
    ctx.rule("copied", "a copy holds the host's variable, converted if the units differ, when the scheme is called; what the scheme may have "
             "changed is converted and copied back; the copy is deallocated")
    ctx.rule("pointer", "a pointer is associated with the variable or its copy before the call and nullified after it")
    ctx.rule("guarded", "what is done for a variable before and after the call lies in a block on the condition of the variable")
    ctx.rule("kept", "a copy or pointer kept for a later scheme is kept, and looked for, under the name of the host's variable")
    ctx.rule("loops", "the calls of a subcycle are written once, in a loop over its turns if it has several and the phase is the run phase")
    ctx.rule("stages", "blocked data are copied in every phase but the run phase")
    fi = project.cls(MOD, 'Group').methods.get('write')
    if fi is None:
        raise AnalysisBroken("Group.write not found")
    ctx.saw(fi)
    call, kw, order, m = find_call(fi)
    args = kw[m.group(2)]
    place = order.index(m.group(2))
    around = [kw[x] for x in order]
    if place < 2 or len(around) <= place + 1:
        raise AnalysisBroken("Group.write: what is written before and after the call was not found")
    before, after = around[0], around[-1]
    # the turn of the loop over the arguments
    loops = [x for x in ast.walk(fi.node) if isinstance(x, ast.For) and isinstance(x.target, ast.Name) and args in added_to([x])]
    if not loops:
        raise AnalysisBroken("Group.write: the loop over the arguments was not found")
    loop = min(loops, key=lambda x: x.end_lineno - x.lineno)
    std = P(loop.target.id)
    inner = next((x for x in loop.body if isinstance(x, ast.For) and isinstance(x.target, ast.Name)), None)
    if inner is None:
        raise AnalysisBroken("Group.write: where the variable of the scheme is picked was not found")
    var = P(inner.target.id)
    conds = [x for x in loop.body if isinstance(x, ast.Assign) and isinstance(x.value, ast.Subscript) and
             isinstance(x.value.value, ast.Name) and 'cond' in x.value.value.id]
    if not conds:
        raise AnalysisBroken("Group.write: where the condition of the variable is looked up was not found")
    frag, env = fragment(fi, lambda n: n in loop.body)
    # from after what derives the dimensions on
    start = max([0] + [i + 1 for i, x in enumerate(loop.body[:loop.body.index(conds[0])]) if any(isinstance(y, ast.For) for y in ast.walk(x))])
    frag.node.body = loop.body[start:]
    env.update({p: P(p) for p in fi.params})
    key = conds[0].value.slice
    own = isinstance(key, ast.Name) and P(key.id) == std
    ctx.check(own, "guarded", "condition looked up", "the condition is the one of another variable", fi.where(conds[0]))
    if not own:
        return
    cond = ('item', P(conds[0].value.value.id), std)
    outer = sorted((x for x in ast.walk(fi.node) if isinstance(x, ast.For) and x is not loop and any(y is loop for y in ast.walk(x))),
                   key=lambda x: x.end_lineno - x.lineno)
    if len(outer) < 3 or not all(isinstance(x.target, ast.Name) for x in outer[:3]):
        raise AnalysisBroken("Group.write: the loops over phases, subcycles and schemes were not found")
    schemes, cycles, phases = outer[:3]
    turn = Turn(var)
    ex = Interp(project, turn).run(frag, args=env, ts=frozenset())
    chk = Check(ctx, turn, cond, std, var)
    chk.stage = P(phases.target.id)
    chk.stages = all_stages(project)
    for st, _, node in ex.ret:
        new = []
        for name in (before, after, args):
            parts = sum_of(st.env[name])
            if parts[0] != P(name):
                raise AnalysisBroken("Group.write: %s does not start with what it was: %s" % (name, show(st.env[name])[:200]))
            new.append(parts[1:])
        chk.path(Path(chk, st, new[0], new[1], new[2], fi.where(loop)))
    for st, _, node in ex.exc:
        path = Path(chk, st, (), (), (), fi.where(node) if hasattr(node, 'lineno') else fi.where(loop))
        if not any(x[0] == 'inside' for x in st.ts) and chk.is_blocked(path) and not any(
                a[0] == 'in' and a[2] == ('attr', var, 'dimensions') and v is False for a, v in path.took.items()):
            chk.fault("stages", "blocked data with a horizontal dimension may be refused in a phase", path)
    for k, v in chk.n.items():
        ctx.count(k, v)
    if chk.n['copies'] < 4 or chk.n['pointers'] < 4:
        raise AnalysisBroken("Group.write: copies or pointers were not understood")
    for (rule, what), where in sorted(chk.faults.items()):
        ctx.bad(rule, what, what, where)
    check_kept(ctx, chk, turn, std)
    check_loops(ctx, project, fi, schemes, cycles, phases)
    for rule in ("argument", "copied", "pointer", "guarded", "stages"):
        if not any(r == rule for r, _ in chk.faults):
            ctx.ok(rule, "paths of a turn", fi.where(loop))
