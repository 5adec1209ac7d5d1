"""The text a generating function writes, path by path, from its syntax tree.

A state holds the text that string variables are known to have, versions of the other names (so that equal conditions on unchanged
names are taken the same way) and whatever the client keeps in `data`. Text that is not known is a hole, written \\0expression\\1.
Conditions are split into atoms; a name whose value a condition decides keeps it. Loops run until nothing new is found; string
variables a loop appends to keep only a summary the client makes of them.
"""
import ast
import re

from sa.project import ClassInfo, FuncInfo, Module
from sa.liveness import Liveness

HOLE = re.compile("\0[^\0\1]*\1")
LIST = "\2"          # first character of a list of lines
MUTATORS = {"append", "extend", "add", "update", "remove", "discard", "pop", "clear", "insert", "setdefault", "sort", "reverse", "popitem"}


CACHE = {}


def memo(key, make):
    """A fact about a node of the syntax tree (kept alive by the key)."""
    if key not in CACHE:
        CACHE[key] = make()
    return CACHE[key]


def unparse(node):
    return memo(('text', node), lambda: ast.unparse(node))


def hole(expr):
    return "\0" + re.sub("[\0\1]", "", expr) + "\1"


def plain(text):
    """Text with every hole as one \\0."""
    return HOLE.sub("\0", text)


class State:
    __slots__ = ("env", "vers", "facts", "data")

    def __init__(self, env=None, vers=None, facts=None, data=None):
        self.env, self.vers, self.facts, self.data = env or {}, vers or {}, facts or {}, data

    def bind(self, name, val, stamp):
        env = dict(self.env)
        if val is None:
            env.pop(name, None)
        else:
            env[name] = val
        vers = dict(self.vers)
        vers[name] = stamp
        return State(env, vers, {a: v for a, v in self.facts.items() if name not in a[1]}, self.data)

    def fact(self, atom, val):
        facts = dict(self.facts)
        facts[atom] = val
        return State(self.env, self.vers, facts, self.data)

    def with_data(self, data):
        return State(self.env, self.vers, self.facts, data)

    def key(self):
        return (frozenset(self.env.items()), self.data)


class Client:
    def write(self, flow, st, text, node):
        """Text is written: [state]."""
        return [st]

    def call(self, flow, st, name, node):
        """Another call: [state] or None."""
        return None

    def notices(self, name):
        """Does a call of NAME matter to the client?"""
        return True

    def fresh(self):
        """The client for another function; `blank` is the data it starts with."""
        return self

    def blank(self):
        return None

    def summary(self, text):
        """What is kept of text that grows in a loop."""
        return hole("text")

    def matters(self, text):
        """May a text with this in it matter?"""
        return True

    def neutral(self, text):
        return False

    def norm(self, text):
        """A shorter text that means the same to the client."""
        return text

    def imported(self, flow, target, call, texts):
        """Texts of another function, in the terms of this one."""
        return texts

    def iteration(self, flow, st, node):
        return st

    def unsettled(self, flow, node, states):
        """The loop finds ever new states: True when that has been reported."""
        return False

    def leave(self, flow, node, states):
        """States [(state, did an iteration run?)] that leave a loop."""
        return [x for x, _ in states]


class Flow:
    max_states = 4000
    many = 40
    max_steps, bad_steps = 2000000, 20000

    def __init__(self, project, fi, client, cache=None):
        self.p, self.fi, self.client = project, fi, client
        self.cache = {} if cache is None else cache
        self.stack = [fi]
        self.nested = memo(('nested', fi.node), lambda: {n.name: FuncInfo(fi.module, n, fi.cls, fi) for n in ast.walk(fi.node) if isinstance(n, ast.FunctionDef) and n is not fi.node})
        self.ends = []
        self.live = memo(('live', fi.node), lambda: Liveness(fi.node))
        self.opaque = []
        self.steps = 0
        self.kept = memo(('kept', fi.node, type(client)), self.relevant)

    def relevant(self):
        """The names whose text may matter to the client."""
        feeds, kept = {}, set()
        for n in ast.walk(self.fi.node):
            if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign)) and n.value is not None:
                for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                    for name in [x.id for x in ast.walk(t) if isinstance(x, ast.Name)]:
                        feeds.setdefault(name, set()).update(self.names(n.value))
                        for c in self.strings(n.value):
                            if self.client.matters(c):
                                kept.add(name)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('append', 'extend', 'insert') \
                    and isinstance(n.func.value, ast.Name):
                name = n.func.value.id
                for a in n.args:
                    feeds.setdefault(name, set()).update(self.names(a))
                    if any(self.client.matters(c) for c in self.strings(a)):
                        kept.add(name)
        while True:
            more = {n for n, f in feeds.items() if n not in kept and f & kept}
            if not more:
                return kept
            kept |= more

    def strings(self, node):
        for c in ast.walk(node):
            if isinstance(c, ast.Constant) and isinstance(c.value, str):
                yield c.value
            elif isinstance(c, (ast.Name, ast.Attribute)) and isinstance(c.ctx, ast.Load):
                for _, t in self.text(c, State()):
                    if t is not None:
                        yield t

    # ------------------------------------------------------------ running
    def run(self, data=None, env=None):
        """[(state, returned text or None, node)]."""
        self.client.flow = self
        out = self.block(self.fi.node.body, [State(env=dict(env or {}), data=data)])
        for st in out['next']:
            self.ends.append((st, None, None))
        self.ends += out['return']
        return self.ends

    def dedupe(self, states):
        groups = {}
        for s in states:
            k = s.key()
            old = groups.get(k)
            if old is None:
                groups[k] = s
            else:
                facts = {a: v for a, v in old.facts.items() if s.facts.get(a) is v}
                vers, torn = dict(old.vers), set()
                for n in set(old.vers) | set(s.vers):
                    if old.vers.get(n) != s.vers.get(n):
                        vers[n] = ('join', n)
                        torn.add(n)
                facts = {a: v for a, v in facts.items() if not a[1] & torn}
                groups[k] = State(old.env, vers, facts, old.data)
        got = list(groups.values())
        if len(got) > self.many:
            wide = self.widen(got)
            return self.dedupe(wide) if len(wide) == len(got) and any(a is not b for a, b in zip(got, wide)) else wide
        return got

    def widen(self, states):
        """Too many states: what does not matter to the client and differs is forgotten."""
        values = {}
        for s in states:
            for n in s.env:
                values.setdefault(n, set())
        for n in values:
            values[n] = {s.env.get(n) for s in states}
        gone = {n for n, vals in values.items() if len(vals) > 1 and all(v is None or isinstance(v, tuple) or self.client.neutral(v) for v in vals)}
        if not gone:
            return states
        out = []
        for s in states:
            env = {n: v for n, v in s.env.items() if n not in gone}
            env.update({n: hole('x') for n in gone if all(isinstance(v, str) for v in values[n])})
            vers = dict(s.vers)
            vers.update({n: ('wide', n) for n in gone})
            out.append(State(env, vers, {a: v for a, v in s.facts.items() if not a[1] & gone}, s.data))
        return out

    def kept_text(self, name, val):
        if val is None:
            return None
        if val.startswith(LIST):
            got = self.client.norm(val[1:]) if name in self.kept else ""
            return LIST + (got if name in self.kept and got.strip() else hole('x') + "\n" if len(val) > 1 else "")
        return self.client.norm(val) if name in self.kept or val == "" else hole(name)

    def prune(self, st, live):
        dead = [n for n in st.vers if n not in live]
        if not dead:
            return st
        gone = set(dead)
        for n, v in st.vers.items():        # what a live name stands for
            if n not in gone and isinstance(v, tuple) and v[0] == 'expr':
                gone -= v[2]
        return State({n: v for n, v in st.env.items() if n not in gone}, {n: v for n, v in st.vers.items() if n not in gone},
                     {a: v for a, v in st.facts.items() if not a[1] & gone}, st.data)

    def block(self, stmts, states):
        out = {'next': states, 'return': [], 'break': [], 'continue': []}
        for s in stmts:
            if not out['next']:
                break
            cur = self.dedupe(out['next'])
            if len(cur) > self.max_states:
                raise OverflowError("too many states in %s" % self.fi.ident)
            out['next'] = []
            live = self.live.live_out.get(id(s), set()) | self.live.always
            got = self.stmts(s, cur)
            for k, v in got.items():
                out[k] += [self.prune(x, live) for x in v] if k == 'next' else v
        out['next'] = self.dedupe(out['next'])
        return out

    def stmts(self, s, states):
        self.steps += len(states)
        self.client.at = s
        if self.steps > self.max_steps or self.steps > self.bad_steps and getattr(self.client, 'bad', None):
            raise OverflowError("%s takes too long" % self.fi.ident)
        if isinstance(s, ast.If):
            yes, no = [], []
            for st in states:
                for s1, t in self.cond(s.test, st):
                    (yes if t else no).append(s1)
            a, b = self.block(s.body, self.dedupe(yes)), self.block(s.orelse, self.dedupe(no))
            return {k: a[k] + b[k] for k in a}
        if isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            return self.loop(s, states)
        if isinstance(s, ast.With):
            cur = states
            for item in s.items:
                cur = [y for x in cur for y in self.effects(item.context_expr, x)]
                if item.optional_vars is not None:
                    for n in ast.walk(item.optional_vars):
                        if isinstance(n, ast.Name):
                            cur = [x.bind(n.id, None, self.at(n)) for x in cur]
            return self.block(s.body, cur)
        if isinstance(s, ast.Try):
            body = self.block(s.body, states)
            rest = self.block(s.orelse, body['next'])
            out = {k: rest[k] + (body[k] if k != 'next' else []) for k in rest}
            for h in s.handlers:
                got = self.block(h.body, states)
                out = {k: out[k] + got[k] for k in out}
            if s.finalbody:
                got = self.block(s.finalbody, out['next'])
                out = {k: (got[k] if k == 'next' else out[k] + got[k]) for k in out}
            return out
        out = {}
        for st in states:
            for k, v in self.stmt(s, st).items():
                out.setdefault(k, []).extend(v)
        return out

    def stmt(self, s, st):
        if isinstance(s, ast.Return):
            if s.value is None:
                return {'return': [(st, None, s)]}
            return {'return': [(s2, v, s) for s1 in self.effects(s.value, st) for s2, v in self.text(s.value, s1)]}
        if isinstance(s, ast.Raise):
            return {}
        if isinstance(s, ast.Continue):
            return {'continue': [st]}
        if isinstance(s, ast.Break):
            return {'break': [st]}
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            targets = s.targets if isinstance(s, ast.Assign) else [s.target]
            if s.value is None:
                return {'next': [st]}
            out = []
            for s1 in self.effects(s.value, st):
                for s2, v in self.text(s.value, s1):
                    for t in targets:
                        s2 = self.assign(t, v, s2, s.value)
                    out.append(s2)
            return {'next': out}
        if isinstance(s, ast.AugAssign):
            out = []
            for s1 in self.effects(s.value, st):
                if isinstance(s.target, ast.Name) and isinstance(s.op, ast.Add):
                    old = s1.env.get(s.target.id)
                    old = old if isinstance(old, str) else None
                    for s2, v in self.text(s.value, s1):
                        val = None
                        if old is not None and v is not None:
                            val = old + v
                        elif old is not None or v is not None and "\n" in v:
                            val = (old if old is not None else hole(s.target.id)) + (v if v is not None else hole(unparse(s.value)))
                        out.append(s2.bind(s.target.id, self.kept_text(s.target.id, val), self.at(s)))
                else:
                    out.append(self.assign(s.target, None, s1, None))
            return {'next': out}
        if isinstance(s, ast.Expr):
            return {'next': self.effects(s.value, st)}
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            return {'next': [st.bind(s.name, None, self.at(s))]}
        if isinstance(s, ast.Delete):
            return {'next': [st]}
        return {'next': [st]}

    @staticmethod
    def at(node):
        return ('at', node.lineno, node.col_offset)

    def assign(self, target, val, st, value):
        if isinstance(target, ast.Name):
            if value is not None and isinstance(value, ast.Constant) and not isinstance(value.value, str):
                return st.bind(target.id, ('const', value.value), ('const', value.value))
            if value is not None and isinstance(value, ast.Name) and val is None:
                return st.bind(target.id, None, ('copy', value.id, st.vers.get(value.id)))
            stamp = self.at(target)
            if val is None and isinstance(value, (ast.BoolOp, ast.Compare, ast.Call, ast.UnaryOp, ast.Subscript, ast.Attribute)) and target.id not in self.names(value):
                names = self.names(value)
                stamp = ('expr', unparse(value), names, self.versions(names, st)) + stamp
            return st.bind(target.id, self.kept_text(target.id, val), stamp)
        if isinstance(target, (ast.Tuple, ast.List)):
            for t in target.elts:
                st = self.assign(t, None, st, None)
            return st
        root = self.root(target)
        if root is not None and root != 'self':
            return st.bind(root, st.env.get(root) if isinstance(target, ast.Name) else None, self.at(target))
        text = unparse(target)
        return State(st.env, st.vers, {a: v for a, v in st.facts.items() if text not in a[0]}, st.data)

    @staticmethod
    def root(node):
        while isinstance(node, (ast.Attribute, ast.Subscript, ast.Call, ast.Starred)):
            node = node.func if isinstance(node, ast.Call) else node.value
        return node.id if isinstance(node, ast.Name) else None

    def find_assigned(self, s):
        out = {n.id for x in s.body for n in ast.walk(x) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        out |= {self.root(n.func.value) for x in s.body for n in ast.walk(x) if isinstance(n, ast.Call)
                and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS and self.root(n.func.value)}
        out |= {self.root(n) for x in s.body for n in ast.walk(x) if isinstance(n, (ast.Attribute, ast.Subscript))
                and isinstance(n.ctx, ast.Store) and self.root(n) not in (None, 'self')}
        if not isinstance(s, ast.While):
            out |= {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}
        return out

    def idle(self, s):
        """May the loop be skipped: it neither writes, nor collects text that matters, nor returns?"""
        def find():
            if s.orelse or (self.find_assigned(s) & self.kept):
                return False
            for n in ast.walk(s):
                if isinstance(n, (ast.Return, ast.Yield)):
                    return False
                if isinstance(n, ast.Call):
                    f = n.func
                    name = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ""
                    if name == 'write' or self.client.notices(name):
                        return False
            return True
        key = ('idle', s, self.fi.node, type(self.client))
        return memo(key, find)

    def loop(self, s, states):
        out = {'next': [], 'return': [], 'break': [], 'continue': []}
        entry = self.dedupe([x for st in states for x in self.effects(s.iter if not isinstance(s, ast.While) else s.test, st)])
        assigned = memo(('assigned', s), lambda: self.find_assigned(s))
        if self.idle(s):
            # nothing in it matters to the client
            for x in entry:
                for n in sorted(assigned):
                    x = x.bind(n, None, ('loop', s.lineno, s.col_offset))
                out['next'].append(x)
            return out
        done = [(x, False) for x in entry]
        seen = {}
        first = memo(('first', s), lambda: self.first_names(s))
        cur = entry
        breaks = []
        rounds = 0
        while cur:
            rounds += 1
            start = []
            for x in cur:
                k = (x.key(), bool(first) and rounds == 1)
                old = seen.get(k)
                if old is not None:
                    facts = {a: v for a, v in old.facts.items() if x.facts.get(a) is v}
                    if len(facts) == len(old.facts):
                        continue
                    x = State(x.env, x.vers, facts, x.data)
                seen[k] = x
                start.append(x)
            if not start:
                break
            if rounds > 12:
                if not self.client.unsettled(self, s, start):
                    raise OverflowError("the loop at %s does not settle" % self.fi.where(s))
                break
            begin = []
            for x in start:
                facts = {a: v for a, v in x.facts.items() if not (a[1] & assigned)}
                x = State(x.env, x.vers, facts, x.data)
                if not isinstance(s, ast.While):
                    for n in ast.walk(s.target):
                        if isinstance(n, ast.Name):
                            x = x.bind(n.id, None, self.at(n))
                    for kind, what, names in first:
                        if kind == 'index':
                            x = x.bind(what, ('const', 0) if rounds == 1 else ('later',), ('index', rounds == 1))
                        else:
                            x = x.fact(self.atom(what, names, x), rounds == 1)
                    begin.append(self.client.iteration(self, x, s))
                else:
                    begin += [self.client.iteration(self, y, s) for y, t in self.cond(s.test, x) if t]
            got = self.block(s.body, begin)
            out['return'] += got['return']
            breaks += got['break']
            back = got['next'] + got['continue']
            nxt = []
            for x in self.dedupe(back):
                env = dict(x.env)
                for n, v in list(env.items()):
                    if n in assigned and isinstance(v, str) and any(isinstance(e.env.get(n), str) and v != e.env[n] and v.startswith(e.env[n]) and v != ""
                                                                    for e in start) and ("\n" in v or rounds > 2):
                        env[n] = self.client.summary(v)
                nxt.append(State(env, x.vers, {a: v for a, v in x.facts.items() if not (a[1] & assigned)}, x.data))
            cur = self.dedupe(nxt)
            done += [(x, True) for x in cur]
        after = []
        infinite = isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and s.test.value
        if not infinite:
            for x in self.client.leave(self, s, done):
                if isinstance(s, ast.While):
                    after += [y for y, t in self.cond(s.test, x) if not t]
                else:
                    after.append(x)
        if s.orelse:
            got = self.block(s.orelse, self.dedupe(after))
            for k in out:
                out[k] += got[k]
        else:
            out['next'] += after
        out['next'] = self.dedupe(out['next'] + breaks)
        return out

    def first_names(self, s):
        """What in the body tells the first iteration: [('index', name, None) | ('fact', text, node)]."""
        if isinstance(s, ast.While):
            return []
        out, item, over = [], s.target, s.iter
        if isinstance(over, ast.Call) and isinstance(over.func, ast.Name) and over.func.id == 'enumerate' and len(over.args) == 1 \
                and isinstance(item, ast.Tuple) and len(item.elts) == 2 and isinstance(item.elts[0], ast.Name):
            out.append(('index', item.elts[0].id, None))
            item, over = item.elts[1], over.args[0]
        elif isinstance(over, ast.Call) and isinstance(over.func, ast.Name) and over.func.id == 'range' and isinstance(item, ast.Name) \
                and (len(over.args) == 1 or isinstance(over.args[0], ast.Constant) and over.args[0].value == 0):
            out.append(('index', item.id, None))
        for n in ast.walk(s):
            if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
                a, b = unparse(n.left), unparse(n.comparators[0])
                if a == unparse(item) and b == unparse(over) + "[0]":
                    for rel in ("is", "=="):
                        out.append(('fact', "%s %s %s" % (a, rel, b), n))
        return out

    # ------------------------------------------------------------ conditions
    def names(self, node):
        return memo(('names', node), lambda: frozenset(n.id for n in ast.walk(node) if isinstance(n, ast.Name)))

    def cond(self, test, st):
        """[(state, bool)]."""
        if isinstance(test, ast.BoolOp):
            stop = isinstance(test.op, ast.Or)
            atom = self.atom(unparse(test), test, st)
            if atom in st.facts:
                return [(st, st.facts[atom])]
            out, cur = [], [st]
            for v in test.values:
                nxt = []
                for x in cur:
                    for y, t in self.cond(v, x):
                        (out.append((y, stop)) if t is stop else nxt.append(y))
                cur = nxt
            return [(x.fact(atom, t), t) for x, t in out + [(x, not stop) for x in cur]]
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return [(x, not t) for x, t in self.cond(test.operand, st)]
        if isinstance(test, ast.Constant):
            return [(st, bool(test.value))]
        if isinstance(test, ast.Name):
            v = st.env.get(test.id)
            if v == ('later',):
                return [(st, True)]
            if isinstance(v, tuple):
                return [(st, bool(v[1]))]
            if v == LIST:
                return [(st, False)]
            if v is not None and HOLE.sub("", v.strip(LIST)):
                return [(st, True)]
            if v == "":
                return [(st, False)]
        neg = False
        if isinstance(test, ast.Compare) and len(test.ops) == 1:
            op, left, right = test.ops[0], test.left, test.comparators[0]
            if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
                neg = isinstance(op, (ast.IsNot, ast.NotEq))
                a, b = self.constant(left, st), self.constant(right, st)
                if ('later',) in (a, b):
                    if ('k', 0) in (a, b):
                        return [(st, neg)]
                elif a is not None and b is not None:
                    return [(st, (a == b) is not neg)]
                rel = "is" if isinstance(op, (ast.Is, ast.IsNot)) else "=="
                text = "%s %s %s" % (unparse(left), rel, unparse(right))
            elif isinstance(op, (ast.In, ast.NotIn)):
                neg = isinstance(op, ast.NotIn)
                text = "%s in %s" % (unparse(left), unparse(right))
            else:
                a, b = self.constant(left, st), self.constant(right, st)
                if a is not None and b is not None and a[0] == 'k' == b[0] and all(isinstance(x[1], int) for x in (a, b)):
                    x, y = a[1], b[1]
                    return [(st, x < y if isinstance(op, ast.Lt) else x <= y if isinstance(op, ast.LtE) else x > y if isinstance(op, ast.Gt) else x >= y)]
                if a == ('later',) and b in (('k', 0), ('k', 1)):
                    if isinstance(op, ast.Gt) and b[1] == 0 or isinstance(op, ast.GtE):
                        return [(st, True)]
                    if isinstance(op, ast.LtE) and b[1] == 0 or isinstance(op, ast.Lt):
                        return [(st, False)]
                text = unparse(test)
        else:
            text = unparse(test)
        cur = self.effects(test, st)
        out = []
        for x in cur:
            atom = self.atom(text, test, x)
            got = x.facts.get(atom)
            vers = x.vers.get(test.id) if isinstance(test, ast.Name) else None
            if got is not None:
                out.append((x, got is not neg))
            elif isinstance(vers, tuple) and vers[0] == 'expr' and vers[3] == self.versions(vers[2], x):
                # the name stands for a condition
                out += [(y.fact(atom, t), t) for y, t in self.cond(ast.parse(vers[1], mode='eval').body, x)]
            else:
                out += [(x.fact(atom, t), t is not neg) for t in (True, False)]
        return out

    @staticmethod
    def versions(names, st):
        return str(tuple((n, str(st.vers.get(n))) for n in sorted(names)))

    def atom(self, text, node, st):
        names = self.names(node)
        return (text + " " + self.versions(names, st), names)

    def constant(self, node, st):
        """('k', value) or None."""
        if isinstance(node, ast.Constant):
            return ('k', node.value)
        if isinstance(node, ast.Name):
            v = st.env.get(node.id)
            if v == ('later',):
                return ('later',)
            if isinstance(v, tuple):
                return ('k', v[1])
            if isinstance(v, str) and "\0" not in v:
                return ('k', v)
        return None

    # ------------------------------------------------------------ text
    def effects(self, node, st):
        """States after the calls in NODE (innermost first)."""
        cur = [st]
        for call in self.calls(node):
            nxt = []
            for x in cur:
                nxt += self.do_call(call, x)
            cur = self.dedupe(nxt)
        return cur

    def calls(self, node):
        return memo(('calls', node), lambda: self.find_calls(node))

    def find_calls(self, node):
        out = []

        def visit(n):
            if isinstance(n, (ast.Lambda, ast.FunctionDef)):
                return
            for c in ast.iter_child_nodes(n):
                visit(c)
            if isinstance(n, ast.Call):
                out.append(n)
        visit(node)
        return out

    def do_call(self, call, st):
        f = call.func
        if isinstance(f, ast.Attribute) and f.attr == 'write' and call.args:
            out = []
            for x, t in self.text(call.args[0], st):
                if t is None:
                    self.opaque.append(call)
                    got = self.client.call(self, x, 'write', call)
                    out += [x] if got is None else got
                else:
                    out += self.client.write(self, x, t, call)
            return out
        name = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None
        got = self.client.call(self, st, name, call)
        if got is not None:
            return got
        if isinstance(f, ast.Attribute) and f.attr in ('append', 'extend') and isinstance(f.value, ast.Name) and len(call.args) == 1:
            old = st.env.get(f.value.id)
            if isinstance(old, str) and old.startswith(LIST):
                out = []
                for x, t in self.text(call.args[0], st):
                    if f.attr == 'extend':
                        new = old + (t[1:] if t is not None and t.startswith(LIST) else hole('lines') + "\n")
                    else:
                        new = old + (self.line(call.args[0], t)) + "\n"
                    out.append(x.bind(f.value.id, self.kept_text(f.value.id, new), self.at(call)))
                return out
        if isinstance(f, ast.Attribute) and f.attr in MUTATORS:
            root = self.root(f.value)
            if root is not None and root != 'self':
                return [st.bind(root, None, self.at(call))]
        return [st]

    @staticmethod
    def line(node, text):
        return hole(unparse(node)) if text is None else text.lstrip(LIST)

    def text(self, node, st):
        """[(state, text or None)]; None: not known to be a text."""
        if isinstance(node, ast.Constant):
            return [(st, node.value if isinstance(node.value, str) else None)]
        if isinstance(node, ast.Name):
            v = st.env.get(node.id)
            if isinstance(v, str):
                return [(st, v)]
            if node.id in st.vers:
                return [(st, None)]
            target = self.p.resolve(self.fi.module, node.id)
            if isinstance(target, tuple) and target[0] == 'const':
                return self.text(target[2], st) if isinstance(target[2], (ast.Constant, ast.JoinedStr, ast.BinOp)) else [(st, None)]
            return [(st, None)]
        if isinstance(node, ast.Attribute):
            cls = self.fi.cls
            if isinstance(node.value, ast.Name):
                if node.value.id not in ('self', 'cls'):
                    target = self.p.resolve(self.fi.module, node.value.id)
                    cls = target if isinstance(target, ClassInfo) else None
                if cls is not None:
                    _, val = self.p.find_class_const(cls, node.attr)
                    if val is not None:
                        return self.text(val, st) if isinstance(val, (ast.Constant, ast.JoinedStr, ast.BinOp, ast.Call)) else [(st, None)]
            return [(st, None)]
        if isinstance(node, ast.JoinedStr):
            cur = [(st, "")]
            for v in node.values:
                if isinstance(v, ast.Constant):
                    cur = [(s, t + v.value) for s, t in cur]
                else:
                    nxt = []
                    for s, t in cur:
                        for s2, x in self.text(v.value, s):
                            nxt.append((s2, t + (x if x is not None else hole(unparse(v.value)))))
                    cur = nxt
            return cur
        if isinstance(node, ast.BinOp) and isinstance(node.op, ast.Add):
            out = []
            for s, a in self.text(node.left, st):
                for s2, b in self.text(node.right, s):
                    if a is None and b is None:
                        out.append((s2, None))
                    else:
                        out.append((s2, (a if a is not None else hole(unparse(node.left))) + (b if b is not None else hole(unparse(node.right)))))
            return out
        if isinstance(node, ast.BinOp) and isinstance(node.op, ast.Mod):
            return [(s, None if t is None else re.sub(r"%[-\d.]*[sdir]", lambda m: hole(unparse(node.right)), t)) for s, t in self.text(node.left, st)]
        if isinstance(node, ast.IfExp):
            out = []
            for s, t in self.cond(node.test, st):
                out += self.text(node.body if t else node.orelse, s)
            return out
        if isinstance(node, ast.Call):
            return self.call_text(node, st)
        if isinstance(node, ast.Tuple) and node.elts:
            return self.text(node.elts[0], st)
        if isinstance(node, ast.List):
            cur = [(st, LIST)]
            if node.elts and all(isinstance(e, (ast.Call, ast.Name, ast.Attribute, ast.Subscript, ast.List)) and self.text(e, st)[0][1] is None for e in node.elts):
                return [(st, None)]
            for e in node.elts:
                nxt = []
                for s1, t in cur:
                    for s2, x in self.text(e, s1):
                        nxt.append((s2, None if t is None or x is None and not isinstance(e, (ast.JoinedStr, ast.Call, ast.Name, ast.Attribute, ast.Subscript))
                                    else t + self.line(e, x) + "\n"))
                cur = nxt
            return cur
        return [(st, None)]

    def call_text(self, node, st):
        f = node.func
        if isinstance(f, ast.Attribute) and f.attr == 'format':
            out = []
            for s, t in self.text(f.value, st):
                if t is None:
                    out.append((s, None))
                    continue
                fills = [(s, {})]
                for i, a in enumerate(node.args):
                    fills = [(s2, dict(d, **{str(i): v if v is not None else hole(unparse(a))})) for s1, d in fills for s2, v in self.text(a, s1)]
                for kw in node.keywords:
                    if kw.arg is not None:
                        fills = [(s2, dict(d, **{kw.arg: v if v is not None else hole(unparse(kw.value))}))
                                 for s1, d in fills for s2, v in self.text(kw.value, s1)]
                out += [(s1, fill(t, d)) for s1, d in fills]
            return out
        if isinstance(f, ast.Attribute) and f.attr in ('strip', 'rstrip', 'lstrip', 'lower', 'upper') and not node.args:
            return [(s, None if t is None else t.strip() if f.attr == 'strip' else t.rstrip() if f.attr == 'rstrip' else t.lstrip()
                     if f.attr == 'lstrip' else t) for s, t in self.text(f.value, st)]
        if isinstance(f, ast.Attribute) and f.attr == 'join':
            out = []
            for s, t in self.text(f.value, st):
                for s2, x in self.text(node.args[0], s) if node.args else [(s, None)]:
                    if t is not None and x is not None and x.startswith(LIST):
                        out.append((s2, x[1:-1] if "\n" in t else x[1:-1].replace("\n", t)))
                    else:
                        out.append((s2, None if t is None else hole(unparse(node))))
            return out
        if isinstance(f, ast.Attribute) and f.attr in ('replace', 'ljust', 'rjust'):
            return [(s, None if t is None else hole(unparse(node)) if "\n" not in t else t) for s, t in self.text(f.value, st)]
        if isinstance(f, ast.Name) and f.id in ('str', 'repr'):
            return [(st, hole(unparse(node)))]
        if isinstance(f, ast.Name) and f.id == 'list' and not node.args:
            return [(st, LIST)]
        target, args = self.target(node, st)
        if target is not None:
            got = self.returned(target, args)
            if got:
                return [(st, t) for t in self.client.imported(self, target, node, got)]
        return [(st, None)]

    # ------------------------------------------------------------ other functions of the generator
    depth = 0
    max_depth = 4

    def target(self, call, st):
        """(the function a call runs, {parameter: text}) or (None, None)."""
        f, fi = call.func, None
        skip = 0
        if isinstance(f, ast.Name):
            if f.id in self.nested:
                fi = self.nested[f.id]
            elif f.id not in st.vers:
                got = self.p.resolve(self.fi.module, f.id)
                fi = got if isinstance(got, FuncInfo) else None
        elif isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name):
            cls = self.fi.cls
            if f.value.id not in ('self', 'cls'):
                got = self.p.resolve(self.fi.module, f.value.id) if f.value.id not in st.vers else None
                if isinstance(got, Module):
                    fi = got.funcs.get(f.attr)
                cls = got if isinstance(got, ClassInfo) else None
            if cls is not None and fi is None:
                fi = self.p.find_method(cls, f.attr)
                skip = 1 if fi is not None and not fi.is_static and f.value.id in ('self', 'cls') or fi is not None and fi.is_classmethod else 0
        if fi is None:
            return None, None
        args = {}
        names = fi.params[skip:]
        for n, a in list(zip(names, call.args)) + [(k.arg, k.value) for k in call.keywords if k.arg]:
            if isinstance(a, ast.Constant) and not isinstance(a.value, str):
                args[n] = ('const', a.value)
                continue
            got = self.text(a, st)
            if len(got) == 1 and got[0][1] is not None and HOLE.sub("", got[0][1]) and self.client.matters(got[0][1]):
                args[n] = got[0][1]
            elif isinstance(a, ast.Name) and isinstance(st.env.get(a.id), tuple):
                args[n] = st.env[a.id]
        return fi, args

    def sub(self, fi, args):
        """The ends of another function, or None."""
        if self.depth >= self.max_depth or fi.node in [x.node for x in self.stack]:
            return None
        key = (id(fi.node), frozenset(args.items()))
        if key not in self.cache:
            self.cache[key] = None
            flow = type(self)(self.p, fi, self.client.fresh(), self.cache)
            flow.depth, flow.stack = self.depth + 1, self.stack + [fi]
            flow.nested = dict(self.nested, **flow.nested)
            try:
                flow.run(data=self.client.blank(), env=args)
                self.cache[key] = flow
            except OverflowError:
                pass
        return self.cache[key]

    def returned(self, fi, args):
        """The texts a function hands back."""
        if not memo(('hands back', fi.node), lambda: any(isinstance(n, ast.Return) and n.value is not None for n in ast.walk(fi.node))):
            return None
        if not any(isinstance(v, str) for v in args.values()) and not memo(('has text', fi.node, type(self.client)), lambda: any(
                self.client.matters(c) for c in type(self)(self.p, fi, self.client, self.cache).strings(fi.node))):
            return None
        flow = self.sub(fi, args)
        if flow is None:
            return None
        texts = {None if t is None else LIST + self.client.norm(t[1:]) if t.startswith(LIST) else self.client.norm(t)
                 for _, t, n in flow.ends if n is not None}
        return sorted(texts) if None not in texts else None


def fill(text, values):
    """TEXT with its {fields} replaced."""
    out, auto, i = "", 0, 0
    while i < len(text):
        c = text[i]
        if c == "\0":
            j = text.index("\1", i)
            out += text[i:j + 1]
            i = j + 1
        elif text.startswith("{{", i) or text.startswith("}}", i):
            out += c
            i += 2
        elif c == "{":
            j = text.find("}", i)
            if j < 0:
                return out + text[i:]
            field = text[i + 1:j].split("!")[0].split(":")[0]
            if field == "":
                field = str(auto)
                auto += 1
            out += values.get(field, hole(field))
            i = j + 1
        else:
            out += c
            i += 1
    return out
