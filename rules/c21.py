"""C21: the hash table keeps every entry, finds it again and iterates over each of them once."""
from sa import fortran as F
from sa.fabs import Interp, Rule, K, TRUE, FALSE, NULL, NONEMPTY, ANY, mentions
from sa.project import AnalysisBroken
from rules.c22 import sources, is_text
from rules.c20 import Lib, loc, find_type

RULES = {
    "bounds": "every position of the table that is used lies in [1, table size]",
    "bucket": "add and lookup use the position that the hash of their key gives",
    "hash": "the hash depends on nothing but the key without trailing blanks and the parameters of the table, which it leaves alone",
    "lookup": "a lookup returns an entry only if its key equals the key asked for, and none only where every entry of the chain was compared",
    "add": "an entry is linked only at a free place at the end of its chain, with its value, and only if its key is not in the table yet; "
           "otherwise the error is reported",
    "count": "the number of values grows by one exactly where an entry is linked, and is what num_values returns",
    "empty": "initialize and clear leave no entries and count none; initialize allocates what table size says",
    "foreign": "nothing else changes the entries, and freeing an entry never frees the value it points to",
    "successor": "the iterator moves to the entry that follows in the table and skips none; it ends only after the last one",
    "current": "key and value of the iterator are those of its entry where the iterator is valid, and nothing where it is not",
}


def check(ctx, project):
    mods = sources(project.repo)
    for name, text in RULES.items():
        ctx.rule(name, text)
    tables = find_type(mods, ("add_hash_key", "table_value", "key_hash", "clear", "num_values"))
    iters = find_type(mods, ("next", "valid", "key", "value", "initialize"))
    if len(tables) != 1 or len(iters) != 1:
        raise AnalysisBroken("the hash table types were not found")
    t = Table(ctx, mods, tables[0], iters[0])
    t.hashing()
    t.lookup()
    t.add()
    t.lifecycle()
    t.iterate()
    for p in t.lib.seen:
        ctx.saw(p.where())
    ctx.at_least("bounds", 3)
    ctx.at_least("bucket", 2)
    ctx.at_least("lookup", 2)
    ctx.at_least("add", 3)
    ctx.at_least("count", 3)
    ctx.at_least("successor", 4)
    ctx.at_least("current", 3)


def one(what, items):
    items = list(items)
    if len(items) != 1:
        raise AnalysisBroken("%s: found %d, expected one" % (what, len(items)))
    return items[0]


def strip(v):
    while isinstance(v, tuple) and v[:2] == ('t', 'trim'):
        v = v[2][0]
    return v


class Table:
    def __init__(self, ctx, mods, table, iterator):
        self.ctx, self.mods, self.table, self.iterator = ctx, mods, table, iterator
        self.lib = Lib(ctx, mods, table)
        arr = one("array of entries", [c for c in table.comps.values() if c.base == 'type' and c.has('allocatable')])
        self.array = arr.name
        self.entry = one("entry type", [t for m in mods for t in m.types.values() if t.name == arr.tname])
        self.next = one("next entry", [c.name for c in self.entry.comps.values() if c.tname == self.entry.name and c.has('pointer')])
        self.value = one("entry value", [c.name for c in self.entry.comps.values() if c.tname != self.entry.name and c.has('pointer')])
        num = self.proc(table, "num_values")
        self.count = one("count", {s[3][2] for s in F.walk_stmts(num.body) if s[0] == '=' and s[2] == ('n', num.result) and s[3][0] == '%'})
        ok = self.proc(iterator, "valid")
        self.size = one("table size", {x[2] for s in F.walk_stmts(ok.body) for e in F.exprs_of(s) for x in F.walk_expr(e) if x[0] == '%'
                                       and x[2] in table.comps and table.comps[x[2]].base == 'integer' and x[2] not in iterator.comps})
        self.index = one("iterator position", [c.name for c in iterator.comps.values() if c.base == 'integer'])
        self.at = one("iterator entry", [c.name for c in iterator.comps.values() if c.tname == self.entry.name])
        self.owner = one("iterator table", [c.name for c in iterator.comps.values() if c.tname == table.name])

    def proc(self, t, b):
        return self.lib.proc(t, b)

    def run(self, proc, rule, setup=None):
        ip = Interp(self.mods, rule)
        rule.top = proc
        frame, ends = ip.run(proc, setup=setup)
        self.lib.seen |= ip.visited
        return ip, frame, ends

    def report(self, rule, proc, kinds):
        for kind in kinds:
            for (k, what), at in sorted(rule.bad.items()):
                if k == kind:
                    self.ctx.bad(kind, "%s %s" % (proc.ident, what), what, at)
            n = [x for x in rule.done if x[0] == kind]
            for x in sorted(n):
                self.ctx.ok(kind, "%s %s" % (proc.ident, x[1]), proc.where())

    # ------------------------------------------------------------ hash
    def hashing(self):
        ctx, proc = self.ctx, self.proc(self.table, "key_hash")
        rule = Hashing(self)
        ip, frame, ends = self.run(proc, rule)
        text = one("key argument", [a for a in proc.args if is_text(proc.decls[a]) is False and proc.decls[a].base == 'character']
                   or [a for a in proc.args if proc.decls[a].base == 'character' and proc.decls[a].intent == 'in'])
        this = loc(proc, proc.args[0])
        ctx.check(not rule.written, "hash", "%s writes" % proc.ident, "the hash changes %s" % ", ".join(sorted(rule.written)), proc.where())
        ctx.check(not rule.whole, "hash", "%s blanks" % proc.ident, "the hash depends on the trailing blanks of the key", proc.where(min(rule.whole or [proc.line])))
        loose = {p for p in rule.read if p[:3] not in (this, loc(proc, text))}
        loose = {p for p in loose if p[1] == proc.name and p[2] in proc.args}
        ctx.check(not loose, "hash", "%s inputs" % proc.ident, "the hash depends on %s" % ", ".join(sorted(p[2] for p in loose)), proc.where())
        used = {p[3] for p in rule.read if p[:3] == this and len(p) > 3}
        moved = {c for c in used if c in rule_changes(self) or c == self.count}
        ctx.check(not moved, "hash", "%s parameters" % proc.ident, "the hash depends on %s, which adding an entry changes" % ", ".join(sorted(moved)), proc.where())
        bad = [s for s in ends if not self.in_range(s, s.env.get(loc(proc, proc.result)), this) and not self.told(s, proc)]
        ctx.check(ends and not bad, "bounds", "%s result" % proc.ident, "a position outside the table is returned without an error", proc.where())

    def in_range(self, st, v, table):
        if v is None:
            return False
        size = st.env.get(table + (self.size,), ('init', table + (self.size,)))
        return self.positive(st, v) and self.within(st, v, size)

    def positive(self, st, v):
        if v[0] == 'k':
            return isinstance(v[1], int) and v[1] >= 1
        if st.facts.get(('<', v, K(1))) is False or st.facts.get(('<', K(0), v)) is True:
            return True
        if v[:2] == ('t', '+'):
            k = [x for x in v[2] if x[0] == 'k' and x[1] >= 1]
            return bool(k) and all(self.natural(st, x) for x in v[2])
        if v[:2] == ('any', 'do'):
            low = self.low(st, v)
            return low is not None and self.positive(st, low)
        return False

    def low(self, st, v):
        return next((a[2] for a, t in st.facts.items() if a[0] == '<' and a[1] == v and t is False), None)

    def natural(self, st, v):
        if v[0] == 'k':
            return isinstance(v[1], int) and v[1] >= 0
        if v[0] == 'init' and v[1][-1] == self.index or v[:2] == ('any', 'loop') and v[2][-1] == self.index:
            return True         # every value stored there is, see Iterating.on_store
        return self.positive(st, v) or st.facts.get(('<', v, K(0))) is False

    def within(self, st, v, size):
        if st.facts.get(('<', size, v)) is False or v == size:
            return True
        if v[:2] == ('t', '+') and len(v[2]) == 2 and K(1) in v[2]:
            x = next((a for a in v[2] if a != K(1)), K(1))
            return st.facts.get(('<', x, size)) is True
        if v == K(1):
            return st.facts.get(('<', K(0), size)) is True
        return False

    def told(self, st, proc):
        """An error text is set."""
        return any(proc.decls[a].base == 'character' and proc.decls[a].intent in ('out', 'inout') and st.env.get(loc(proc, a)) == NONEMPTY for a in proc.args)

    # ------------------------------------------------------------ lookup
    def key_of(self, proc):
        return one("key argument", [a for a in proc.args if proc.decls[a].base == 'character' and proc.decls[a].intent == 'in'])

    def lookup(self):
        ctx, proc = self.ctx, self.proc(self.table, "table_value")
        rule = Walk(self, loc(proc, proc.args[0]), ('init', loc(proc, self.key_of(proc))))
        ip, frame, ends = self.run(proc, rule)
        self.report(rule, proc, ("bounds", "bucket"))
        wrong, early, found = [], [], 0
        for s in ends:
            v = s.env.get(loc(proc, proc.result))
            if v == NULL:
                if ('absent',) not in s.ts and ('error',) not in s.ts:
                    early.append(s)
                if ('error',) in s.ts and not self.told(s, proc):
                    early.append(s)
            elif v is not None and v[0] == 'ptr' and v[1][-2:] == (self.value, '->') and rule.same(s, v[1][:-2]) is True:
                found += 1
            else:
                wrong.append(s)
        ctx.check(found and not wrong, "lookup", "%s hit" % proc.ident, "an entry is returned that need not have the key asked for", proc.where())
        ctx.check(not early, "lookup", "%s miss" % proc.ident, "no entry is returned although some were not compared", proc.where())

    # ------------------------------------------------------------ add
    def add(self):
        ctx, proc = self.ctx, self.proc(self.table, "add_hash_key")
        this = loc(proc, proc.args[0])
        new = one("value to add", [a for a in proc.args[1:] if proc.decls[a].base in ('class', 'type')])
        rule = Walk(self, this, ('t', 'keyof', (loc(proc, new),)), loc(proc, new))
        ip, frame, ends = self.run(proc, rule)
        self.report(rule, proc, ("bounds", "bucket", "add"))
        linked = [s for s in ends if any(e[0] == 'linked' for e in s.ts)]
        ctx.check(linked, "add", "%s links" % proc.ident, "no entry is linked", proc.where())
        for s in linked:
            places = [e for e in s.ts if e[0] == 'linked']
            if len(places) > 1:
                ctx.bad("add", "%s twice" % proc.ident, "a value is linked at two places", proc.where())
            for e in places:
                if e[1] is not None and s.env.get(e[1] + (self.value,)) != ('ptr', loc(proc, new)):
                    ctx.bad("add", "%s value" % proc.ident, "an entry is linked without the value", proc.where())
        silent = [s for s in ends if s not in linked and not self.told(s, proc)]
        ctx.check(not silent, "add", "%s reports" % proc.ident, "a value is not added and no error is reported", proc.where())
        start = ('init', this + (self.count,))
        for s in ends:
            got = s.env.get(this + (self.count,), start)
            want = ip.arith('+', start, K(1)) if s in linked else start
            if got != want:
                ctx.bad("count", "%s %s" % (proc.ident, "added" if s in linked else "not added"),
                        "the count is not what it has to be where a value is %sadded" % ("" if s in linked else "not "), proc.where())
        ctx.ok("count", "%s added" % proc.ident, proc.where())

    # ------------------------------------------------------------ rest
    def lifecycle(self):
        ctx = self.ctx
        num = self.proc(self.table, "num_values")
        ip, frame, ends = self.run(num, Walk(self, loc(num, num.args[0]), None))
        ctx.check(all(s.env.get(loc(num, num.result)) == ('init', loc(num, num.args[0]) + (self.count,)) for s in ends), "count",
                  num.ident, "num_values does not return the count", num.where())
        for b in ("initialize", "clear"):
            proc = self.proc(self.table, b)
            this = loc(proc, proc.args[0])
            rule = Walk(self, this, None)
            ip, frame, ends = self.run(proc, rule)
            ctx.check(all(s.env.get(this + (self.count,)) == K(0) for s in ends), "count", "%s" % proc.ident, "the count is not reset", proc.where())
            if b == "clear":
                good = [s.env.get(('alloc', this + (self.array,))) is False or s.facts.get(('alloc', this + (self.array,))) is False for s in ends]
                ctx.check(all(good), "empty", proc.ident, "entries are kept", proc.where())
            else:
                good = [('fresh', s.env.get(this + (self.size,))) in s.ts and ('stale',) not in s.ts for s in ends]
                ctx.check(all(good), "empty", proc.ident, "the array is not allocated anew with the table size", proc.where())
        known = {self.proc(self.table, "add_hash_key"), self.proc(self.table, "initialize"), self.proc(self.table, "clear")}
        finals = [self.lib.procs[f] for f in self.entry.finals if f in self.lib.procs]
        module = one("module", [m for m in self.mods if self.table.name in m.types])
        helpers = closure(self, known | set(finals))
        for proc in module.procs.values():
            if proc in known:
                continue
            stores = set()
            for s in F.walk_stmts(proc.body):
                e = s[2] if s[0] in ('=', '=>') else None
                if e is not None and e[0] == '%' and e[2] in (self.value, self.next) and proc not in helpers and not self.local(proc, e):
                    stores.add(s[1])
                if e is not None and e[0] == '%' and e[2] == self.count and proc not in helpers:
                    stores.add(s[1])
            ctx.check(not stores, "foreign", "%s stores" % proc.ident, "%s changes entries of the table" % proc.name, proc.where(min(stores or [proc.line])))
        for proc in finals + [p for p in module.procs.values() if p not in finals]:
            for s in F.walk_stmts(proc.body):
                if s[0] == 'deallocate':
                    hit = [e for kw, e in s[2] if kw is None and e[0] == '%' and e[2] == self.value]
                    if hit:
                        ctx.bad("foreign", "%s frees" % proc.ident, "the value of an entry is freed although others own it", proc.where(s[1]))
        for proc in finals:
            rule = Final(self, proc)
            ip, frame, ends = self.run(proc, rule)
            ctx.check(not rule.bad, "foreign", "%s value" % proc.ident, "the value of an entry is freed although others own it", proc.where())
            ctx.check(rule.freed, "foreign", "%s chain" % proc.ident, "the entries that follow are not freed", proc.where())

    def local(self, proc, e):
        return False

    # ------------------------------------------------------------ iterator
    def position_setup(self, proc):
        def setup(ip, st, frame):
            me = loc(proc, proc.args[0])
            table = me + (self.owner, '->')
            st = st.fact(('assoc', ('ptr', table)), True)
            index, size = ('init', me + (self.index,)), ('init', table + (self.size,))
            return st.fact(('<', size, index), False)
        return setup

    def iterate(self):
        ctx = self.ctx
        for b in ("initialize", "next"):
            proc = self.proc(self.iterator, b)
            me = loc(proc, proc.args[0])
            rule = Steps(self, me, b == "initialize")
            ip, frame, ends = self.run(proc, rule, None if b == "initialize" else self.position_setup(proc))
            self.report(rule, proc, ("bounds", "successor"))
            start = ('init', me + (self.index,))
            for s in ends:
                idx = s.env.get(me + (self.index,), start)
                if b == "next" and s.facts.get(('<', K(0), start)) is False:
                    if idx not in (start, K(0)):
                        ctx.bad("successor", "%s invalid" % proc.ident, "an iterator that has ended becomes valid again", proc.where())
                    continue
                if idx == K(0):
                    size = rule.size_of(s)
                    if ('ended',) not in s.ts and not (b == "initialize" and ('swept', K(1), size) in s.ts):
                        ctx.bad("successor", "%s end" % proc.ident, "the iterator ends before the last entry", proc.where())
                elif ('moved',) not in s.ts:
                    ctx.bad("successor", "%s moves" % proc.ident, "the iterator can stay where it is", proc.where())
                elif ('arrived',) not in s.ts:
                    ctx.bad("successor", "%s entry" % proc.ident, "the iterator can stop at a position without an entry", proc.where())
                if ('arrived',) in s.ts and ('head',) in s.ts and s.env.get(me + (self.at,)) != NULL and not self.null(s, me):
                    ctx.bad("successor", "%s stale" % proc.ident, "the iterator keeps an entry of another position", proc.where())
            ctx.ok("successor", "%s ends" % proc.ident, proc.where())
            ctx.check(ends, "successor", "%s returns" % proc.ident, "no path returns", proc.where())
        for b in ("valid", "key", "value"):
            self.accessor(b)

    def null(self, st, me):
        return st.facts.get(('assoc', ('ptr', me + (self.at, '->')))) is False and (me + (self.at,)) not in st.env

    def accessor(self, b):
        ctx, proc = self.ctx, self.proc(self.iterator, b)
        me = loc(proc, proc.args[0])
        table = me + (self.owner, '->')
        rule = Steps(self, me, False)

        def setup(ip, st, frame):
            return st.fact(('assoc', ('ptr', table)), True)
        ip, frame, ends = self.run(proc, rule, setup)
        index, size = ('init', me + (self.index,)), ('init', table + (self.size,))
        good = bad = 0
        for s in ends:
            v = s.env.get(loc(proc, proc.result))
            low, high = s.facts.get(('<', K(0), index)), s.facts.get(('<', size, index))
            if low is None:
                low = {None: None, True: False, False: True}[s.facts.get(('<', index, K(1)))]
            if low is False or high is True or ('invalid',) in s.ts:
                bad += v not in (FALSE, NULL, K(""))
            elif low is True and high is False:
                at = rule.current(s)
                if b == "valid":
                    okay = v == TRUE
                elif at is None:
                    okay = False
                elif b == "key":
                    okay = strip(v) == ('t', 'keyof', (at + (self.value, '->'),))
                else:
                    okay = v == ('ptr', at + (self.value, '->'))
                good += okay
                bad += not okay
            else:
                bad += 1
        self.ctx.check(good and not bad, "current", proc.ident, "%s does not answer for the entry of the iterator" % b, proc.where())


def rule_changes(table):
    """Components of the table that adding an entry changes."""
    out = set()
    for p in closure(table, {table.proc(table.table, "add_hash_key")}):
        for s in F.walk_stmts(p.body):
            e = s[2] if s[0] in ('=', '=>') else None
            if e is not None and e[0] == '%' and e[1][0] == 'n' and e[2] in table.table.comps:
                out.add(e[2])
    return out


def closure(table, procs):
    """PROCS and what only they call."""
    lib = table.lib.procs

    def calls(p):
        out = set()
        for s in F.walk_stmts(p.body):
            if s[0] == 'call' and s[2][0] == 'n' and s[2][1] in lib:
                out.add(lib[s[2][1]])
            for e in F.exprs_of(s):
                for x in F.walk_expr(e):
                    if x[0] == '()' and x[1][0] == 'n' and x[1][1] in lib:
                        out.add(lib[x[1][1]])
        return out
    who = {}
    for p in lib.values():
        for q in calls(p):
            who.setdefault(q, set()).add(p)
    out = set(procs)
    more = True
    while more:
        more = False
        for q, by in who.items():
            if q not in out and by <= out:
                out.add(q)
                more = True
    return out


class Base(Rule):
    max_depth = 8
    null_results = True

    def __init__(self, table):
        self.t = table
        self.bad, self.done = {}, set()

    def track(self, path):
        return path[0] == 'new' or path[0] == 'any' or path[0] == 'var' and path[-1] != 'tmp' or path[-1] == 'tmp'

    def precise(self, path):
        name = path[-1]
        return isinstance(name, str) and 'err' in name

    def flag(self, kind, what, at):
        self.bad.setdefault((kind, what), at)

    def on_call(self, ip, st, frame, line, name, proc, recv, args):
        if proc is None and recv is not None and name == "key":
            return [(st, ('t', 'keyof', (recv,)))]
        return None


class Hashing(Base):
    def __init__(self, table):
        Base.__init__(self, table)
        self.read, self.whole, self.written = set(), set(), set()

    def precise(self, path):
        return False

    def on_ref(self, ip, st, frame, line, path, val):
        self.read.add(path)
        return st

    def on_inquiry(self, ip, st, frame, line, name, path):
        if name == 'len':
            d = self.top.decls.get(path[2]) if len(path) > 2 else None
            if d is not None and d.intent == 'in':
                self.whole.add(line)

    def on_store(self, ip, st, frame, line, path, val, old):
        if path[:3] == loc(self.top, self.top.args[0]):
            self.written.add(str(path[-1]))
        return st


class Walk(Base):
    """Lookups and additions: what of a chain has been compared, what is linked."""

    def __init__(self, table, this, key, new=None):
        Base.__init__(self, table)
        self.this, self.key, self.new = this, key, new
        self.hash = table.proc(table.table, "key_hash")

    def head(self, path):
        n = len(self.this)
        return len(path) == n + 2 and path[:n] == self.this and path[n] == self.t.array

    def same(self, st, elem):
        """Is the key of ELEM known to be (not) the key of interest?"""
        mine = ('t', 'keyof', (elem + (self.t.value, '->'),))
        for a, v in st.facts.items():
            if a[0] == '==' and {strip(a[1]), strip(a[2])} == {mine, self.key}:
                return v
        return None

    def passed(self, st, elem):
        return ('passed', elem) in st.ts or self.same(st, elem) is False or st.facts.get(('assoc', ('ptr', elem + (self.t.value, '->')))) is False

    def on_result(self, ip, st, frame, val):
        if frame.proc is not self.hash:
            return st, val
        proc = frame.proc
        arg = frame.alias.get(self.t.key_of(proc))
        key = strip(st.env.get(arg, ('init', arg)))
        new = ('t', 'hash', (key,))
        this = frame.alias[proc.args[0]]
        if self.t.in_range(st, val, this):
            size = st.env.get(this + (self.t.size,), ('init', this + (self.t.size,)))
            facts = {a: v for a, v in st.facts.items() if not mentions(a, val)}
            st = type(st)(st.env, facts, st.ts).fact(('<', new, K(1)), False).fact(('<', size, new), False)
        else:
            st = st.with_ts(st.ts | {('error',)})
        return st, new

    def on_index(self, ip, st, frame, line, path, vals):
        if path != self.this + (self.t.array,):
            return st
        self.done.add(("bounds", "positions"))
        self.done.add(("bucket", "positions"))
        if not self.t.in_range(st, vals[0], self.this):
            self.flag("bounds", "a position outside the table", frame.proc.where(line))
        if self.key is not None and vals[0] != ('t', 'hash', (self.key,)):
            self.flag("bucket", "a position that is not the hash of the key", frame.proc.where(line))
        return st

    def on_split(self, ip, st, atom, truth):
        if truth or self.key is None:
            return st
        if atom[0] == '==':
            for one, two in ((strip(atom[1]), strip(atom[2])), (strip(atom[2]), strip(atom[1]))):
                if two == self.key and one[:2] == ('t', 'keyof') and one[2][0][-2:] == (self.t.value, '->'):
                    st = st.with_ts(st.ts | {('passed', one[2][0][:-2])})
            return st
        if atom[0] != 'assoc':
            return st
        y = atom[1][1]
        if y[-2:] == (self.t.value, '->'):
            st = st.with_ts(st.ts | {('passed', y[:-2])})
        if y[-1] != '->' or ('skipped',) in st.ts:
            return st
        if y[-2:-1] == (self.t.value,):
            return st.with_ts(st.ts | {('absent',)}) if self.head(y[:-2]) else st
        if y[-2:-1] == (self.t.next,):
            return st.with_ts(st.ts | {('absent',)}) if self.passed(st, y[:-2]) else st
        if y[0][:2] == ('any', 'loop') if isinstance(y[0], tuple) else y[:2] == ('any', 'loop'):
            return st.with_ts(st.ts | {('absent',)})
        return st

    def on_store(self, ip, st, frame, line, path, val, old):
        t = self.t
        if val is None or self.key is None:
            return st
        if path[-1] == t.value and val == ('ptr', self.new) and self.new is not None:
            if self.head(path[:-1]):
                return self.link(st, frame, line, st.facts.get(('assoc', ('ptr', path + ('->',)))) is False, None)
            return st
        if path[-1] in (t.value, t.next) and (path[0] != 'new') and self.new is not None:
            if path[-1] == t.next and val[0] == 'ptr' and val[1][0] == 'new':
                free = st.env.get(path) == NULL or (path not in st.env and st.facts.get(('assoc', ('ptr', path + ('->',)))) is False)
                head = any(a[0] == 'assoc' and v is True and self.head(a[1][1][:-2]) and a[1][1][-2:] == (t.value, '->') for a, v in st.facts.items())
                return self.link(st, frame, line, free and head, val[1])
            if path[0] != 'var' or len(path) > 3:
                self.flag("add", "an entry of the table is replaced", frame.proc.where(line))
            return st
        if val[0] == 'ptr' and val[1][-2:] == (t.next, '->') and path[-1] not in (t.next, t.value):
            if ('absent',) not in st.ts and not self.passed(st, val[1][:-2]):
                st = st.with_ts(st.ts | {('skipped',)})
            if not self.head(val[1][:-2]):
                st = st.with_ts(st.ts - {('passed', val[1][:-2])})
        return st

    def link(self, st, frame, line, free, elem):
        self.done.add(("add", "place"))
        self.done.add(("add", "lookup"))
        where = frame.proc.where(line)
        if not free:
            self.flag("add", "an entry is linked at a place that may be taken", where)
        if ('absent',) not in st.ts:
            self.flag("add", "an entry is linked although its key may be in the table", where)
        if ('error',) in st.ts:
            self.flag("add", "an entry is linked after an error", where)
        return st.with_ts(st.ts | {('linked', elem, line)})

    def on_alloc(self, ip, st, frame, line, kind, path):
        if path == self.this + (self.t.array,):
            old = {e for e in st.ts if e[0] in ('fresh', 'stale')}
            if kind == 'allocate':
                return st.with_ts((st.ts - old) | {('fresh', ip.shape[0] if len(ip.shape) == 1 else None)})
            return st.with_ts(st.ts - old)
        return st


class Final(Base):
    def __init__(self, table, proc):
        Base.__init__(self, table)
        self.freed = False
        self.me = loc(proc, proc.args[0])

    def on_alloc(self, ip, st, frame, line, kind, path):
        if kind == 'deallocate':
            val = ip.pointer(st, path)
            target = val[1] if val[0] == 'ptr' else path
            if target[-2:] == (self.t.value, '->'):
                self.flag("foreign", "value", frame.proc.where(line))
            if target == self.me + (self.t.next, '->'):
                self.freed = True
        return st


class Steps(Base):
    """Moves of the iterator."""

    def __init__(self, table, me, first):
        Base.__init__(self, table)
        self.me, self.first = me, first

    def owner(self, st):
        val = st.env.get(self.me + (self.t.owner,))
        if val is None or val[0] != 'ptr':
            return self.me + (self.t.owner, '->')
        return val[1]

    def size_of(self, st):
        p = self.owner(st) + (self.t.size,)
        return st.env.get(p, ('init', p))

    def index(self, st):
        p = self.me + (self.t.index,)
        return st.env.get(p, ('init', p))

    def head(self, st, v=None):
        return self.owner(st) + (self.t.array, ('[]', self.index(st) if v is None else v))

    def current(self, st):
        p = self.me + (self.t.at,)
        val = st.env.get(p, ('ptr', p + ('->',)))
        if val == NULL:
            return self.head(st)
        if val[0] != 'ptr':
            return None
        known = st.facts.get(('assoc', val))
        if known is True or val[1][-1] != '->':
            return val[1]
        return self.head(st) if known is False else None

    def on_index(self, ip, st, frame, line, path, vals):
        if path == self.owner(st) + (self.t.array,):
            self.done.add(("bounds", "positions"))
            if not self.t.in_range(st, vals[0], self.owner(st)) and not (vals[0] == self.index(st) and ('inside',) in st.ts):
                self.flag("bounds", "a position outside the table", frame.proc.where(line))
        return st

    def on_split(self, ip, st, atom, truth):
        t = self.t
        if atom[0] == '<':
            index = ('init', self.me + (t.index,))
            size = ('init', self.me + (t.owner, '->', t.size))
            if (atom, truth) in ((('<', K(0), index), False), (('<', index, K(1)), True), (('<', size, index), True)):
                return st.with_ts(st.ts | {('invalid',)})
        if atom[0] != 'assoc':
            return st
        z = atom[1][1]
        if z[-2:] == (t.next, '->'):
            at = self.current(st)
            if at is not None and z[:-2] == at and not truth:
                return st.with_ts(st.ts | {('exhausted', 'here')})
            return st
        if z[-2:] == (t.value, '->') and z[:-3] == self.owner(st) + (t.array,):
            v = z[-3][1]
            if truth:
                return st.with_ts(st.ts | ({('arrived',), ('head',)} if v == self.index(st) else {('full', v)}))
            return st.with_ts(st.ts | {('exhausted', 'here' if v == self.index(st) else v)})
        return st

    def on_loop(self, ip, st, frame, line, var, bounds, phase):
        ran = ('iter', line) in st.ts
        ts = set(st.ts)
        if ran and ('exhausted', var) not in ts:
            ts.add(('skipped', line))
        ts.discard(('exhausted', var))
        if phase == 'iter':
            ts.add(('iter', line))
        elif ('skipped', line) not in ts and bounds is not None:
            ts.add(('swept', bounds[0], bounds[1]))
        return st.with_ts(ts)

    def after(self, ip, st, v):
        """Does position V follow the current one?"""
        old = self.index(st)
        if ('started',) not in st.ts:
            old = K(0)
        return v == ip.arith('+', old, K(1))

    def on_store(self, ip, st, frame, line, path, val, old):
        t = self.t
        if path == self.me + (t.index,):
            where = frame.proc.where(line)
            self.done.add(("successor", "positions"))
            size = self.size_of(st)
            cur = self.index(st)
            ts = {e for e in st.ts if e[0] not in ('exhausted', 'arrived', 'head', 'moved', 'started', 'ended', 'inside')}
            if t.in_range(st, val, self.owner(st)):
                ts.add(('inside',))         # the facts about the old value go
            started = ('started',) in st.ts or not self.first
            done = ('exhausted', 'here') in st.ts or cur == K(0)
            if val == K(0):
                if not started:
                    return st.with_ts(ts | {('started',)})
                beyond = st.facts.get(('<', size, cur)) is True
                last = st.facts.get(('<', cur, size)) is False and done
                swept = any(e[0] == 'swept' and e[2] == size and (e[1] == ip.arith('+', cur, K(1)) and done) for e in st.ts)
                if beyond or last or swept:
                    ts.add(('ended',))
                return st.with_ts(ts | {('started',), ('moved',)})
            base = cur if started else K(0)
            okay = val == ip.arith('+', base, K(1)) and (done or not started)
            if not okay and val[:2] == ('any', 'do'):
                low = t.low(st, val)
                okay = low == ip.arith('+', base, K(1)) and (done or not started) and not any(e[0] == 'skipped' for e in st.ts)
            if not okay:
                self.flag("successor", "positions are skipped, or a chain is left before its end", where)
            if ('full', val) in st.ts:
                ts |= {('arrived',), ('head',)}
            return st.with_ts(ts | {('started',), ('moved',)})
        if path == self.me + (t.at,) and val[0] == 'ptr':
            self.done.add(("successor", "entries"))
            where = frame.proc.where(line)
            at = self.current(st)
            if at is None or val[1] != at + (t.next, '->'):
                self.flag("successor", "an entry of the chain is skipped", where)
            elif st.facts.get(('assoc', val)) is not True:
                self.flag("successor", "the iterator moves behind the end of the chain", where)
            return st.with_ts((st.ts - {('head',)}) | {('moved',), ('arrived',)})
        return st
