"""C19: the lock protocol of the model constituents object."""
from sa import fortran as F
from sa.fabs import Interp, Rule, K, TRUE, FALSE, mentions
from sa.project import AnalysisBroken
from rules.c22 import sources, is_code, is_text
from rules.c20 import Lib, loc, find_type, getter_component, equal_fact

RULES = {
    "invariant": "after every operation: table locked means the metadata array is allocated, data locked means the table is locked and "
                 "all data arrays are allocated (assuming it before)",
    "allocated": "no operation uses an array that is not allocated",
    "frozen": "an operation other than reset and initialize adds no constituent to a locked table and replaces no array of locked data",
    "lock-error": "lock_table and lock_data lock only where they record no error, and then do lock",
    "index": "the index stored in a constituent is the position it is put at; the advected ones come first, in positions counted from 1",
    "defaults": "lock_data gives every constituent its own default value and minimum and zero tendencies",
    "selection": "is_match answers true only where every criterion that is present is equal",
    "criteria": "every operation that selects constituents passes each of its criteria on, for every position of the metadata array",
    "copy": "copy_in and copy_out use only positions of the argument within its bounds, and the position of the constituent itself",
}
CRITERIA = {"advected": "is_advected", "thermo_active": "is_thermo_active", "water_species": "is_water_species"}


class Track(Rule):
    max_depth = 8
    null_results = False

    def __init__(self, names=()):
        self.events = []
        self.bad = {}
        self.seen = set()
        self.known = names

    def track(self, path):
        if path[0] != 'var' or path[-1] in ('tmp', '->'):
            return False
        name = path[-1]
        return not (isinstance(name, str) and (name in ('errmsg', 'error', 'errmsg2', 'std_name', 'stdname') or name.endswith('msg')))

    def track_alloc(self, path):
        return path[0] == 'var'

    def precise(self, path):
        return True


def check(ctx, project):
    mods = sources(project.repo)
    for name, text in RULES.items():
        ctx.rule(name, text)
    models = find_type(mods, ("lock_table", "lock_data", "reset", "new_field"))
    objs = find_type(mods, ("instantiate", "equivalent", "deallocate"))
    if len(models) != 1 or len(objs) != 1:
        raise AnalysisBroken("the model constituents type was not found")
    m = Model(ctx, mods, models[0], objs[0])
    m.invariants()
    m.locking()
    m.selection()
    m.copies()
    for p in m.lib.seen:
        ctx.saw(p.where())
    ctx.at_least("invariant", 60)
    ctx.at_least("lock-error", 4)
    ctx.at_least("index", 3)
    ctx.at_least("defaults", 4)
    ctx.at_least("selection", 6)


class Model:
    def __init__(self, ctx, mods, model, obj):
        self.ctx, self.mods, self.model = ctx, mods, model
        self.lib = Lib(ctx, mods, obj)
        self.obj = obj
        self.flags = [self.flag("const_props_locked"), self.flag("const_data_locked")]
        self.arrays = [self.allocs("lock_table"), self.allocs("lock_data")]
        if not self.arrays[0] or not self.arrays[1]:
            raise AnalysisBroken("lock_table or lock_data allocates nothing")

    def proc(self, b):
        return self.lib.proc(self.model, b)

    def flag(self, b):
        """The logical component that query B returns for an initialized object."""
        proc = self.proc(b)
        names = set()
        for s in F.walk_stmts(proc.body):
            if s[0] == '=' and s[2] == ('n', proc.result) and s[3][0] == '%' and s[3][2] in self.model.comps:
                names.add(s[3][2])
        if len(names) != 1:
            raise AnalysisBroken("%s does not return one component" % proc.name)
        return names.pop()

    def allocs(self, b):
        """Allocatable components that B (or what it calls) allocates."""
        out = set()
        todo, done = [self.proc(b)], set()
        while todo:
            p = todo.pop()
            if p in done:
                continue
            done.add(p)
            for s in F.walk_stmts(p.body):
                if s[0] == 'allocate':
                    for kw, e in s[2]:
                        if kw is None:
                            e = e[1] if e[0] == '()' else e
                            if e[0] == '%' and e[2] in self.model.comps:
                                out.add(e[2])
                if s[0] == 'call' and s[2][0] == 'n' and s[2][1] in self.lib.procs:
                    todo.append(self.lib.procs[s[2][1]])
                if s[0] == 'call' and s[2][0] == '%' and s[2][1] == ('n', p.args[0] if p.args else '') and s[2][2] in self.model.bindings:
                    if s[2][2] != "reset":
                        todo.append(self.proc(s[2][2]))
        return sorted(out)

    def setup(self, proc, table, data):
        def run(ip, st, frame):
            base = ip.root(frame, proc.args[0])
            st = st.put(base + (self.flags[0],), K(table)).put(base + (self.flags[1],), K(data))
            for names, on in zip(self.arrays, (table, data)):
                for n in names:
                    st = st.put(('alloc', base + (n,)), on)
            return st
        return run

    def run(self, proc, rule, table, data):
        ip = Interp(self.mods, rule)
        rule.top = proc
        rule.base = loc(proc, proc.args[0])
        frame, ends = ip.run(proc, setup=self.setup(proc, table, data))
        self.lib.seen |= ip.visited
        return ip, frame, ends

    # ------------------------------------------------------ typestate
    def invariants(self):
        ctx = self.ctx
        for b in sorted(self.model.bindings):
            if b in self.model.private:
                continue            # analysed where it is called
            proc = self.proc(b)
            for table, data in ((False, False), (True, False), (True, True)):
                rule = States(self, b, table, data)
                ip, frame, ends = self.run(proc, rule, table, data)
                where = "%s %s" % (proc.ident, "data locked" if data else "table locked" if table else "unlocked")
                base = rule.base
                for s in ends:
                    on = [s.env.get(base + (f,)) for f in self.flags]
                    al = [[s.env.get(('alloc', base + (n,))) is True for n in names] for names in self.arrays]
                    if on[0] != FALSE and not all(al[0]):
                        ctx.bad("invariant", where + " table", "the table can be locked without its metadata array", proc.where())
                    if on[1] != FALSE and not (all(al[1]) and on[0] == TRUE):
                        ctx.bad("invariant", where + " data", "the data can be locked without %s" % (
                            "its arrays" if on[0] == TRUE else "the table being locked"), proc.where())
                ctx.ok("invariant", where + " table", proc.where())
                ctx.ok("invariant", where + " data", proc.where())
                for (kind, name), at in sorted(rule.bad.items()):
                    ctx.bad(kind, where + " " + name, {
                        "allocated": "%s is used where it is not allocated", "frozen": "%s of a locked object"}[kind] % name, at)
                ctx.ok("allocated", where, proc.where())
                ctx.ok("frozen", where, proc.where())

    # ------------------------------------------------------ locking
    def appenders(self):
        """Procedures that add to an error code they are given."""
        out = {}
        for p in self.lib.procs.values():
            for a in p.args:
                if is_code(p.decls[a]) and p.decls[a].intent == 'inout':
                    vals = [x for x in p.args if p.decls[x].base == 'integer' and p.decls[x].intent == 'in']
                    out[p] = (a, vals[0] if vals else None)
        if not out:
            raise AnalysisBroken("no procedure adds to an error code")
        return out

    def locking(self):
        for b, before, flag in (("lock_table", (False, False), 0), ("lock_data", (True, False), 1)):
            proc = self.proc(b)
            rule = Locking(self, b)
            ip, frame, ends = self.run(proc, rule, *before)
            path = rule.base + (self.flags[flag],)
            good = [s for s in ends if s.env.get(path) != FALSE]
            wrong = [s for s in good if ('error',) in s.ts]
            self.ctx.check(not wrong, "lock-error", "%s error" % proc.ident, "%s locks although it recorded an error" % b, proc.where())
            missed = [s for s in ends if s.env.get(path) == FALSE and ('error',) not in s.ts]
            self.ctx.check(bool(good) and not missed, "lock-error", "%s success" % proc.ident,
                           "%s can leave the object unlocked without recording an error" % b, proc.where())
            for (kind, what), line in sorted(rule.bad.items()):
                self.ctx.bad(kind, "%s %s" % (proc.ident, what), what, line)
            if b == "lock_table":
                self.positions(proc, rule)
            else:
                self.defaults(proc, rule, good)

    def positions(self, proc, rule):
        ctx = self.ctx
        if rule.pairs < 2 or not rule.first:
            ctx.bad("index", "%s positions" % proc.ident, "constituents are not given an index and a position together", proc.where())
        ctx.ok("index", "%s same index" % proc.ident, proc.where())
        counters = {True: set(), False: set()}
        steps = {True: set(), False: set()}
        for adv, val, num in rule.first:
            if adv is None:
                ctx.bad("index", "%s advected" % proc.ident, "an index is set without asking whether the constituent is advected", proc.where())
                continue
            if val[0] == 'k':
                steps[adv].add(val[1] - (0 if adv else num[1] if num is not None and num[0] == 'k' else -99))
            elif val[:2] == ('t', '+') and K(1) in val[2]:
                other = [x for x in val[2] if x != K(1)]
                counters[adv] |= {x[2] if x[:2] == ('any', 'loop') else x for x in other}
            else:
                ctx.bad("index", "%s step" % proc.ident, "the index is not the last one plus one", proc.where())
        for adv in (True, False):
            ctx.check(steps[adv] and min(steps[adv]) == 1, "index", "%s first %s" % (proc.ident, "advected" if adv else "other"),
                      "the first position of %s constituents is wrong" % ("advected" if adv else "the other"), proc.where())
        if counters[True] & counters[False]:
            ctx.bad("index", "%s counters" % proc.ident, "advected and other constituents share a counter", proc.where())
        ctx.ok("index", "%s ranges" % proc.ident, proc.where())
        ctx.check(rule.counted == {True}, "index", "%s count" % proc.ident,
                  "the number of advected constituents counts others, or none", proc.where())

    def defaults(self, proc, rule, good):
        ctx = self.ctx
        want = {"default": getter_component(self.lib, self.obj, "default_value"), "minimum": getter_component(self.lib, self.obj, "minimum")}
        for kind, comp in want.items():
            hits = [x for x in rule.stored if x[1] == comp]
            ctx.check(bool(hits) and all(x[2] for x in hits), "defaults", "%s %s" % (proc.ident, kind),
                      "no array gets the %s of the constituent at the same position" % kind, proc.where())
        names = [x[0] for x in rule.stored if x[1] in want.values()]
        mixed = [n for n in names if len({x[1] for x in rule.stored if x[0] == n}) > 1]
        ctx.check(not mixed and len(set(names)) == 2, "defaults", "%s separate" % proc.ident, "defaults and minimums are not stored in two arrays", proc.where())
        rest = [n for n in self.arrays[1] if n not in names]
        miss = [n for n in rest if any(('zero', n) not in s.ts for s in good)]
        ctx.check(bool(rest) and not miss, "defaults", "%s tendencies" % proc.ident, "%s is not set to zero where the data are locked" % ", ".join(miss), proc.where())

    # ------------------------------------------------------ selection
    def matcher(self):
        proc = self.proc("is_match")
        for a in CRITERIA:
            if a not in proc.args:
                raise AnalysisBroken("%s has no criterion %s" % (proc.name, a))
        return proc

    def selection(self):
        proc = self.matcher()
        ptr = [c.name for t in self.lib.mods for ty in t.types.values() for c in ty.comps.values()
               if c.has('pointer') and c.tname == self.obj.name]
        arr = self.arrays[0][0]
        key = self.lib.key_component()
        comps = {a: getter_component(self.lib, self.obj, q) for a, q in CRITERIA.items()}
        index = [a for a in proc.args if proc.decls[a].base == 'integer' and proc.decls[a].intent == 'in'][0]

        def element():
            return loc(proc, proc.args[0]) + (arr, ('[]', ('init', loc(proc, index))), ptr[0])

        def setup(given):
            def run(ip, st, frame):
                st = st.fact(('assoc', ('ptr', element() + ('->',))), True).put(('alloc', element() + ('->', key)), True)
                for a in CRITERIA:
                    st = st.fact(('present', frame.name, a), a in given)
                return st
            return run
        for given in (tuple(CRITERIA),) + tuple((a,) for a in CRITERIA):
            ip = Interp(self.mods, Track())
            frame, ends = ip.run(proc, setup=setup(given))
            self.lib.seen |= ip.visited
            good = [s for s in ends if s.env.get(loc(proc, proc.result)) != FALSE]
            for a in given:
                bad = [s for s in good if not equal_fact(ip, s, ('init', loc(proc, a)), ('init', element() + ('->', comps[a])))]
                self.ctx.check(good and not bad, "selection", "%s %s%s" % (proc.ident, a, "" if len(given) == 1 else " with others"),
                               "answers true although %s differs" % a, proc.where())

    def copies(self):
        match = self.matcher()
        for b in sorted(self.model.bindings):
            proc = self.proc(b)
            if proc is match or not set(CRITERIA) <= set(proc.args):
                continue
            rule = Copying(self, match)
            self.run(proc, rule, True, True)
            if not rule.calls:
                self.ctx.bad("criteria", proc.ident, "%s does not ask is_match" % b, proc.where())
            for a in CRITERIA:
                self.ctx.check(all(a in c for c in rule.calls), "criteria", "%s %s" % (proc.ident, a), "criterion %s is not passed on" % a, proc.where())
            self.loop_range(proc)
            data = [a for a in proc.args if proc.decls[a].dims is not None]
            if data:
                self.ctx.check(rule.moved and all(rule.moved.values()), "copy", "%s bounds" % proc.ident,
                               "a position of %s is used that was not compared with its size" % data[0], proc.where())
                self.ctx.check(rule.same and all(rule.same.values()), "copy", "%s position" % proc.ident,
                               "the position copied is not that of the constituent that matched", proc.where())
        self.ctx.at_least("criteria", 9)
        self.ctx.at_least("copy", 4)

    def loop_range(self, proc):
        """A counted loop around the query covers the metadata array."""
        for s in F.walk_stmts(proc.body):
            if s[0] != 'do' or s[2] is None or s[2][0] != 'var':
                continue
            if not any(x[0] == '()' and x[1][0] == '%' and x[1][2] == "is_match" for t in F.walk_stmts(s[3]) for e in F.exprs_of(t) for x in F.walk_expr(e)):
                continue
            low, high = s[2][2], s[2][3]
            step = s[2][4] if len(s[2]) > 4 else None
            okay = low == ('num', '1') and step in (None, ('num', '1'))
            if high[0] == '()' and high[1][0] == 'n' and high[1][1] in ('size', 'ubound'):
                okay = okay and high[2][0][1][0] == '%' and high[2][0][1][2] in self.arrays[0] + self.arrays[1]
            elif high[0] == '()':
                okay = okay and high[1][0] == '%' and high[1][2] == "num_values"
            elif high[0] != 'n':
                okay = False
            self.ctx.check(okay, "criteria", "%s range" % proc.ident, "the loop does not visit every constituent", proc.where(s[1]))


class Locking(Track):
    """Errors, indices and values on the way to a lock."""

    def __init__(self, model, binding):
        Track.__init__(self)
        self.model = model
        self.simple = binding == "lock_table"
        self.add = model.appenders()
        self.adv = getter_component(model.lib, model.obj, "is_advected")
        self.asks = model.lib.proc(model.obj, "is_advected")
        self.setter = model.lib.proc(model.obj, "set_const_index")
        ptrs = find_type(model.mods, ("set", "set_const_index", "deallocate", "standard_name"))
        ptrs = [t for t in ptrs if "instantiate" not in t.bindings]
        self.placer = model.lib.proc(ptrs[0], "set")
        self.counts = [c.name for c in model.model.comps.values() if c.base == 'integer']
        self.pairs, self.first, self.counted, self.stored = 0, set(), set(), set()

    def track(self, path):
        if path[-1] == self.adv:
            return True
        return Track.track(self, path) and (not self.simple or all(isinstance(x, str) and x != '->' for x in path[3:]))

    def on_split(self, ip, st, atom, truth):
        if atom[0] == 'truth' and atom[1][0] == 'init' and atom[1][1][-1] == self.adv:
            return st.with_ts({e for e in st.ts if e[0] != 'adv'} | {('adv', truth)})
        return st

    def on_enter(self, ip, st, frame, caller, line):
        proc = frame.proc
        if proc in self.add:
            code, val = self.add[proc]
            own = next((a for a in self.top.args if is_code(self.top.decls[a])), None)
            if frame.alias.get(code) == loc(self.top, own) and (val is None or st.env.get(frame.alias.get(val)) != K(0)):
                return st.with_ts(st.ts | {('error',)})
        if not self.simple:
            return st
        if proc is self.asks:
            return st.with_ts({e for e in st.ts if e[0] != 'adv'} | {('adv', False)})
        if proc is self.setter or proc is self.placer:
            where = caller.proc.where(line)
            adv = next((e[1] for e in st.ts if e[0] == 'adv'), None)
            if proc is self.setter:
                index = st.env.get(frame.alias[proc.args[1]], ('init', frame.alias[proc.args[1]]))
                num = [st.env.get(self.base + (c,)) for c in self.counts]
                num = [v for v in num if v is not None and v[0] == 'k']
                self.first.add((adv, index, num[-1] if num else None))
                obj = frame.alias[proc.args[0]]
            else:
                me = frame.alias[proc.args[0]]
                index = me[-1][1] if isinstance(me[-1], tuple) and me[-1][0] == '[]' else None
                obj = ip.pointer(st, frame.alias[proc.args[1]])
                obj = obj[1] if obj[0] == 'ptr' else None
            kind = 'set' if proc is self.setter else 'put'
            open_ = [e for e in st.ts if e[0] == 'half']
            if open_ and open_[0][1] != kind:
                if open_[0][2] != index or open_[0][3] != obj:
                    self.bad.setdefault(("index", "the index set in a constituent is not the position it is put at"), where)
                self.pairs += 1
                return st.with_ts(st.ts - {open_[0]})
            if open_:
                self.bad.setdefault(("index", "a constituent gets an index but no position, or the reverse"), where)
            return st.with_ts({e for e in st.ts if e[0] != 'half'} | {('half', kind, index, obj)})
        if proc.name.endswith(("next_entry", "iterator_next")) and any(e[0] == 'half' for e in st.ts):
            self.bad.setdefault(("index", "a constituent gets an index but no position, or the reverse"), caller.proc.where(line))
        return st

    def on_store(self, ip, st, frame, line, path, val, old):
        n = len(self.base)
        if path[:n] != self.base or len(path) <= n:
            return st
        if path[n] in self.counts and len(path) == n + 1 and val is not None and old is not None and val == ip.arith('+', old, K(1)) and self.simple:
            self.counted.add(next((e[1] for e in st.ts if e[0] == 'adv'), None))
        if path[n] in self.model.arrays[1] and not self.simple:
            if val[0] == 'k' and val[1] == 0:
                return st.with_ts(st.ts | {('zero', path[n])})
            if val[0] == 'init' and isinstance(val[1][-1], str) and len(path) == n + 2:
                q = val[1]
                at = [x for x in q if isinstance(x, tuple) and x and x[0] == '[]']
                self.stored.add((path[n], q[-1], bool(at) and at[0][-1] == path[n + 1][-1]))
        return st


class Copying(Track):
    """What is passed to is_match, and which positions are copied."""

    def __init__(self, model, match):
        Track.__init__(self)
        self.model, self.match = model, match
        self.calls, self.moved, self.same = [], {}, {}

    def on_enter(self, ip, st, frame, caller, line):
        if frame.proc is self.match:
            self.calls.append({a for a in CRITERIA if frame.alias.get(a) == loc(self.top, a)})
            args = [a for a in self.match.args if self.match.decls[a].base == 'integer']
            val = st.env.get(frame.alias[args[0]])
            return st.with_ts({e for e in st.ts if e[0] != 'at'} | {('at', val)})
        return st

    def on_store(self, ip, st, frame, line, path, val, old):
        if val[0] != 'init':
            return st
        n = len(self.base)
        data = [loc(self.top, a) for a in self.top.args if self.top.decls[a].dims is not None]
        for one, two in ((path, val[1]), (val[1], path)):
            if not data or one[:3] != data[0] or two[:n] != self.base or len(two) <= n or two[n] not in self.model.arrays[1]:
                continue
            c = one[-1][-1] if isinstance(one[-1], tuple) else None
            i = two[-1][-1] if isinstance(two[-1], tuple) else None
            okay = c is not None and any(a[0] == '<' and a[2] == c and v is False and mentions(a[1], 'size') for a, v in st.facts.items())
            at = next((e[1] for e in st.ts if e[0] == 'at'), None)
            self.moved[line] = self.moved.get(line, True) and okay
            self.same[line] = self.same.get(line, True) and i is not None and (i == at or equal_fact(ip, st, i, at))
        return st


class States(Track):
    """Uses of unallocated arrays, changes of frozen ones."""

    def track(self, path):
        return Track.track(self, path) and all(isinstance(x, str) and x != '->' for x in path[3:])

    def __init__(self, model, binding, table, data):
        Track.__init__(self)
        self.model, self.table, self.data = model, table, data
        self.free = binding in ("reset", "initialize_table")
        self.names = model.arrays[0] + model.arrays[1]

    def use(self, st, frame, line, path):
        n = len(self.base)
        if path[:n] == self.base and len(path) > n and path[n] in self.names and st.env.get(('alloc', path[:n + 1])) is not True:
            self.bad.setdefault(("allocated", path[n]), frame.proc.where(line))

    def on_ref(self, ip, st, frame, line, path, val):
        self.use(st, frame, line, path)
        return st

    def on_index(self, ip, st, frame, line, path, vals):
        self.use(st, frame, line, path)
        return st

    def on_inquiry(self, ip, st, frame, line, name, path):
        self.use(st, frame, line, path)

    def on_alloc(self, ip, st, frame, line, kind, path):
        n = len(self.base)
        if self.free or path[:n] != self.base or len(path) != n + 1:
            return st
        if self.table and path[n] in self.model.arrays[0] or self.data and path[n] in self.model.arrays[1]:
            self.bad.setdefault(("frozen", "%s of %s" % (kind, path[n])), frame.proc.where(line))
        return st

    def on_call(self, ip, st, frame, line, name, proc, recv, args):
        if self.table and not self.free and recv is not None and recv[:len(self.base)] == self.base and proc is not None and proc.name.endswith("add_hash_key"):
            self.bad.setdefault(("frozen", "addition to the table"), frame.proc.where(line))
        return None
