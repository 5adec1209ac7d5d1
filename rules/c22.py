"""C22: error codes, optional arguments and pointers of the Fortran runtime (src/*.F90)."""
import glob
import os

from sa import fortran as F
from sa.fabs import Interp, Rule, UNDEF, NULL, nonblank
from sa.project import AnalysisBroken


def sources(repo):
    """Modules under src that contain procedures."""
    mods = []
    for path in sorted(glob.glob(os.path.join(repo, "src", "*.F90"))):
        m = F.load(repo, os.path.relpath(path, repo))
        if m.procs:
            mods.append(m)
    if len(mods) < 3:
        raise AnalysisBroken("found %d runtime modules with procedures, expected at least 3" % len(mods))
    return mods


def roots(mods):
    """Procedures that can be called from outside first; a helper is analysed where it is called."""
    called, bound = set(), set()
    procs = [p for m in mods for p in m.procs.values()]
    for p in procs:
        for s in F.walk_stmts(p.body):
            if s[0] == 'call' and s[2][0] == 'n':
                called.add(s[2][1])
            for e in F.exprs_of(s):
                for x in F.walk_expr(e):
                    if x[0] == '()' and x[1][0] == 'n':
                        called.add(x[1][1])
    for m in mods:
        for t in m.types.values():
            bound.update(t.bindings.values())
            bound.update(t.finals)
    return sorted(procs, key=lambda p: (p.name not in bound, p.name in called, p.ident))


def is_code(d):
    return d is not None and d.base == 'integer' and 'err' in d.name and d.dims is None


def is_text(d):
    return d is not None and d.base == 'character' and 'err' in d.name


class Errors(Rule):
    """Follows error codes, presence of optional dummies, undefined values, and pointers."""
    null_results = False

    def __init__(self, mods):
        self.mods = mods
        self.code, self.by_text, self.top = None, False, None
        self.optional, self.unset, self.deref = {}, {}, {}
        self.tested, self.pointers = set(), set()
        for m in mods:
            for p in m.procs.values():
                # pointer components of which the association is ever tested
                for s in F.walk_stmts(p.body):
                    for e in F.exprs_of(s):
                        for x in F.walk_expr(e):
                            if x[0] == '()' and x[1] == ('n', 'associated') and x[2][0][1][0] == '%':
                                self.pointers.add(x[2][0][1][-1])
                # allocation states that a predicate answers for
                if p.result and p.decls[p.result].base == 'logical':
                    for s in F.walk_stmts(p.body):
                        for e in F.exprs_of(s):
                            for x in F.walk_expr(e):
                                if x[0] == '()' and x[1] == ('n', 'allocated') and x[2][0][1][0] in ('%', 'n'):
                                    self.tested.add(x[2][0][1][-1])

    def track(self, path):
        name = path[-1]
        if not isinstance(name, str) or name in ('tmp', '->'):
            return False
        return path[0] == 'var' and (len(path) == 3 or (name in self.pointers and len(path) == 4 and '->' not in path))

    def track_alloc(self, path):
        return path[0] == 'var' and path[-1] in self.tested

    def precise(self, path):
        return True

    def on_optional(self, ip, st, frame, line, name):
        self.optional.setdefault((frame.proc, line, name), frame)

    def on_ref(self, ip, st, frame, line, path, val):
        if val == UNDEF:
            self.unset.setdefault(path, (frame, line))
        return st

    def on_deref(self, ip, st, frame, line, path, val):
        if val in (UNDEF, NULL):
            self.deref.setdefault((frame.proc, line), (frame, path, "is not associated" if val == NULL else "is undefined"))
        elif val[0] == 'ptr' and self.track(path) and len(path) == 4 and val[1] == path + ('->',) and st.facts.get(('assoc', val)) is not True:
            self.deref.setdefault((frame.proc, line), (frame, path, "was not tested with associated()"))
        return st

    def on_fail(self, ip, st, frame, line):
        return st.with_ts(st.ts | {('failed', frame.proc.name, line)})

    def on_split(self, ip, st, atom, truth):
        if truth or atom[0] not in ('assoc', 'alloc') or self.top is None:
            return st
        path = atom[1] if atom[0] == 'alloc' else atom[1][1][:-1] if atom[1][0] == 'ptr' else ()
        if path[:2] == ('var', self.top.name) and len(path) > 3 and path[2] in self.top.args and '->' not in path:
            return st.with_ts(st.ts | {('missing', path)})
        return st

    def on_store(self, ip, st, frame, line, path, val, old):
        if ('missing', path) in st.ts:
            st = st.with_ts(st.ts - {('missing', path)})
        if path == self.code and (nonzero(ip, st, val) or (self.by_text and nonblank(val))):
            return st.with_ts(st.ts | {('error', line, frame.proc.name)})
        return st


def nonzero(ip, st, val):
    if val[0] == 'k':
        return val[1] != 0 and not isinstance(val[1], str)
    if val[:2] == ('t', '+'):
        return any(nonzero(ip, st, v) for v in val[2])
    return st.facts.get(ip.eq0(val)) is False


RULES = {
    "optional": "an optional dummy argument is referenced, or passed on to a non-optional one, only where it is present",
    "defined": "no undefined value (local variable, intent(out) dummy) is used",
    "returned": "every scalar function result and intent(out) argument is defined at every return",
    "error-kept": "an error recorded in the error code (or, without one, the message) is still recorded at return: no later call or assignment resets it",
    "invalid-object": "every return with an optional or mandatory error code reports an error if the pointer component of the object is not "
                      "associated, or the object not instantiated, unless the procedure is what defines it",
    "allocation": "a failed allocation gives an error",
    "error-text": "the error message is not empty at a return with a nonzero error code",
    "pointer": "a pointer is dereferenced only where it is associated; a component that is tested with associated() at all only after such a test",
}


def owner(frame, path):
    """Procedure that declares the variable at PATH."""
    for f in frame.stack():
        if f.name == path[1]:
            return f.proc
    return frame.proc


def check(ctx, project):
    mods = sources(project.repo)
    for name, text in RULES.items():
        ctx.rule(name, text)
    done = set()
    for proc in roots(mods):
        if proc in done and is_helper(mods, proc):
            continue
        done |= one(ctx, mods, proc)
    for m in mods:
        for p in m.procs.values():
            ctx.saw(p.where())
            ctx.ok("optional", p.ident, p.where())
            ctx.ok("defined", p.ident, p.where())
            ctx.ok("pointer", p.ident, p.where())
    ctx.at_least("optional", 80)
    ctx.at_least("allocation", 4)
    ctx.at_least("invalid-object", 50)
    ctx.at_least("error-kept", 45)
    ctx.at_least("error-text", 45)
    ctx.at_least("returned", 70)


def is_helper(mods, proc):
    """Not bound to a type, and called by name inside the modules."""
    for m in mods:
        for t in m.types.values():
            if proc.name in t.bindings.values() or proc.name in t.finals:
                return False
    return True


def one(ctx, mods, proc):
    rule = Errors(mods)
    ip = Interp(mods, rule)
    outs = [a for a in proc.args if proc.decls[a].intent in ('out', 'inout')]
    code = next((a for a in outs if is_code(proc.decls[a])), None)
    text = next((a for a in outs if is_text(proc.decls[a])), None)
    if code:
        rule.code = ('var', proc.name, code)
    elif text:
        rule.code, rule.by_text = ('var', proc.name, text), True
    rule.top = proc
    frame, ends = ip.run(proc)
    for (p, line, name), fr in rule.optional.items():
        ctx.bad("optional", "%s %s" % (p.ident, name), "%s is referenced where it may be absent" % name, p.where(line))
    for path, (fr, line) in rule.unset.items():
        own = owner(fr, path)
        ctx.bad("defined", "%s %s" % (own.ident, path[-1]), "%s of %s is used undefined%s" % (
            path[-1], own.name, "" if fr.proc is own else " in " + fr.proc.name), fr.proc.where(line))
    for (p, line), (fr, path, why) in rule.deref.items():
        ctx.bad("pointer", "%s %s" % (p.ident, ".".join(str(x) for x in path[2:])),
                "pointer %s %s" % ("%".join(str(x) for x in path[2:]), why), p.where(line))
    scalars = [a for a in proc.args if proc.decls[a].intent == 'out' and proc.decls[a].base not in ('type', 'class')
               and proc.decls[a].dims is None]
    if proc.result and not proc.decls[proc.result].has('allocatable'):
        scalars.append(proc.result)
    for a in scalars:
        left = [st for st in ends if st.env.get(('var', proc.name, a)) == UNDEF and ip.present(st, frame, a) is not False]
        ctx.check(not left, "returned", "%s %s" % (proc.ident, a), "%s is undefined at a return" % a, proc.where())
    if rule.code:
        code = code or text
        here = [st for st in ends if ip.present(st, frame, code) is not False]
        lost = [st for st in here if any(e[0] == 'error' for e in st.ts)
                and not nonzero(ip, st, st.env.get(rule.code, ('init', rule.code)))
                and not (rule.by_text and nonblank(st.env.get(rule.code, ('init', rule.code))))]
        msg = ""
        if lost:
            steps = sorted(e for e in lost[0].ts if e[0] == 'error')
            msg = "the error recorded in %s (%s) is reset before the return" % (
                code, ", ".join("line %d in %s" % e[1:] for e in steps))
        ctx.check(not lost, "error-kept", proc.ident, msg, proc.where())
    if rule.code and not rule.by_text:
        invalid(ctx, rule, ip, proc, frame, here)
    if code and text and not rule.by_text:
        tp = ('var', proc.name, text)
        mute = [st for st in here if ip.present(st, frame, text) is not False
                and nonzero(ip, st, st.env.get(rule.code, ('init', rule.code)))
                and st.env.get(rule.code) is not None and not nonblank(st.env.get(tp, ('init', tp)))]
        ctx.check(not mute, "error-text", proc.ident, "%s can be empty although %s is nonzero" % (text, code), proc.where())
    ctx.count("paths to a return", len(ends))
    ctx.count("procedures analysed in context", len(ip.visited))
    return ip.visited


def invalid(ctx, rule, ip, proc, frame, here):
    """A component that was tested and found missing at entry must give an error."""
    missing = {}
    for st in here:
        for event in st.ts:
            if event[0] == 'missing':
                missing.setdefault(event[1], []).append(st)
    for path, states in sorted(missing.items(), key=str):
        name = "%".join(str(x) for x in path[2:])
        bad = [s for s in states if not nonzero(ip, s, s.env.get(rule.code, ('init', rule.code)))]
        ctx.check(not bad, "invalid-object", "%s %s" % (proc.ident, name),
                  "returns without an error although %s is missing" % name, proc.where())
    failed = {}
    for st in here:
        for event in st.ts:
            if event[0] == 'failed':
                failed.setdefault(event[1:], []).append(st)
    for (name, line), states in sorted(failed.items()):
        bad = [s for s in states if not nonzero(ip, s, s.env.get(rule.code, ('init', rule.code)))]
        num = sorted(ln for n, ln in failed if n == name).index(line)
        ctx.check(not bad, "allocation", "%s %s #%d" % (proc.ident, name, num), "returns without an error although the allocation in %s failed" % name,
                  proc.where(line))
