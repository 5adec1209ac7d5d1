"""C10: suite phases run only in lifecycle order, and what a phase allocates is released by its counterpart."""
import ast
import copy
import re

from sa.absint import (Interp, Rule, K, NONE, TRUE, FALSE, fragment, isk, show, show_atom, mentions)
from sa.project import AnalysisBroken, FuncInfo

PHASES = {'register': ('uninitialized', 'uninitialized'), 'initialize': ('uninitialized', 'initialized'),
          'timestep_initial': ('initialized', 'in_time_step'), 'run': ('in_time_step', 'in_time_step'),
          'timestep_final': ('in_time_step', 'initialized'), 'finalize': ('initialized', 'uninitialized')}
NAMES = {'register': ('register',), 'initialize': ('init', 'initial', 'initialize'),
         'timestep_initial': ('timestep_init', 'timestep_initial', 'timestep_initialize'), 'run': ('run',),
         'timestep_final': ('timestep_final', 'timestep_finalize'), 'finalize': ('final', 'finalize')}
SELF = ('param', 'self')


def is_call(val, short):
    return isinstance(val, tuple) and val and val[0] == 'call' and val[1].split(".")[-1] == short


def sub_terms(val, pred):
    out = [val] if isinstance(val, tuple) and val and pred(val) else []
    if isinstance(val, (tuple, frozenset)):
        for x in val:
            out += sub_terms(x, pred)
    return out


# ------------------------------------------------------------ state table
def literal(project, mod, node, depth=0):
    """Value of a constant expression of a module (names are module constants)."""
    if depth > 8:
        return None
    if isinstance(node, ast.Constant):
        return node.value
    if isinstance(node, (ast.Tuple, ast.List)):
        return tuple(literal(project, mod, x, depth + 1) for x in node.elts)
    if isinstance(node, ast.BinOp) and isinstance(node.op, ast.Add):
        left, right = literal(project, mod, node.left, depth + 1), literal(project, mod, node.right, depth + 1)
        return left + right if left is not None and type(left) is type(right) else None
    if isinstance(node, ast.Name):
        for stmt in mod.tree.body:
            if isinstance(stmt, ast.Assign) and any(isinstance(t, ast.Name) and t.id == node.id for t in stmt.targets):
                return literal(project, mod, stmt.value, depth + 1)
    return None


def table(project):
    mod = project.mod("ccpp_state_machine")
    for stmt in mod.tree.body:
        if isinstance(stmt, ast.Assign) and any(isinstance(t, ast.Name) and t.id == 'CCPP_STATE_MACH' for t in stmt.targets):
            val = stmt.value
            if isinstance(val, ast.Call) and (val.args or val.keywords):
                rows = literal(project, mod, val.args[0] if val.args else val.keywords[0].value)
                if rows:
                    return rows, "%s:%d" % (mod.rel, stmt.lineno)
    raise AnalysisBroken("CCPP_STATE_MACH is not a StateMachine of constant rows")


def check_table(ctx, project):
    rows, where = table(project)
    have = {}
    for row in rows:
        if len(row) == 4:
            have[row[0]] = row
    for name, (first, last) in PHASES.items():
        row = have.get(name)
        ctx.check(row is not None and row[1:3] == (first, last), "table", name, "phase %s does not lead from %s to %s" %
                  (name, first, last), where)
        if row is None:
            continue
        for other, words in NAMES.items():
            for word in words:
                hit = re.match(row[3] + "$", word) is not None
                ctx.check(hit == (other == name), "table", "%s as %s" % (word, name), "a scheme routine named *_%s %s phase %s" %
                          (word, "is not taken for" if other == name else "is taken for", name), where)
    ctx.check(set(have) == set(PHASES), "table", "phases", "the table has phases other than the documented ones", where)
    # accessors
    cls = project.cls("state_machine", "StateMachine")

    class Plain(Rule):
        def inline(self, fi, depth):
            return fi.cls is cls
    store = {}
    init = cls.methods.get('__setitem__')
    if init is None:
        raise AnalysisBroken("StateMachine.__setitem__ not found")

    class Put(Plain):
        def on_store(self, ip, st, node, kind, base, key, val):
            if kind == 'item' and isinstance(val, tuple) and val[0] == 'l':
                store[key] = val[1]
            return st
    Interp(project, Put()).run(init)
    ctx.saw(init)
    key, val = ('param', init.params[1]), ('param', init.params[2])
    cols = store.get(key)
    if not cols:
        raise AnalysisBroken("StateMachine.__setitem__ stores no row")
    for col, name in ((0, 'initial_state'), (1, 'final_state')):
        fi = cls.methods.get(name)
        if fi is None:
            raise AnalysisBroken("StateMachine.%s not found" % name)
        ctx.saw(fi)
        ex = Interp(project, Plain()).run(fi)
        good = bool(ex.ret)
        for st, ret, _ in ex.ret:
            # the element of the stored row, and the element of the definition stored there
            okay = ret[0] == 'item' and isk(ret[2]) and isinstance(ret[2][2], int) and ret[1][0] == 'item' and \
                ret[1][2] == ('param', fi.params[1])
            idx = ret[2][2] if okay else None
            okay = okay and idx < len(cols) and cols[idx] == ('item', val, K(col))
            good = good and okay
        ctx.check(good, "table", name, "%s does not give the %s state of the transition it is asked about" %
                  (name, "initial" if col == 0 else "final"), fi.where())
    return have


# ----------------------------------------------------------- capgen suite
def check_state_code(ctx, project):
    """The generated state check and state change."""
    suite = project.cls("ccpp_suite", "Suite")

    class Code(Rule):
        def inline(self, fi, depth):
            return fi.module.name == 'ccpp_suite'

        def oracle(self, ip, st, atom):
            if atom[0] == 'in' and is_call(atom[2], 'transitions'):
                return True
            return None
    var = None
    node = suite.consts.get('_Suite__state_machine_var_name') if hasattr(suite, 'consts') else None
    for stmt in suite.node.body:
        if isinstance(stmt, ast.Assign) and isinstance(stmt.targets[0], ast.Name) and isinstance(stmt.value, ast.Constant):
            if 'state_machine_var_name' in stmt.targets[0].id:
                var = stmt.value.value
            if 'state_machine_initial_state' in stmt.targets[0].id:
                node = stmt
    fi = suite.methods.get('check_suite_state')
    sfi = suite.methods.get('set_suite_state')
    if fi is None or sfi is None:
        raise AnalysisBroken("Suite.check_suite_state / set_suite_state not found")
    var = var or 'ccpp_suite_state'
    ctx.saw(fi)
    ex = Interp(project, Code()).run(fi)
    stage = ('param', [p for p in fi.params if p not in ('cls', 'self')][0])
    seen = 0
    for st, ret, rnode in ex.ret:
        lines = stmts_of(ret)
        if lines is None:
            raise AnalysisBroken("check_suite_state does not return a CodeBlock of known statements")
        seen += 1
        texts = [txt(x) for x in lines]
        want = "{CCPP_STATE_MACH.initial_state(%s)}" % show(stage)
        first = texts[0] if texts else ''
        good = bool(re.match(r"if\b.*\bthen\s*$", first)) and "/=" in first and var in first
        inits = [t for t in sub_terms(lines[0], lambda t: is_call(t, 'initial_state'))] if lines else []
        ctx.check(good and len(inits) >= 1 and all(t[3] == (stage,) for t in inits) and not sub_terms(
            lines[0], lambda t: is_call(t, 'final_state')), "state code", "condition",
                  "the generated check does not compare the suite state with the state required by the phase: %s (%s)" %
                  (first, want), fi.where(rnode))
        stop = [i for i, t in enumerate(texts) if re.match(r"end\s*if", t)]
        body = texts[1:stop[0]] if stop else texts[1:]
        code = [t for t in body if re.match(r"\{errcode\}\s*=\s*[-+]?0*[1-9]", t)]
        ctx.check(bool(code) and not [t for t in body if re.match(r"\{errcode\}\s*=\s*0*$", t)], "state code", "error",
                  "the generated check does not set a nonzero error code when the suite is in another state", fi.where(rnode))
        ctx.check(any(t.strip() == 'return' for t in body), "state code", "return",
                  "the generated check does not return when the suite is in another state", fi.where(rnode))
    if not seen:
        raise AnalysisBroken("check_suite_state never returns")
    ctx.saw(sfi)
    ex = Interp(project, Code()).run(sfi)
    phase = ('param', [p for p in sfi.params if p not in ('cls', 'self')][0])
    good = bool(ex.ret)
    why = ''
    for st, ret, rnode in ex.ret:
        lines = stmts_of(ret)
        if lines is None:
            raise AnalysisBroken("set_suite_state does not return a CodeBlock of known statements")
        same = any(v is True and a[0] == 'eq' and {t[1].split(".")[-1] for t in a[1:] if t[0] == 'call'} ==
                   {'initial_state', 'final_state'} for a, v in st.preds.items())
        sets = []
        for line in lines:
            text = txt(line)
            if re.match(r"%s\s*=" % re.escape(var), text):
                sets.append(line)
        finals = [t for x in sets for t in sub_terms(x, lambda t: is_call(t, 'final_state'))]
        inits = [t for x in sets for t in sub_terms(x, lambda t: is_call(t, 'initial_state'))]
        okay = all(t[3] == (phase,) for t in finals + inits)
        if not same:
            okay = okay and len(sets) == 1 and len(finals) == 1 and not inits and re.match(
                r"%s = '\{.*\}'$" % re.escape(var), txt(sets[0])) is not None
        else:
            okay = okay and all(re.match(r"%s = '\{.*\}'$" % re.escape(var), txt(x)) for x in sets)
        good = good and okay
        why = why or ("" if okay else "; ".join(show(x) for x in lines))
    ctx.check(good, "state code", "transition", "the generated state change does not move the suite to the state after the "
              "phase: %s" % why, sfi.where())
    # the state a suite starts in
    init = node.value.value if isinstance(node, ast.stmt) else None
    ctx.check(init == PHASES['register'][0], "state code", "start", "a suite does not start uninitialized", sfi.where(node)
              if isinstance(node, ast.stmt) else "")
    tmpl = [s for s in suite.node.body if isinstance(s, ast.Assign) and 'state_machine_init' in s.targets[0].id and isinstance(
        s.value, ast.Constant) and ':: {' in str(s.value.value)]
    if tmpl:
        text = tmpl[0].value.value
        size = re.search(r"len=(\d+)", text)
        longest = max(len(x) for pair in PHASES.values() for x in pair)
        ctx.check(size is None or int(size.group(1)) >= longest, "state code", "length", "the state variable is too short "
                  "for the state names", sfi.where(tmpl[0]))
        ctx.check(re.search(r"=\s*'\{\w+\}'", text) is not None, "state code", "initialized", "the state variable has no initial "
                  "value", sfi.where(tmpl[0]))
    return var


def txt(val):
    return val[2] if isk(val) and isinstance(val[2], str) else show(val)


def stmts_of(val):
    """Statements of a CodeBlock value, or None."""
    if is_call(val, 'CodeBlock'):
        args = val[3]
    elif isinstance(val, tuple) and val[0] == 'new' and val[1] == 'CodeBlock':
        args = val[3]
    else:
        return None
    arg = args[0] if args else None
    if arg is None or arg[0] != 'l':
        return None
    out = []
    for item in arg[1]:
        if item[0] != 'l' or not item[1]:
            return None
        out.append(item[1][0])
    return out


class Roles:
    """Which attributes of a group hold its state check and state change."""
    def __init__(self):
        self.check = self.set = None


def check_wiring(ctx, project):
    """Suite.analyze hands a group the state check and the state change of its own phase."""
    suite = project.cls("ccpp_suite", "Suite")
    group = project.cls("suite_objects", "Group")
    fi, gfi = suite.methods.get('analyze'), group.methods.get('analyze')
    if fi is None or gfi is None:
        raise AnalysisBroken("Suite.analyze / Group.analyze not found")
    ctx.saw(fi)
    ctx.saw(gfi)
    names = gfi.params[1:]

    def makes(n, what):
        return isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == what
    calls = []

    class Wire(Rule):
        max_depth = 2

        def inline(self, f, depth):
            return f.module.name == 'ccpp_suite' and f.name not in ('check_suite_state', 'set_suite_state')

        def on_call(self, ip, st, node, name, target, recv, args, kwargs):
            if name.split(".")[-1] in ('check_suite_state', 'set_suite_state'):
                return [(st, ('call', name.split(".")[-1], None, tuple(args)))]
            if name.split(".")[-1] == 'analyze' and recv is not None:
                calls.append((node, dict(zip(names, args), **kwargs)))
                return [(st, NONE)]
            return None
    holder = fi
    for f in suite.methods.values():
        if any(makes(n, 'check_suite_state') for n in ast.walk(f.node)):
            holder = f
    frag, env = fragment(holder, lambda n: makes(n, 'analyze') or makes(n, 'check_suite_state') or makes(n, 'set_suite_state'))
    Interp(project, Wire()).run(frag, env)
    ctx.saw(holder)
    if not calls:
        raise AnalysisBroken("Suite.analyze analyses no group")
    roles = {}
    good = True
    for node, vals in calls:
        phase = vals.get(names[0])
        for par, val in vals.items():
            for what in ('check_suite_state', 'set_suite_state'):
                if is_call(val, what):
                    roles[what] = par
                    good = good and val[3] == (phase,)
    ctx.check(good and len(roles) == 2, "wiring", "phase of a group", "a group is given the state check or state change of "
              "another phase", holder.where(calls[0][0]))
    if len(roles) != 2:
        raise AnalysisBroken("Group.analyze is not given state check and state change")
    held = {}

    class Keep(Rule):
        max_depth = 2
        merge = True

        def inline(self, f, depth):
            return f.cls is group

        def on_store(self, ip, st, node, kind, base, key, val):
            if kind == 'attr' and base == SELF:
                held.setdefault(val, set()).add(key)
            return st
    ex = Interp(project, Keep()).run(gfi)
    out = Roles()
    for what, attr in (('check_suite_state', 'check'), ('set_suite_state', 'set')):
        got = held.get(('param', roles[what]))
        ctx.check(bool(got), "wiring", "%s kept" % what, "Group.analyze does not keep what %s gave it" % what, gfi.where())
        if got:
            setattr(out, attr, sorted(got)[0])
    return out


class Writer(Rule):
    """One generated group routine."""
    merge = True
    keep_none = True
    merge_over = 1
    liveness = True
    text = True
    max_depth = 3
    OPAQUE = ('find_variable', 'declarations', 'allocate_dim_str', 'analyze', 'phase', 'add_call_list_variable')

    def __init__(self, project, phase, roles, allocate):
        self.phase = phase
        self.roles = roles
        self.flags = allocate
        self.bad = {}
        self.seen = set()
        self.alloc = {}
        self.dealloc = {}
        self.suite = {'allocate': [], 'deallocate': []}
        self.parts_cond = False

    def inline(self, fi, depth):
        return fi.module.name == 'suite_objects' and fi.cls is not None and fi.cls.name in ('Group', 'SuiteObject') and \
            fi.name not in self.OPAQUE

    def on_bound(self, ip, st, node, name, val):
        if val[0] in ('l', 'd') and val[1] == () or val in (('l', (), 'set'),):
            return st.bind(name, ('coll', name))
        return st

    def oracle(self, ip, st, atom):
        if atom[0] == 'truth' and atom[1] == ('param', 'allocate'):
            return 'allocate' in self.flags
        if atom[0] == 'truth' and atom[1] == ('param', 'deallocate'):
            return 'deallocate' in self.flags
        return None

    def fail(self, what, node):
        self.bad.setdefault(what, node)

    def event(self, st, what, node):
        ts = set(st.ts)
        self.seen.add(what)
        if what in ('alloc', 'part', 'dealloc', 'suite alloc', 'suite dealloc'):
            if 'check' not in ts:
                self.fail("%s before the state check" % what, node)
        if what == 'check' and not {'errcode', 'errmsg'} <= ts:
            self.fail("state check before the error variables are set", node)
        if what in ('errcode', 'errmsg') and 'check' in ts:
            self.fail("error variables are reset after the state check", node)
        if what == 'part' and ts & {'set', 'dealloc', 'suite dealloc'}:
            self.fail("schemes called after the %s" % ("state change" if 'set' in ts else "deallocation"), node)
        if what in ('alloc', 'suite alloc') and 'part' in ts:
            self.fail("allocation after the schemes", node)
        ts.add(what)
        return st.with_ts(frozenset(ts))

    def iter_start(self, ip, st, node):
        return st

    def on_call(self, ip, st, node, name, target, recv, args, kwargs):
        short = name.split(".")[-1]
        if short == 'phase' and recv == SELF:
            return [(st, K(self.phase))]
        if short in ('sorted', 'list', 'set', 'reversed') and args and recv is None and name == short:
            return [(st, ('call', short, None, (args[0],)))]
        if short != 'write' or recv is None:
            return None
        if recv[0] == 'attr' and recv[1] == SELF and recv[2] == self.roles.check:
            var = args[2] if len(args) > 2 else kwargs.get('var_dict')
            if var is not None:
                text = show(var)
                if 'ccpp_error_code' not in text.split('errmsg')[0] and 'errcode' in text and 'ccpp_error_code' not in text:
                    self.fail("the state check reports in another variable than the error code", node)
            return [(self.event(st, 'check', node), NONE)]
        if recv[0] == 'attr' and recv[1] == SELF and recv[2] == self.roles.set:
            return [(self.event(st, 'set', node), NONE)]
        if recv[0] == 'attr':
            return [(st, NONE)]
        if recv[0] == 'elem' and sub_terms(recv, lambda t: t[0] == 'attr' and t[1] == SELF and 'parts' in t[2]):
            if any(mentions(a, recv) for a in st.preds):
                self.fail("a part of the group is skipped", node)
            return [(self.event(st, 'part', node), NONE)]
        if not args:
            return [(st, NONE)]
        text = args[0]
        shown = txt(text).strip()
        got = re.match(r"\{(.*)\} = (0|'')$", shown)
        if got:
            for std, what in (('ccpp_error_code', 'errcode'), ('ccpp_error_message', 'errmsg')):
                if std in got.group(1) and (got.group(2) == '0') == (what == 'errcode'):
                    st = self.event(st, what, node)
        for what, pat in (('alloc', r"\n? *allocate *\("), ('dealloc', r"\n? *(if *\(allocated *\(.*)?deallocate *\(")):
            lit = "".join(p if isinstance(p, str) else "\0" for p in text[1]) if text[0] == 's' else txt(text)
            if not re.match(pat, lit):
                continue
            pos = 0
            target = None
            for p in text[1] if text[0] == 's' else ():
                if isinstance(p, str):
                    pos = re.search(what.replace('alloc', 'alloc') + r"ate *\($" if what == 'alloc' else r"deallocate *\($", p) is not None
                elif pos and target is None:
                    target = p
            if target is None:
                continue
            coll = frozenset(t[1] for t in sub_terms(target, lambda t: t[0] == 'coll'))
            suite = sub_terms(target, lambda t: t[0] == 'elem' and mentions(t, ('param', 'suite_vars')))
            if suite:
                elem = suite[0]
                conds = frozenset((norm(a, elem), v) for a, v in st.preds.items() if mentions(a, elem) and a[0] != 'isnone')
                self.suite['allocate' if what == 'alloc' else 'deallocate'].append((conds, node, shape(target, elem)))
                st = self.event(st, 'suite ' + what, node)
            else:
                elems = sub_terms(target, lambda t: t[0] == 'elem')
                cond = any(mentions(a, e) for a in st.preds for e in elems)
                slot = self.alloc if what == 'alloc' else self.dealloc
                for c in coll or frozenset((show(target),)):
                    slot.setdefault(c, []).append((cond, node))
                st = self.event(st, what, node)
        return [(st, NONE)]


def norm(atom, elem):
    """Condition on a suite variable, as text that does not name the loop."""
    return show_atom(atom).replace(show(elem), "VAR")


def shape(val, elem):
    return show(val).replace(show(elem), "VAR")


def suite_flags(ctx, project):
    """What Suite.write asks of the group of each phase."""
    suite = project.cls("ccpp_suite", "Suite")
    parse, write = suite.methods.get('parse'), suite.methods.get('write')
    if parse is None or write is None:
        raise AnalysisBroken("Suite.parse / Suite.write not found")
    attrs, lists = {}, {}

    def new_group(n):
        return isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'new_group_from_name'

    class Collect(Rule):
        max_depth = 2

        def inline(self, f, depth):
            return f.cls is suite and f.name not in ('new_group_from_name', 'new_group', 'parse')

        def slice_events(self, f):
            return lambda n: new_group(n) or (isinstance(n, ast.Attribute) and n.attr.endswith('groups'))

        def on_call(self, ip, st, node, name, target, recv, args, kwargs):
            if name.split(".")[-1] == 'new_group_from_name' and args and isk(args[0]):
                return [(st, ('group', args[0][2]))]
            return None

        def on_store(self, ip, st, node, kind, base, key, val):
            if kind == 'attr' and base == SELF:
                if val[0] == 'group':
                    attrs[key] = val[1]
                elif val[0] == 'l':
                    found = [t[1] for t in sub_terms(val, lambda t: t[0] == 'group')]
                    if found:
                        lists[key] = set(found)
            return st
    for fi in suite.methods.values():
        if any(new_group(n) for n in ast.walk(fi.node)):
            Interp(project, Collect()).run(fi)
            ctx.saw(fi)
    if set(attrs.values()) != set(PHASES) - {'run'}:
        ctx.bad("suite", "groups", "the suite does not create one group for each phase outside the time loop (%s)" %
                ", ".join(sorted(attrs.values())), parse.where())
    else:
        ctx.ok("suite", "groups", parse.where())
    out = {}
    gwrite = project.cls("suite_objects", "Group").methods['write']
    for phase in PHASES:
        got = []

        class Flags(Rule):
            max_depth = 3
            merge = True
            keep_none = True

            def inline(self, f, depth):
                return f.cls is suite and f.name != 'write'

            def oracle(self, ip, st, atom):
                if atom[0] in ('in', 'eq'):
                    sides = [s for s in atom[1:] if s[0] == 'attr' and s[2] == 'name' and s[1][0] == 'elem']
                    rest = [s for s in atom[1:] if s not in sides]
                    if sides and rest:
                        r = rest[0]
                        if atom[0] == 'in' and r[0] == 'attr' and r[2] in lists:
                            return phase in lists[r[2]]
                        if atom[0] == 'in' and r[0] == 'bin':
                            parts = [t[2] for t in sub_terms(r, lambda t: t[0] == 'attr') if t[2] in lists]
                            if parts:
                                return any(phase in lists[x] for x in parts)
                        if atom[0] == 'eq' and r[0] == 'attr' and r[2] == 'name' and r[1][0] == 'attr' and r[1][2] in attrs:
                            return attrs[r[1][2]] == phase
                if atom[0] in ('eq', 'is') and len(atom) > 2:
                    for a, b in ((atom[1], atom[2]), (atom[2], atom[1])):
                        if a[0] == 'elem' and b[0] == 'attr' and b[2] in attrs:
                            return attrs[b[2]] == phase
                        if is_call(a, 'phase') and isk(b):
                            return b[2] == phase
                if atom[0] == 'in' and atom[1][0] == 'call' and is_call(atom[1], 'phase') and atom[2][0] == 'l':
                    return K(phase) in atom[2][1]
                return None

            def on_call(self, ip, st, node, name, target, recv, args, kwargs):
                if name.split(".")[-1] == 'run_phase' and recv is not None and recv[0] == 'elem':
                    return [(st, TRUE if phase == 'run' else FALSE)]
                if name.split(".")[-1] == 'write' and recv is not None and recv[0] == 'elem':
                    names = gwrite.params[1:]
                    vals = dict(zip(names, args))
                    vals.update(kwargs)
                    flags = tuple(sorted(f for f in ('allocate', 'deallocate') if vals.get(f, FALSE) not in (FALSE, NONE)))
                    unknown = any(vals.get(f, FALSE) not in (FALSE, NONE, TRUE) for f in ('allocate', 'deallocate'))
                    got.append((flags, vals.get('suite_vars', NONE), node, unknown))
                    return [(st, NONE)]
                return None
        holder = write
        Interp(project, Flags()).run(holder)
        ctx.saw(holder)
        if not got:
            raise AnalysisBroken("Suite.write writes no group in phase %s" % phase)
        out[phase] = got
    return out, write


def check_groups(ctx, project, roles):
    flags, write = suite_flags(ctx, project)
    gwrite = project.cls("suite_objects", "Group").methods.get('write')
    want = {'initialize': ('allocate',), 'timestep_initial': ('allocate',), 'timestep_final': ('deallocate',),
            'finalize': ('deallocate',), 'run': (), 'register': ()}
    for phase in PHASES:
        for have, vars_, node, unknown in flags[phase]:
            good = have == want[phase] and not unknown and (not have or vars_ == SELF)
            ctx.check(good, "suite", "variables in %s" % phase, "the %s routine of a suite is written with %s of the suite's "
                      "variables instead of %s" % (phase, "/".join(have) or "no handling", "/".join(want[phase]) or "none"),
                      write.where(node))
    ctx.saw(gwrite)
    found = {}
    for phase in PHASES:
        rule = Writer(project, phase, roles, want[phase])
        ip = Interp(project, rule)
        ex = ip.run(gwrite, ts=frozenset())
        if not ex.ret:
            raise AnalysisBroken("Group.write never returns")
        for what, node in sorted(rule.bad.items()):
            ctx.bad("order", "%s: %s" % (phase, what), "generated %s routine: %s" % (phase, what), gwrite.where(node))
        for need, text in (('errcode', "sets the error code to zero"), ('errmsg', "clears the error message"),
                           ('check', "checks the suite state"), ('set', "moves the suite to its next state"),
                           ('part', "calls its schemes")):
            if need == 'part':
                good = 'part' in rule.seen
            else:
                good = all(need in st.ts for st, _, _ in ex.ret)
            ctx.check(good, "order", "%s %s" % (phase, need), "the generated %s routine does not always %s" %
                      (phase, text.replace("s ", " ", 1)), gwrite.where())
        for coll in sorted(set(rule.alloc) | set(rule.dealloc)):
            a, d = rule.alloc.get(coll, []), rule.dealloc.get(coll, [])
            ctx.check(bool(d) or not a, "pairing", "%s %s" % (phase, coll), "local arrays (%s) allocated in the %s routine are not "
                      "deallocated in it" % (coll, phase), gwrite.where(a[0][1] if a else None))
            ctx.check(not d or bool(a), "pairing", "%s %s source" % (phase, coll), "arrays (%s) are deallocated in the %s routine "
                      "which did not allocate them" % (coll, phase), gwrite.where(d[0][1] if d else None))
            ctx.check(not any(c for c, _ in a + d), "pairing", "%s %s whole" % (phase, coll), "only some of the local arrays (%s) of "
                      "the %s routine are allocated or deallocated" % (coll, phase), gwrite.where((a + d)[0][1]))
        found[phase] = rule.suite
    for first, last, kind in (('initialize', 'finalize', 'run'), ('timestep_initial', 'timestep_final', 'timestep')):
        a, d = found[first]['allocate'], found[last]['deallocate']
        ca, cd = {c for c, _, _ in a}, {c for c, _, _ in d}
        where = gwrite.where((a + d)[0][1]) if a + d else gwrite.where()
        ctx.check(bool(a) and ca == cd and {s for _, _, s in a} == {s for _, _, s in d}, "pairing", "suite variables %s/%s" %
                  (first, last), "the suite variables %s releases are not those %s allocates" % (last, first), where)
        good = bool(a)
        for conds, _, _ in a + d:
            texts = {(t, v) for t, v in conds}
            pers = [v for t, v in texts if "'persistence'" in t and "== '%s'" % kind in t or "'persistence'" in t and "'%s' ==" % kind in t]
            rest = [(t, v) for t, v in texts if "'persistence'" not in t]
            good = good and pers == [True] and all("dimensions" in t for t, _ in rest)
        ctx.check(good, "pairing", "persistence in %s" % first, "%s does not allocate exactly the suite arrays whose persistence is "
                  "'%s'" % (first, kind), where)


# ------------------------------------------------------------- prebuild
def class_text(cls, name):
    for stmt in cls.node.body:
        if isinstance(stmt, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in stmt.targets):
            return stmt
    return None


def lines_of(text):
    return [x.strip().lower() for x in text.split("\n") if x.strip()]


def feeding(block, pred):
    """The statements of BLOCK that hold an event or feed one through plain assignments."""
    keep = [s for s in block if any(pred(n) for n in ast.walk(s))]
    while True:
        used = {n.id for s in keep for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}
        more = [s for s in block if s not in keep and isinstance(s, (ast.Assign, ast.If)) and any(
            isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id in used for n in ast.walk(s))]
        if not more:
            return [s for s in block if s in keep]
        keep += more


def check_prebuild(ctx, project):
    cls = project.cls("mkstatic", "Group")
    fi = cls.methods.get('write')
    if fi is None:
        raise AnalysisBroken("mkstatic.Group.write not found")
    ctx.saw(fi)
    sub, tests, sets = class_text(cls, 'sub'), class_text(cls, 'initialized_test_blocks'), class_text(cls, 'initialized_set_blocks')
    head = class_text(cls, 'header')
    if not (sub and tests and sets and head) or not isinstance(tests.value, ast.Dict) or not isinstance(sets.value, ast.Dict):
        raise AnalysisBroken("mkstatic.Group: templates not found")
    text = sub.value.value
    order = [text.find(x) for x in ("{initialized_test_block}", "{body}", "{initialized_set_block}")]
    ctx.check(min(order) >= 0 and order == sorted(order), "prebuild", "order", "a group cap does not test the initialization, then "
              "call its schemes, then record its new state", fi.where(sub))
    zero = re.search(r"^\s*ierr *= *0\s*$", text, re.M)
    ctx.check(zero is not None and zero.start() < order[0] and not re.search(
        r"^\s*ierr *=", text[order[0]:], re.M), "prebuild", "ierr", "a group cap does not set its return value to zero before it starts",
        fi.where(sub))
    ctx.check(re.search(r"dimension\(\{num_instances\}\).*:: *initialized *= *\.false\.", head.value.value) is not None, "prebuild",
              "start", "a group cap does not start uninitialized for every instance", fi.where(head))
    tab = {k.value: v.value for k, v in zip(tests.value.keys, tests.value.values) if isinstance(v, ast.Constant)}
    stab = {k.value: v.value for k, v in zip(sets.value.keys, sets.value.values) if isinstance(v, ast.Constant)}
    inst = r"initialized\(\{ccpp_var_name\}%ccpp_instance\)"
    no = r"\.not\. *" + inst
    for stage in ('init', 'timestep_init', 'run', 'timestep_finalize', 'finalize'):
        block = lines_of(tab.get(stage, ''))
        if stage == 'init':
            good = len(block) == 1 and re.match(r"if *\(%s\) *return$" % inst, block[0])
        elif stage == 'finalize':
            good = len(block) == 1 and re.match(r"if *\(%s\) *return$" % no, block[0])
        else:
            good = bool(block) and re.match(r"if *\(%s\) *then$" % no, block[0]) and re.match(r"end *if$", block[-1]) and \
                any(re.match(r"ierr *= *[1-9]", x) for x in block) and any(
                    re.match(r"\{target_name_flag\} *= *[1-9]", x) for x in block) and block[-2] == 'return'
        ctx.check(bool(good), "prebuild", "test in %s" % stage, "the %s group cap %s" % (stage, {
            'init': "does not return at once if it is initialized", 'finalize': "does not return at once if it is not initialized"}.get(
                stage, "does not return with an error if it is not initialized")), fi.where(tests))
        block = [x for x in lines_of(stab.get(stage, '')) if not x.startswith('!')]
        value = {'init': '.true.', 'finalize': '.false.'}.get(stage)
        if value:
            good = len(block) == 1 and re.match(r"%s *= *%s$" % (inst, re.escape(value)), block[0])
        else:
            good = not any('initialized' in x for x in block)
        ctx.check(bool(good), "prebuild", "set in %s" % stage, "the %s group cap does not record that %s" % (stage, {
            'init': "this instance is initialized", 'finalize': "this instance, and only it, is no longer initialized"}.get(
                stage, "nothing changes")), fi.where(sets))
    # how the templates are used
    used = {}

    class Use(Rule):
        def on_attr(self, ip, st, node, base, attr):
            if attr in ('initialized_test_blocks', 'initialized_set_blocks'):
                return [(st, ('blocks', attr))]
            return None

        merge = True
        merge_over = 1
        liveness = True
        max_depth = 2
        text = False

        def inline(self, f, depth):
            return f.cls is cls and f.name != 'write'

        def on_call(self, ip, st, node, name, target, recv, args, kwargs):
            if name.split(".")[-1] == 'format' and 'initialized_test_block' in kwargs:
                used.setdefault(id(node), []).append((node, kwargs, dict(st.preds)))
                return [(st, ('call', 'format', None, ()))]
            if name.split(".")[-1] == 'format' and recv is not None and recv[0] == 'item' and recv[1][0] == 'blocks':
                return [(st, ('block', recv[1][1], recv[2], kwargs.get('ccpp_var_name', NONE)))]
            return None

    def marks(n):
        return isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'format' and (
            any(k.arg == 'initialized_test_block' for k in n.keywords) or any(
                isinstance(m, ast.Attribute) and m.attr in ('initialized_test_blocks', 'initialized_set_blocks')
                for m in ast.walk(n.func)))
    holders = [f for f in cls.methods.values() if any(marks(n) for n in ast.walk(f.node))]
    if fi not in holders:
        holders.append(fi)
    main = [f for f in holders if any(isinstance(n, ast.Call) and any(k.arg == 'initialized_test_block' for k in n.keywords)
                                      for n in ast.walk(f.node))]
    if not main:
        raise AnalysisBroken("mkstatic.Group.write does not fill in its template")
    for f in main:
        node = copy.deepcopy(f.node)
        for n in ast.walk(node):
            if marks(n) and n.keywords:
                n.keywords = [k for k in n.keywords if k.arg in ('initialized_test_block', 'initialized_set_block', 'ccpp_var_name')]
        frag, env = fragment(FuncInfo(f.module, node, f.cls, f.outer), marks)
        frag.node.body = feeding(frag.node.body, marks)
        Interp(project, Use()).run(frag, env)
        ctx.saw(f)
    for hits in used.values():
        for node, kw, preds in hits:
            test, put = kw.get('initialized_test_block'), kw.get('initialized_set_block')
            tests_ = sub_terms(test, lambda t: t[0] == 'block')
            puts = sub_terms(put, lambda t: t[0] == 'block')
            rest = [x for x in (test[1] if test[0] == 'j' else (test,)) if x[0] != 'block']
            args_empty = any(not v and a[0] == 'truth' and 'arguments' in show(a[1]) for a, v in preds.items())
            ok_test = all(t[1] == 'initialized_test_blocks' for t in tests_) and (
                bool(tests_) or args_empty) and all(x == K('') for x in rest)
            ok_put = len(puts) == 1 and puts[0] == put and puts[0][1] == 'initialized_set_blocks'
            same = {t[2] for t in tests_ + puts}
            ctx.check(ok_test, "prebuild", "test used", "a group cap is written without the initialization test of its stage",
                      main[0].where(node))
            ctx.check(ok_put, "prebuild", "set used", "a group cap is written without the state change of its stage",
                      main[0].where(node))
            ctx.check(len(same) == 1 and len({t[3] for t in tests_ + puts}) == 1, "prebuild", "same stage", "the test and the state change of a group "
                      "cap belong to different stages or instances", main[0].where(node))
    # the condition under which the test is left out
    for f in main:
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Constant) and \
                    n.value.value == '' and n.targets[0].id == 'initialized_test_block':
                cond = [i for i in ast.walk(f.node) if isinstance(i, ast.If) and (n in i.orelse or n in i.body)]
                if cond:
                    good = 'arguments' in ast.dump(cond[0].test)
                    ctx.check(good, "prebuild", "test left out", "the initialization test is left out of a cap that has arguments",
                              f.where(cond[0]))
    if not used:
        raise AnalysisBroken("mkstatic.Group.write does not fill in its template")


def check(ctx, project):
    ctx.rule("table", "the constant state table, the accessors of StateMachine, and the routine names of each phase")
    ctx.rule("state code", "the statements of check_suite_state and set_suite_state for an arbitrary phase; the starting state")
    ctx.rule("wiring", "each group gets (and keeps) the state check and state change of its own phase")
    ctx.rule("suite", "Suite.write: which phases allocate and release suite variables")
    ctx.rule("order", "typestate over Group.write, for each of the six phases: error variables, state check, allocation, schemes, "
             "deallocation, state change, on every path")
    ctx.rule("pairing", "what a routine (or phase) allocates is what it (or its counterpart) releases")
    ctx.rule("prebuild", "templates of the prebuild group caps and how Group.write fills them in")
    check_table(ctx, project)
    check_state_code(ctx, project)
    roles = check_wiring(ctx, project)
    check_groups(ctx, project, roles)
    check_prebuild(ctx, project)
    ctx.at_least("order", 30)
