"""C31: the inquiry routines of a suite list every variable, scheme and part once.

The generating functions are evaluated over sets that are not known (sa/regions.py); the Fortran they write is evaluated for every
combination of its optional arguments. Lengths and positions are linear forms over the regions of the sets, so what is decided holds
for sets of any size."""
import ast
import itertools
import re

from sa.regions import Evaluator, Undecided, Ref, Seq, Term, Lin, Elem, MARK, size
from sa.textflow import MUTATORS
from sa.tokens import speaks
from rules import c30

RULES = {
    "allocated": "a list is allocated with the number of its elements",
    "placed": "the elements are placed one after the other from the first, none over another",
    "content": "the list holds exactly what it should, everything once",
    "sorted": "each variable of a call list is filed under its intent, whole or by its elements; protected inputs are left out",
    "exists": "the routines were evaluated",
}
OPTIONS = ("input_vars", "output_vars", "struct_elements")


class Lists(Evaluator):
    """An evaluator that takes the sets a loop collects as unknown."""
    filing = None
    pairs = ()        # (a set of variables with elements, the set of their elements): empty together

    def loop(self, s):
        it = self.ev(s.iter) if isinstance(s, ast.For) else Term("while")
        if isinstance(it, (Seq, tuple)) or isinstance(it, Ref) and it.kind == 'set':
            return self.over(s, it)
        if isinstance(it, Ref) and it.kind in ('list', 'tuple'):
            for x in list(it.val):
                self.store(s.target, x)
                got = self.block(s.body)
                if got is not None and got[0] == 'return':
                    return got
            return None
        names = {n.id for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        if self.writes(s):
            if isinstance(it, Term) and isinstance(s, ast.For) and len(s.body) <= 8 and not any(isinstance(n, ast.For) for x in s.body for n in ast.walk(x)) \
                    and not re.search(r"suites$", it.text):
                return self.over(s, Seq(self.mask_of(it)))
            for n in names:
                self.env[n] = Term("before:" + n)
            got = self.block(s.body)
            return got if got is not None and got[0] == 'return' else None
        self.collect(s, names)
        return None

    def writes(self, s):
        for n in ast.walk(s):
            if isinstance(n, ast.Call):
                if isinstance(n.func, ast.Attribute) and n.func.attr == 'write':
                    return True
                fi = self.target(n)
                if fi is not None and speaks(fi):
                    return True
        return False

    def collect(self, s, names):
        """What a loop has put into sets is not known."""
        env = dict(self.env)
        found = {}
        for n in ast.walk(s):
            spots = []
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
                spots = [n.func.value]
            elif isinstance(n, ast.AugAssign):
                spots = [n.target]
            elif isinstance(n, ast.Call):
                spots = list(n.args) + [k.value for k in n.keywords]
            for x in spots:
                if isinstance(x, (ast.Name, ast.Subscript, ast.Attribute)):
                    self.env = dict(env, **{m: Term(m) for m in names})
                    try:
                        val = self.ev(ast.parse(ast.unparse(x), mode='eval').body)
                    except Undecided:
                        continue
                    self.reach(val, ast.unparse(x), found)
                    root = x
                    while isinstance(root, (ast.Subscript, ast.Attribute)):
                        root = root.value
                    if isinstance(val, Term) and isinstance(root, ast.Name) and isinstance(env.get(root.id), Ref):
                        self.reach(env[root.id], root.id, found)
        self.env = env
        if found and self.filing is not None:
            self.filing(self, s, found, names)
        for label, ref in found.values():
            ref.label = label
            ref.val |= self.base.mask(label)
        for whole, parts in self.pairs:
            if self.nonempty(self.base.mask(parts)):
                self.full.append(self.base.mask(whole))
            else:
                self.empty |= self.base.mask(whole)
        for n in names:
            if n in self.env and isinstance(self.env[n], Ref) and self.env[n].kind == 'set':
                continue
            self.env[n] = Term("after:" + n)

    def reach(self, val, label, found):
        if isinstance(val, Ref) and val.kind == 'set':
            found.setdefault(id(val), (label, val))
        elif isinstance(val, Ref) and val.kind in ('list', 'tuple'):
            for i, x in enumerate(val.val):
                self.reach(x, "%s[%d]" % (label, i), found)
        elif isinstance(val, Ref):
            for k, x in val.val.items():
                self.reach(x, "%s[%r]" % (label, k), found)

    def added(self, e, f, box, val):
        box.val |= self.base.mask(self.show(val))
        return None

    def worth(self, fi):
        return speaks(fi) and fi.name != 'write_def'


class Filing(Evaluator):
    """One iteration of the loop that files the variables."""
    def loop(self, s):
        return None

    def added(self, e, f, box, val):
        self.log.append((id(box), self.show(val)))
        return None

    def worth(self, fi):
        return any(isinstance(n, ast.Attribute) and n.attr in ('add', 'update') for n in ast.walk(fi.node))


def filed(main, loop, found, names):
    """[(intent or None, elements?, {set: what}, facts)] for every path through the innermost loop that files."""
    inner = loop
    while True:
        subs = [n for x in inner.body for n in ast.walk(x) if isinstance(n, (ast.For, ast.While)) and any(
            isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in ('add', 'update') for c in ast.walk(n))]
        if not subs:
            break
        inner = subs[0]
    env = dict(main.env)
    for n in names:
        env[n] = Term(n)
    ev = Filing(main.p, main.stack[-1])
    out = []
    for ended in ev.paths(inner.body, env):
        if ended == 'dead':
            continue
        intent = elements = None
        for k, yes in ev.facts.items():
            if k[0] == 'is' and 'intent' in k[1] and yes:
                intent = k[2]
            if k[0] == 'isinstance' and 'intrinsic_elements' in k[1]:
                elements = yes
        out.append((intent, elements, list(ev.log), dict(ev.facts)))
    return out


# -------------------------------------------------------------------- the Fortran text
class Program:
    """A routine as it was written, run for one choice of its optional arguments."""
    def __init__(self, ev, options):
        self.ev, self.options = ev, options
        self.vals, self.fills, self.alloc = dict(options), [], {}
        self.bad = None

    def run(self, lines):
        stack = []        # [active, one arm was taken, enclosing active]
        for rec in lines:
            kind, text, node = rec[0], rec[-2], rec[-1]
            for line in text.split("\n"):
                line = line.split("!")[0].strip() if "'" not in line else line.strip()
                active = all(x[0] for x in stack)
                m = re.match(r"^(?:\x03\d+\x04)?\s*(else\s*)?if\s*\((.*)\)\s*then$", line, re.I | re.S)
                if m and not (m.group(1) and not stack):
                    outer = all(x[0] for x in stack[:-1]) if m.group(1) else active
                    if m.group(1):
                        top = stack[-1]
                        yes = outer and not top[1] and self.cond(m.group(2))
                        top[0], top[1] = yes, top[1] or yes
                    else:
                        yes = active and self.cond(m.group(2))
                        stack.append([yes, yes])
                elif m:
                    stack.append([True, True])
                elif re.match(r"else$", line, re.I):
                    if stack:
                        stack[-1][0] = all(x[0] for x in stack[:-1]) and not stack[-1][1]
                elif re.match(r"end\s*if$", line, re.I):
                    if stack:
                        stack.pop()
                elif active:
                    self.line(kind, line, rec[1] if kind == 'each' else None, node)
        return self

    def cond(self, text):
        low = text.lower().replace(".and.", " and ").replace(".or.", " or ").replace(".not.", " not ").replace(".true.", "True").replace(".false.", "False")
        try:
            tree = ast.parse(low.strip(), mode='eval').body
        except SyntaxError:
            return True
        return self.logical(tree)

    def logical(self, n):
        if isinstance(n, ast.BoolOp):
            got = [self.logical(v) for v in n.values]
            return all(got) if isinstance(n.op, ast.And) else any(got)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return not self.logical(n.operand)
        if isinstance(n, ast.Constant):
            return bool(n.value)
        if isinstance(n, ast.Name):
            if self.vals.get(n.id) is None:
                raise Undecided("the value of %s" % n.id)
            return self.vals[n.id]
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'present':
            return self.options.get(n.args[0].id) is not None
        if isinstance(n, ast.Compare) and 'suite_name' in ast.unparse(n):
            return True
        raise Undecided("the condition %s" % ast.unparse(n))

    def number(self, text):
        src = MARK.sub(lambda m: " m_%s " % m.group(1), text)
        try:
            tree = ast.parse(src.strip(), mode='eval').body
        except SyntaxError:
            raise Undecided("the number %s" % src)

        def go(n):
            if isinstance(n, ast.Constant):
                return Lin(n.value)
            if isinstance(n, ast.Name):
                v = self.ev.table[int(n.id[2:])] if n.id.startswith("m_") else self.vals.get(n.id)
                if isinstance(v, Lin):
                    return v
                if isinstance(v, int):
                    return Lin(v)
            if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
                return go(n.left).plus(go(n.right), 1 if isinstance(n.op, ast.Add) else -1)
            raise Undecided("the number %s" % src)
        return go(tree)

    def line(self, kind, line, mask, node):
        m = re.match(r"allocate\s*\(\s*(\w+)\s*\((.*)\)\s*\)$", line, re.I)
        if m:
            self.alloc[m.group(1)] = (self.number(m.group(2)), node)
            return
        m = re.match(r"(\w+)\s*\((.*)\)\s*=\s*'(.*)'$", line)
        if m:
            if mask is None or not MARK.fullmatch(m.group(3)) or not isinstance(self.ev.table[int(MARK.fullmatch(m.group(3)).group(1))], Elem):
                raise Undecided("an element")
            at = self.number(m.group(2))
            if at.i != 1:
                self.fills.append((m.group(1), None, mask, node))
            else:
                self.fills.append((m.group(1), Lin(at.const, at.parts, 0), mask, node))
            return
        m = re.match(r"(\w+)\s*=\s*(.*)$", line)
        if m:
            val = m.group(2).strip()
            if re.match(r"\.(true|false)\.$", val, re.I):
                self.vals[m.group(1)] = val.lower() == '.true.'
            elif re.match(r"[a-z]\w*$", val, re.I) and isinstance(self.vals.get(val), bool):
                self.vals[m.group(1)] = self.vals[val]
            elif not val.startswith(("'", '"')):
                self.vals[m.group(1)] = self.number(val)


def judge(prog, name, want, empty, report):
    """WANT: the regions the list should hold, or None for whatever it is filled with."""
    fills = [f for f in prog.fills if f[0] == name and f[2] & ~empty]
    got = 0
    for f in fills:
        if f[1] is None:
            return report("placed", f[3], "several elements are placed at the same position")
        if got & f[2] & ~empty:
            return report("content", f[3], "an element is listed twice")
        got |= f[2]
    if want is not None and (got ^ want) & ~empty:
        node = fills[-1][3] if fills else prog.alloc.get(name, (None, None))[1]
        return report("content", node, "elements are missing" if want & ~got & ~empty else "elements are listed that do not belong there")
    total = size((got if want is None else want) & ~empty)
    if name not in prog.alloc:
        return report("allocated", fills[0][3] if fills else None, "the list is not allocated")
    if prog.alloc[name][0].under(empty) != total.under(empty):
        return report("allocated", prog.alloc[name][1], "the list is not allocated with the number of its elements")
    pos, left = Lin(1), list(fills)
    while left:
        here = [f for f in left if f[1].under(empty) == pos.under(empty)]
        if not here:
            return report("placed", left[0][3], "the elements do not follow the ones before")
        pos = pos.plus(size(here[0][2] & ~empty))
        left.remove(here[0])
    return None


def check(ctx, project):
    for name, text in RULES.items():
        ctx.rule(name, text)
    undecided = runs = 0
    for fi in c30.concerned(project, "ccpp_suite"):
        if fi.cls is None or not fi.name.startswith("write"):
            continue
        roles = {}
        ev = Lists(project, fi, room=9)
        table = []
        bad = {}
        found = False

        def report(kind, node, what):
            bad.setdefault((kind, getattr(node, 'lineno', 0), what), node)

        def filing(main, loop, found, names):
            if roles.get('done') or not any(isinstance(n, ast.Attribute) and n.attr == 'intrinsic_elements' or isinstance(n, ast.Constant) and n.value == 'intent' for n in ast.walk(loop)):
                return
            roles['done'] = True
            labels = {k: v[0] for k, v in found.items()}
            roles['node'] = loop
            for intent, elements, log, facts in filed(main, loop, found, names):
                table.append((intent, elements, [(labels.get(i, "?"), what) for i, what in log], facts))
            given = roles_of(table, report, roles)
            ev.pairs = [(a, b) for i in ('in', 'inout', 'out') for a in sorted(given.get((i, 'array'), ())) for b in sorted(given.get((i, 'elem'), ()))]
        ev.filing = filing
        try:
            for _ in ev.paths(fi.node.body, {}):
                if not any(r[0] == 'each' for r in ev.lines):
                    continue
                found = True
                given = roles_of(table, report, roles) if table else None
                combos = itertools.product((None, True, False), repeat=3) if table else [(None, None, None)]
                for combo in combos:
                    prog = Program(ev, dict(zip(OPTIONS, combo))).run(ev.lines)
                    runs += 1
                    for name in sorted({f[0] for f in prog.fills} | set(prog.alloc)):
                        want = None
                        if given is not None:
                            want = expected(ev, given, *[c is not False for c in combo])
                        judge(prog, name, want, ev.empty, report)
                if len(bad) > 20:
                    break
        except Undecided as why:
            if bad or found or ev.lines and any(r[0] == 'each' for r in ev.lines):
                ctx.count("undecided: %s: %s" % (fi.name, why), 1)
            undecided += 1
            if not bad:
                continue
        if not found:
            continue
        ctx.saw(fi)
        for (kind, _, what), node in bad.items():
            ctx.bad(kind, fi.where(node), what)
        for kind in RULES:
            if kind not in [k for k, _, _ in bad]:
                ctx.ok(kind, fi.ident)
    ctx.count("evaluations of generated routines", runs)


def roles_of(table, report, roles):
    """{(intent, kind): {sets}} from what the paths through the filing loop do."""
    if 'given' in roles:
        return roles['given']
    given, of = {}, {}
    node = roles['node']
    for intent, elements, log, facts in table:
        for label, what in log:
            kind = 'elem' if 'intrinsic_elements' in what else 'leaf' if elements is False else 'array' if elements else None
            if 'standard_name' not in what and kind != 'elem' or intent is None or kind is None:
                report("sorted", node, "what is put into %s is not filed by its intent and its elements" % label)
                continue
            of.setdefault(label, set()).add((intent, kind))
            given.setdefault((intent, kind), set()).add(label)
        other = [k for k, yes in facts.items() if k[0] == 'true' and yes]
        if intent in ('in', 'inout', 'out') and not other:
            kinds = {'elem' if 'intrinsic_elements' in what else 'name' for _, what in log}
            if elements is not None and kinds != ({'elem', 'name'} if elements else {'name'}) or elements is None:
                report("sorted", node, "a variable with intent %s is not listed%s" % (intent, " by its elements" if elements else ""))
        if intent == 'in' and log and any('protected' in k[1] for k in other):
            report("sorted", node, "a protected variable is an input")
    for label, what in of.items():
        if len(what) > 1:
            report("sorted", node, "%s holds variables of different kinds: %s" % (label, sorted(what)))
    roles['given'] = given
    return given


def expected(ev, given, inputs, outputs, struct):
    want = 0
    for (intent, kind), labels in given.items():
        if (intent in ('in', 'inout') and inputs or intent in ('out', 'inout') and outputs) and (kind == 'leaf' or kind == ('elem' if struct else 'array')):
            for label in labels:
                want |= ev.base.mask(label)
    return want
