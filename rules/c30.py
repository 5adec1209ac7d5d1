"""C30: generated dispatchers run what is asked for and reject what does not exist.

The text of a generating function is reduced to the chains that compare a selector (suite_name, suite_part, group_name) with a
name, what the arms of a chain call, and what the errors are set to. What a hole of the text stands for is judged by the loops
of the generator it depends on."""
import ast
import re

from sa.reach import Reach
from sa.textflow import Flow
from sa.tokens import Tokens, NAME, HOLE, speaks
from sa.project import AnalysisBroken
from rules.c12 import OTHER

RULES = {
    "reject": "the chain that selects by a name has a last else that sets the error code to nonzero and a message and calls nothing",
    "same": "the arm of a name calls the routine, or gives the answer, of the very thing it was compared with",
    "answers": "every arm of a chain calls or answers something",
    "stage": "the routines called are those of the phase of the routine that calls them",
    "clear": "the error code is set to zero before the first chain of a routine",
    "listed": "the parts a suite lists are those, under the names, that the run phase accepts",
}
SELECT = ("suite_name", "suite_part", "group_name")
TEST = re.compile(r"^(%s\s*|else\s*)?if\s*\((.*(?:%s).*(?:==|\.eq\.).*)\)\s*then$" % (HOLE, "|".join(SELECT)), re.I)
NIL = ('V', (), (), 0, 0, 0, 0, 0)


class Deps(Reach):
    """What the names of a function are made from."""
    cache = {}

    def __init__(self, fi):
        self.values = {}
        super().__init__(fi)
        for (name, _, _, _), d in self.defs.items():
            self.values.setdefault(name, []).append(d.value)

    @classmethod
    def of(cls, fi):
        if fi.node not in cls.cache:
            cls.cache[fi.node] = cls(fi)
        return cls.cache[fi.node]

    def words(self, name):
        """The text of what a name was assigned."""
        return name + " " + " ".join(ast.unparse(v) for v in self.values.get(name, ()))


def names(text):
    """The identifiers in the holes of TEXT that are not attributes or keywords."""
    out = set()
    for h in re.findall(HOLE, text):
        out |= set(re.findall(r"(?<![\w.'\"])[A-Za-z_]\w*", re.sub(r"'[^']*'|\"[^\"]*\"", "", h[1:-1])))
    return out


def union(*parts):
    return tuple(sorted({x for p in parts for x in p}))


class Dispatch(Tokens):
    """Tokens: ('T', selector, what the test depends on) 'else if' as ('EI', ...), ('IF',), ('ELIF',), ('EL',), ('END',), ('SUB',
    what its name depends on), ('ENDSUB',) and ('V', calls, answers, error set, message set, cleared, chain not cleared, holds a chain)."""
    words = re.compile(r"@|\b(if|then|else\w*|end\w*|call|return|subroutine|function|write)\b|err|\bflg|_cap\(|%s" % "|".join(SELECT), re.I)

    def __init__(self):
        super().__init__()
        self.chains = self.arms = 0
        self.parts = {}

    # ---------------------------------------------------------------- reading
    def deps(self):
        return Deps.of(self.flow.fi)

    def kind_of(self, name):
        """Is a variable of the text an error code (c) or message (m)?"""
        words = re.sub(HOLE, lambda m: m.group(0)[1:-1] + " " + " ".join(self.deps().words(n) for n in names(m.group(0))), name).lower()
        msg, code = re.search(r"msg|message", words), re.search(r"err(or)?_?(code|flg|flag)|errflg|ierr|_code\b|errcode", words)
        return ("c" if code else "") + ("m" if msg else "")

    def read(self, line):
        m = TEST.match(line)
        if m:
            start, cond = (m.group(1) or "").strip().lower(), m.group(2)
            sel = next(s for s in SELECT if s in cond)
            rest = re.split(r"==|\.eq\.", cond)[1] if "\0" in re.split(r"==|\.eq\.", cond)[1] else cond
            if "\0" not in rest:
                return [('IF',)]
            if sel == 'suite_part':
                for h in re.findall(HOLE, rest):
                    self.parts.setdefault(canonical(self.deps(), h[1:-1]), self.at)
            kind = 'EI' if start.startswith("else") else 'AI' if start else 'T'
            return [(kind, sel, self.deps().closure(names(rest), self.at, True))]
        if re.match(r"(%s\s*)?if\s*\(.*\)\s*then$" % HOLE, line, re.I | re.S):
            return [('IF',)]
        if re.match(r"else\s*if\b", line, re.I):
            return [('ELIF',)]
        if re.match(r"else$", line, re.I):
            return [('EL',)]
        if re.match(r"end\s*if\b", line, re.I):
            return [('END',)]
        m = re.match(r"(?:(?:pure|elemental|recursive)\s+)*(?:subroutine|function)\s+(.*?)\(", line, re.I)
        if m:
            return [('SUB', self.deps().closure(names(m.group(1)), self.at, True))]
        if re.match(r"end\s*(subroutine|function)\b", line, re.I):
            return [('ENDSUB',)]
        m = re.match(r"(?:call\s+|%s\s*=\s*)((?:%s|\w)*?)\((.*)\)$" % (NAME, HOLE), line, re.I | re.S)
        if m and (line.lower().startswith("call") or "_cap(" in line):
            return [('V', (self.deps().closure(names(m.group(1)), self.at),), (), 0, 0, 0, 0, 0)] if "\0" in m.group(1) else []
        m = re.match(r"write\s*\(\s*(%s)" % NAME, line, re.I)
        if m:
            return [('V', (), (), 0, 1, 0, 0, 0)] if "m" in self.kind_of(m.group(1)) else []
        m = re.match(r"(%s)\s*=\s*(.*)$" % NAME, line, re.S)
        if m:
            kind, val = self.kind_of(m.group(1)), m.group(2).strip()
            if "c" in kind and re.match(r"[-+]?\d+$", val):
                return [('V', (), (), 0, 0, 1, 0, 0)] if int(val) == 0 else [('V', (), (), 1, 0, 0, 0, 0)]
            if "m" in kind and val not in ("''", '""'):
                return [('V', (), (), 0, 1, 0, 0, 0)]
        return []

    # ---------------------------------------------------------------- tokens of other functions
    def renamed(self, flow, target, call):
        """{parameter: what the argument depends on here}."""
        deps = Deps.of(flow.fi)
        skip = 1 if target.params[:1] in (['self'], ['cls']) and isinstance(call.func, ast.Attribute) and not target.is_static else 0
        out = {}
        for n, a in list(zip(target.params[skip:], call.args)) + [(k.arg, k.value) for k in call.keywords if k.arg]:
            out[n] = {x.id for x in ast.walk(a) if isinstance(x, ast.Name)}
        return out, deps

    def translated(self, flow, target, call, tok):
        args, deps = self.renamed(flow, target, call)

        def go(dep, stop):
            got = set()
            for n in dep:
                got |= args.get(n, set())
            return deps.closure(got, self.at, stop)
        if tok[0] in ('T', 'EI', 'AI'):
            return tok[:2] + (go(tok[2], True),) + tuple(self.translated(flow, target, call, x) for x in tok[3:])
        if tok[0] == 'SUB':
            return ('SUB', go(tok[1], True))
        if tok[0] == 'V':
            return ('V', tuple(go(c, False) for c in tok[1]), tuple(go(c, False) for c in tok[2])) + tok[3:]
        if tok[0] in ('IF', 'EL', 'ELIF'):
            return tok[:1] + tuple(self.translated(flow, target, call, x) if isinstance(x, tuple) else x for x in tok[1:])
        return tok

    def imported(self, flow, target, call, texts):
        args, deps = self.renamed(flow, target, call)
        shown = {n: a for n, a in list(zip(target.params[1 if target.params[:1] in (['self'], ['cls']) else 0:], call.args))}
        shown.update({k.arg: k.value for k in call.keywords if k.arg})

        def hole(m):
            return "\0" + re.sub(r"(?<![\w.'\"])[A-Za-z_]\w*", lambda w: ast.unparse(shown[w.group(0)]) if w.group(0) in shown else w.group(0), m.group(0)[1:-1]) + "\1"

        out = []
        for t in texts:
            lines = []
            for line in (t or "").split("\n"):
                if line.startswith("@"):
                    lines.append("@%r" % (self.translated(flow, target, call, eval(line[1:], {"__builtins__": {}})),))  # pylint: disable=eval-used
                else:
                    lines.append(re.sub(HOLE, hole, line))
            out.append(None if t is None else "\n".join(lines))
        return out

    def mute(self, flow, st, target, node):
        got = set()
        for a in list(node.args) + [k.value for k in node.keywords]:
            got |= {x.id for x in ast.walk(a) if isinstance(x, ast.Name)}
        dep = Deps.of(flow.fi).closure(got, self.at)
        return [st.with_data(self.add(st.data, ('V', (), (dep,), 0, 0, 0, 0, 0)))] if dep else None

    # ---------------------------------------------------------------- normal form
    @staticmethod
    def seq(a, b):
        return ('V', union(a[1], b[1]), union(a[2], b[2]), a[3] | b[3], a[4] | b[4], a[5] | b[5], int(a[6] or b[6] and not a[5]), a[7] | b[7])

    @staticmethod
    def alt(a, b):
        return ('V', union(a[1], b[1]), union(a[2], b[2]), 0, 0, a[5] & b[5], a[6] | b[6], a[7] | b[7])

    @staticmethod
    def open_at(toks):
        for i in range(len(toks) - 1, -1, -1):
            if toks[i][0] != 'V':
                return i
        return None

    def judge(self, head, body):
        """The arm of a test."""
        self.arms += 1
        if not head[2]:
            return
        need = set(head[2])
        for c in body[1]:
            if not need <= set(c):
                self.flag("same", "the arm for a %s calls a routine that does not depend on %s" % (head[1], ", ".join(sorted(need - set(c)))))
        if not body[1] and not any(need <= set(c) for c in body[2]):
            self.flag("answers", "the arm for a %s neither calls anything nor gives an answer that depends on %s" % (head[1], ", ".join(sorted(need))))

    def add(self, toks, tok):
        kind = tok[0]
        if kind == 'V':
            if tok == NIL:
                return toks
            if toks and toks[-1][0] == 'V':
                return toks[:-1] + (self.seq(toks[-1], tok),)
            return toks + (tok,)
        i = self.open_at(toks)
        head = toks[i] if i is not None else None
        body = toks[i + 1] if i is not None and i + 1 < len(toks) else NIL
        if kind == 'AI':
            kind = 'EI' if head is not None and head[0] in ('T', 'EI') and head[1] == tok[1] else 'T'
            tok = (kind,) + tok[1:]
        if kind == 'T':
            return toks + (tok[:3] + ((tok[3],) if len(tok) > 3 else (NIL,)),)
        if kind == 'IF':
            return toks + (tok if len(tok) > 1 else ('IF', None),)
        if kind in ('EI', 'ELIF', 'EL'):
            if head is None or head[0] not in ('T', 'EI', 'IF', 'ELIF'):
                return toks + (self.whole(tok),)
            if head[0] in ('T', 'EI'):
                self.judge(head, body)
                acc = self.alt(head[3], body) if head[3] != NIL else self.alt(body, body)
            else:
                acc = self.alt(head[1], body) if head[1] is not None else self.alt(body, body)
            if len(tok) > 1 and kind != 'EI':
                acc = self.alt(acc, tok[1]) if tok[1] is not None else acc
            if kind == 'EI':
                if head[0] in ('IF', 'ELIF'):
                    return toks[:i] + (('T' if head[0] == 'IF' else 'EI',) + tok[1:3] + (acc,),)
                return toks[:i] + ((head[0],) + tok[1:3] + (acc,),)
            if kind == 'EL':
                return toks[:i] + (('EL', acc, head[1] if head[0] in ('T', 'EI') else None, int(head[0] in ('EI', 'ELIF'))),)
            return toks[:i] + ((head[0],) + ((head[1], head[2]) if head[0] in ('T', 'EI') else ()) + (acc,),)
        if kind == 'END':
            if head is None or head[0] not in ('T', 'EI', 'IF', 'ELIF', 'EL'):
                return toks + (tok,)
            if head[0] in ('EI', 'ELIF') or head[0] == 'EL' and (len(head) < 4 or head[3]):
                return toks + (tok,)
            if head[0] == 'T':
                self.judge(head, body)
                self.flag("reject", "the chain on %s has no last else" % head[1])
                got = self.chain(self.alt(head[3], body))
            elif head[0] == 'EL':
                got = self.alt(head[1], body)
                if head[2]:
                    self.chains += 1
                    if body[1] or body[2]:
                        self.flag("reject", "an unknown %s calls something" % head[2])
                    if not body[3]:
                        self.flag("reject", "an unknown %s does not set the error code" % head[2])
                    if not body[4]:
                        self.flag("reject", "an unknown %s sets no error message" % head[2])
                    got = self.chain(got)
            else:
                got = self.alt(head[1] if head[1] is not None else body, body)
            return self.add(toks[:i], got)
        if kind == 'SUB':
            return toks + (tok,)
        if kind == 'ENDSUB':
            if head is None or head[0] != 'SUB':
                return toks + (tok,)
            if body[6]:
                self.flag("clear", "the error code is not cleared before the first chain")
            need = set(head[1]) & self.deps().targets
            if body[7]:
                for c in body[1]:
                    if not need <= set(c):
                        self.flag("stage", "a routine is called that does not depend on %s" % ", ".join(sorted(need - set(c))))
            return toks[:i]
        return toks + (tok,)

    @staticmethod
    def chain(v):
        return v[:6] + (1, 1)

    @staticmethod
    def whole(tok):
        if tok[0] == 'EI':
            return tok[:3] + ((tok[3],) if len(tok) > 3 else (NIL,))
        if tok[0] == 'EL':
            return tok if len(tok) > 3 else ('EL', NIL, None, 1)
        return tok if len(tok) > 1 else (tok[0], NIL)

    def shape(self, toks):
        return tuple(t[0] for t in toks if t[0] != 'V')


class Shape(ast.NodeTransformer):
    """An expression with local names that are assigned once replaced by what they are assigned."""
    def __init__(self, deps):
        self.deps, self.order, self.depth = deps, [], 0

    def visit_Name(self, node):
        vals = self.deps.values.get(node.id, [])
        if node.id not in self.deps.targets and len(vals) == 1 and self.depth < 5:
            self.depth += 1
            got = self.visit(ast.parse(ast.unparse(vals[0]), mode='eval').body)
            self.depth -= 1
            return got
        if node.id == 'len':
            return node
        if node.id not in self.order:
            self.order.append(node.id)
        return ast.Name("v%d" % self.order.index(node.id), ast.Load())


def canonical(deps, text):
    """An expression with its free names numbered."""
    try:
        return ast.unparse(Shape(deps).visit(ast.parse(text, mode='eval').body))
    except SyntaxError:
        return text


def gathered(fi):
    """[(element, conditions)] of the lists a function makes from the groups of something."""
    deps = Deps.of(fi)
    out = []

    def conds(tests):
        return tuple(sorted(canonical(deps, ast.unparse(t)) for t in tests))

    def walk(stmts, tests):
        for s in stmts:
            if isinstance(s, ast.If):
                walk(s.body, tests + [s.test])
                walk(s.orelse, tests + [ast.UnaryOp(ast.Not(), s.test)])
            elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr == 'append':
                out.append((canonical(deps, ast.unparse(s.value.args[0])), conds(tests)))
    for n in ast.walk(fi.node):
        if isinstance(n, ast.For) and isinstance(n.iter, ast.Attribute) and n.iter.attr == 'groups':
            walk(n.body, [])
        if isinstance(n, (ast.ListComp, ast.GeneratorExp)) and len(n.generators) == 1 and isinstance(n.generators[0].iter, ast.Attribute) \
                and n.generators[0].iter.attr == 'groups':
            out.append((canonical(deps, ast.unparse(n.elt)), conds(n.generators[0].ifs)))
    return out


def listed(ctx, project, accepted):
    """What Suite.part_list gives is what the host cap compares with."""
    suite = project.cls("ccpp_suite", "Suite")
    plist = project.find_method(suite, "part_list") if suite is not None else None
    if plist is None:
        return
    ctx.saw(plist)
    mine = gathered(plist)
    if len(mine) != 1 or len(accepted) != 1:
        return
    (text, at), = accepted.items()
    ctx.check(mine[0][0] == text, "listed", at, "the run phase accepts %s, the suite lists %s" % (text, mine[0][0]))
    for fi in project.mod("host_cap").all_funcs():
        if any(isinstance(n, ast.Return) and n.value is not None for n in ast.walk(fi.node)):
            for _, tests in gathered(fi):
                ctx.saw(fi)
                ctx.check(tests == mine[0][1], "listed", fi.where(), "the parts called are those with %s, the parts listed those with %s" % (tests, mine[0][1]))


def concerned(project, mod):
    """The functions of a module that write text with selectors, and those that call them."""
    funcs = [fi for fi in project.mod(mod).all_funcs()]
    chosen = {fi for fi in funcs if any(re.search("|".join(SELECT), c) for c in Flow(project, fi, Dispatch(), {}).strings(fi.node))}
    while True:
        called = {fi.name for fi in chosen} - {'write', '__init__'}
        more = {fi for fi in funcs if fi not in chosen and any(
            isinstance(n, ast.Call) and (n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, 'id', None)) in called for n in ast.walk(fi.node))}
        if not more:
            break
        chosen |= more
    return [fi for fi in funcs if fi in chosen and (speaks(fi) or any(isinstance(n, ast.Return) for n in ast.walk(fi.node)))]


def check(ctx, project):
    for name, text in RULES.items():
        ctx.rule(name, text)
    cache = {}
    total = arms = 0
    accepted = {}
    for mod in sorted(project.modules):
        if mod in OTHER:
            continue
        for fi in concerned(project, mod):
            rule = Dispatch()
            flow = Flow(project, fi, rule, cache)
            try:
                flow.run(data=())
            except OverflowError as err:
                if not rule.bad:
                    raise AnalysisBroken(str(err))
            for (kind, what), node in rule.bad.items():
                ctx.bad(kind, fi.where(node), what)
            for text, node in rule.parts.items():
                accepted.setdefault(text, fi.where(node))
            if rule.chains:
                total += 1
                arms += rule.arms
                ctx.saw(fi)
                if not rule.bad:
                    ctx.ok("reject", fi.ident)
                    ctx.ok("same", fi.ident)
    listed(ctx, project, accepted)
    ctx.count("dispatching functions", total)
    ctx.count("arms", arms)
    ctx.at_least("reject", 5)
