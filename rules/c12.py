"""C12: the blocks of generated Fortran are closed where they are opened."""
import ast
import re

from sa.textflow import Flow, Client, State, plain, LIST
from sa.project import AnalysisBroken

RULES = {
    "balance": "on every path through a generating function the blocks (module, subroutine, if, do, ...) it opens and closes nest",
    "same": "every path through a generating function leaves the same blocks open",
    "loop": "an iteration of a loop that writes text closes the blocks it opens",
    "frame": "what the writer of a Fortran file opens when it is entered it closes when it is left",
    "closed": "a function that hands a file back, or whose callers expect nothing, leaves no block open",
}
CLOSERS = "if|do|subroutine|function|module|interface|select|associate|type|program|where|block"
HOLE = "\0"
OPENERS = {"if": "if (x) then", "if/else": "if (x) then\nelse", "do": "do i = 1, n", "select": "select case (x)", "associate": "associate (x)", "interface": "interface", "function": "function x()"}
BLOCK = re.compile(r"\b(if|then|do|else\w*|end\w*|select|case|module|subroutine|function|interface|type|associate|program|where)\b", re.I)
WORDS = re.compile(r"\b(if|then|do|else\w*|end\w*|select|case|default|module|subroutine|function|interface|type|associate|program|where|block)\b|[&!'\"#:]", re.I)


def strip_comment(line):
    quote = None
    for i, c in enumerate(line):
        if quote:
            quote = None if c == quote else quote
        elif c in "'\"":
            quote = c
        elif c == '!':
            return line[:i]
    return line


def tokens(text):
    """[('open'|'close'|'mid'|'start', kind)] of the lines of TEXT."""
    out = []
    buf = ""
    for line in text.split("\n"):
        if line.lstrip().startswith("#"):
            continue
        line = strip_comment(line).strip().lower()
        if buf:
            line = buf + line.lstrip("&")
            buf = ""
        if line.endswith("&"):
            buf = line[:-1]
            continue
        got = classify(line)
        if got:
            out.append(got)
    if buf:
        got = classify(buf)
        if got:
            out.append(got)
    return out


def classify(line):
    if not line:
        return None
    m = re.match(r"end\s*(%s)\b" % CLOSERS, line)
    if m:
        return ('close', m.group(1))
    if re.match(r"else\s*$", line):
        return ('last', 'if')
    if re.match(r"else\s*if\b", line):
        return ('mid', 'if')
    if re.match(r"case\s*(\(|default)", line):
        return ('mid', 'select')
    if re.match(r"(\w+\s*:\s*)?if\s*(\(.*\)|" + HOLE + r")\s*then\s*$", line):
        return ('open', 'if')
    if re.match(HOLE + r"\s*if\s*\(.*\)\s*then\s*$", line):
        return ('start', 'if')
    if re.match(r"(\w+\s*:\s*)?do\b\s*($|while\b|[\w" + HOLE + r"]+\s*=)", line):
        return ('open', 'do')
    if re.match(r"select\s*(case|type)\b", line):
        return ('open', 'select')
    if re.match(r"associate\s*\(", line):
        return ('open', 'associate')
    if re.match(r"(abstract\s+)?interface\b(?!\s*::)", line):
        return ('open', 'interface')
    if re.match(r"type\s*(,[^:(]*(\([^)]*\))?[^:(]*)?(::)?\s*[\w" + HOLE + r"]+\s*$", line) and not line.startswith("type("):
        return ('open', 'type')
    if re.match(r"((pure|elemental|recursive|impure)\s+)*subroutine\s", line):
        return ('open', 'subroutine')
    if re.match(r"[\w\s(),=*" + HOLE + r"]*\bfunction\s+[\w" + HOLE + r"]+\s*\(", line) and not line.startswith(("call ", "if")):
        return ('open', 'function')
    if re.match(r"module\s+(?!procedure)[\w" + HOLE + r"]+\s*$", line):
        return ('open', 'module')
    return None


def short(line):
    """A line without block words, shortened."""
    if BLOCK.search(plain(line)) or len(line) < 2:
        return line
    if line.lstrip().startswith("#"):
        return "#"
    code = strip_comment(line)
    out = (" " if line[0] == " " else "") + ("\0x\1" if code.strip(" &") else "") + (" " if line[-1] == " " and line.strip() else "")
    return out + (" &" if code.rstrip().endswith("&") else "") + ("!" if code != line else "")


class Outline(Client):
    """data: the open blocks, outermost first; "-x" closes a block that the caller opened."""
    def __init__(self, named=None, names=()):
        self.named, self.names = named or {}, names
        self.bad, self.seen, self.used = {}, 0, set()
        self.at = None

    def fresh(self):
        return Outline(self.named, self.names)

    def notices(self, name):
        return name == 'CodeBlock' or name in self.names

    def blank(self):
        return ()

    def flag(self, kind, what, node):
        self.bad.setdefault((kind, what), node)

    def push(self, stack, tok, node):
        what, kind = tok
        top = stack[-1] if stack else None
        base = None if top is None else top.split("/")[0]
        if what == 'start':
            what = 'mid' if base == kind else 'open'
        if what == 'open':
            if len(stack) > 12:
                self.flag("loop", "%s is opened again and again" % kind, node)
                return stack
            return stack + (kind,)
        if what in ('mid', 'last'):
            if top is None or top[0] == '-':
                stack = stack + ('-' + kind, kind)
            elif base != kind:
                self.flag("balance", "%s is continued inside of %s" % (kind, base), node)
                return stack
            elif top != kind:
                self.flag("balance", "an else follows the last else of %s" % kind, node)
            return stack[:-1] + (kind + ("/else" if what == 'last' else ""),)
        if len(stack) > 12:
            self.flag("loop", "%s is closed again and again" % kind, node)
            return stack
        if top is not None and top[0] != '-':
            if base != kind:
                self.flag("balance", "%s is closed where %s is open" % (kind, base), node)
            return stack[:-1]
        return stack + ('-' + kind,)

    def replay(self, stack, other, node):
        """The blocks after another function's text."""
        for x in other:
            kind = x.lstrip("-").split("/")[0]
            stack = self.push(stack, ('close' if x[0] == '-' else 'open', kind), node)
            if x.endswith("/else"):
                stack = self.push(stack, ('last', kind), node)
        return stack

    def call(self, flow, st, name, node):
        if name == 'CodeBlock' and node.args:
            for _, t in flow.text(node.args[0], st):
                if t is not None and t.startswith(LIST):
                    stack = ()
                    for tok in tokens(plain(t[1:])):
                        self.seen += 1
                        stack = self.push(stack, tok, node)
                    if stack:
                        self.flag("closed", "a code block leaves %s" % words(stack), node)
            return None
        target, args = flow.target(node, st)
        if target is None and isinstance(node.func, ast.Attribute) and name != 'write':
            target, args = self.named.get(name), {}
        if target is None or not writes(target):
            return None
        sub = flow.sub(target, args)
        if sub is None:
            return None
        self.used.add(target.ident)
        ends = {e.data for e, _, _ in sub.ends}
        if ends == {()} or not ends:
            return None
        return [st.with_data(self.replay(st.data, x, node)) for x in sorted(ends)]

    def write(self, flow, st, text, node):
        stack = st.data
        for tok in tokens(plain(text)):
            self.seen += 1
            stack = self.push(stack, tok, node)
        return [st.with_data(stack)]

    def matters(self, text):
        return bool(BLOCK.search(text)) or text.rstrip().endswith("&")

    def neutral(self, text):
        return not WORDS.search(plain(text)) or text == "!\n"

    def norm(self, text):
        if "{" in text:
            return text
        if "!" not in text:
            text = re.sub(r"&[ \t]*\n[ \t]*&?", " ", text)
        lines = text.split("\n")
        last = short(lines[-1])
        if len(lines) == 1:
            return last
        head, body = lines[0], lines[1:-1]
        head = "!" if head.lstrip().startswith("!") else short(head)
        if (body or [head])[-1].rstrip().endswith("&") or head.rstrip().endswith("&"):
            return text
        stack = ()
        for tok in tokens(plain("\n".join(body))):
            stack = self.push(stack, tok, self.at)
        return head + "\n" + "".join(("end " + x[1:] if x[0] == "-" else OPENERS.get(x, x + " x")) + "\n" for x in stack) + last

    def summary(self, text):
        return self.norm(text)

    def unsettled(self, flow, node, states):
        deep = max(states, key=lambda x: len(x.data) + sum(len(v) for v in x.env.values() if isinstance(v, str)))
        self.flag("loop", "every iteration leaves more blocks open or closed (%s)" % (words(deep.data) if deep.data else "in a text it collects"), node)
        return True

    def iteration(self, flow, st, node):
        return st

    def leave(self, flow, node, states):
        # text that has to start in the first iteration needs one
        def left(st):
            return (st.data, frozenset((n, self.net(v)) for n, v in st.env.items() if isinstance(v, str) and "\n" in v and self.net(v)))
        no = {left(x) for x, ran in states if not ran}
        rest = [x for x, ran in states if ran and left(x) not in no]
        return rest or [x for x, _ in states]

    def net(self, text):
        saved, stack = dict(self.bad), ()
        for tok in tokens(plain(text.lstrip(LIST))):
            stack = self.push(stack, tok, None)
        self.bad = saved
        return stack


def words(stack):
    opened, closed = [x.split("/")[0] for x in stack if x[0] != "-"], [x[1:] for x in stack if x[0] == "-"]
    return " and ".join(([", ".join(opened) + " open"] if opened else []) + (["the end of a foreign " + ", ".join(closed)] if closed else []))


def writes(fi):
    return any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'write' and n.args for n in ast.walk(fi.node)) \
        or any(isinstance(a, ast.arg) and a.arg in ('ofile', 'outfile', 'cap', 'fh') for a in ast.walk(fi.node))


# what writes other things than Fortran
OTHER = ("mkdoc", "metadata2html", "ccpp_datafile", "ccpp_fortran_to_metadata", "ccpp_track_variables")


def check(ctx, project):
    for name, text in RULES.items():
        ctx.rule(name, text)
    funcs = [fi for name in sorted(project.modules) if name not in OTHER for fi in project.mod(name).all_funcs()]
    by_name = {}
    for fi in funcs:
        by_name.setdefault(fi.name, []).append(fi)
    named = {n: fs[0] for n, fs in by_name.items() if len(fs) == 1 and writes(fs[0])}
    names = {fi.name for fi in funcs if writes(fi)}
    cache, found, used, tokens_seen = {}, {}, set(), 0
    for fi in funcs:
        if not writes(fi) and not any(isinstance(n, ast.Name) and n.id == 'CodeBlock' for n in ast.walk(fi.node)):
            continue
        rule = Outline(named, names)
        flow = Flow(project, fi, rule, cache)
        try:
            flow.run(data=())
        except OverflowError as err:
            if not rule.bad:
                raise AnalysisBroken(str(err))
        ctx.saw(fi)
        used |= rule.used
        tokens_seen += rule.seen
        for (kind, what), node in rule.bad.items():
            ctx.bad(kind, fi.where(node), what)
        found[fi.ident] = (fi, {}, rule)
        for st, _, node in flow.ends:
            found[fi.ident][1].setdefault(st.data, node)
        ctx.count("statements", flow.steps)
    enter = {}
    for ident, (fi, stacks, rule) in sorted(found.items()):
        if rule.bad:
            continue
        if len(stacks) > 1:
            ctx.bad("same", fi.where(sorted(stacks.items(), key=lambda x: len(x[0]))[-1][1]),
                    "one path leaves %s, another %s" % tuple([words(x) or "every block closed" for x in sorted(stacks, key=len)][::-1][:2]))
            continue
        stack = next(iter(stacks), ())
        if fi.name in ('__enter__', '__exit__') and fi.cls is not None:
            enter.setdefault(fi.cls.name, {})[fi.name] = (fi, stack)
        elif stack and ident not in used:
            ctx.bad("closed", fi.where(), "%s is left" % words(stack))
        else:
            ctx.ok("closed", ident)
    for name, pair in sorted(enter.items()):
        if len(pair) == 2:
            (a, first), (b, last) = pair['__enter__'], pair['__exit__']
            rule = Outline()
            stack = rule.replay(first, last, b.node)
            ctx.check(not stack and not rule.bad, "frame", b.where(), "%s: what __enter__ opens is not what __exit__ closes (%s | %s)" % (name, words(first), words(last)))
    for cls in [c for name in sorted(project.modules) if name not in OTHER for c in project.mod(name).classes.values()]:
        for cname, val in cls.consts.items():
            if isinstance(val, ast.Call) and isinstance(val.func, ast.Name) and val.func.id == 'CodeBlock' and val.args and cls.methods:
                fi = next(iter(cls.methods.values()))
                rule = Outline()
                rule.call(Flow(project, fi, rule, {}), State(), 'CodeBlock', val)
                tokens_seen += rule.seen
                for (kind, what), node in rule.bad.items():
                    ctx.bad(kind, "%s:%d" % (cls.module.rel, val.lineno), "%s.%s: %s" % (cls.name, cname, what))
    ctx.count("block statements", tokens_seen)
    if tokens_seen < 150:
        raise AnalysisBroken("only %d block statements were found in the generators" % tokens_seen)
    ctx.at_least("closed", 15)
    ctx.at_least("frame", 1)
