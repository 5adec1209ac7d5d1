"""Text flow clients that reduce the text written to a normal form of tokens, line by line."""
import ast
import re

from sa.textflow import Client, LIST, plain

HOLE = "\0[^\0\1]*\1"
NAME = r"(?:%s|[\w%%])+" % HOLE


def strip_comment(line):
    """A line without its comment."""
    quote = None
    for i, c in enumerate(line):
        if quote:
            if c == quote:
                quote = None
        elif c in "'\"":
            quote = c
        elif c == "!":
            return line[:i]
    return line


def logical_lines(text):
    buf = ""
    for line in text.split("\n"):
        if line.lstrip().startswith("#"):
            continue
        line = strip_comment(line).strip()
        if buf:
            line = buf + line.lstrip("&")
            buf = ""
        if line.endswith("&"):
            buf = line[:-1]
            continue
        yield line
    if buf:
        yield buf


class Tokens(Client):
    """data: the tokens of the text written so far, in normal form. WORDS finds the lines that matter, `read` gives the tokens of a
    line, `add` appends one to a normal form, `shape` gives the open ends of one."""
    words = re.compile("@")
    flow = None

    def __init__(self):
        self.bad, self.at = {}, None

    def fresh(self):
        return type(self)()

    def blank(self):
        return ()

    def flag(self, kind, what):
        self.bad.setdefault((kind, what), self.at)

    def read(self, line):
        return []

    def add(self, toks, tok):
        return toks + (tok,)

    def shape(self, toks):
        return toks

    def run(self, toks, text):
        for line in logical_lines(text):
            if not line:
                continue
            got = [eval(line[1:], {"__builtins__": {}})] if line.startswith("@") else self.read(line)  # pylint: disable=eval-used
            for tok in got:
                toks = self.add(toks, tok)
        return toks

    def write(self, flow, st, text, node):
        return [st.with_data(self.run(st.data, text))]

    def unknown_part(self, flow, st, node):
        """Something writes itself to the same file with a write method that is not known."""
        return None

    def translated(self, flow, target, call, tok):
        """A token of another function, in the terms of this one."""
        return tok

    def call(self, flow, st, name, node):
        if name == 'write' and len(node.args) >= 3:
            target, _ = flow.target(node, st)
            if target is None:
                return self.unknown_part(flow, st, node)
        target, args = flow.target(node, st)
        if target is None or not speaks(target):
            return None
        sub = flow.sub(target, args)
        if sub is None:
            return None
        for (kind, what), at in sub.client.bad.items():
            self.bad.setdefault((kind, what), at)
        ends = {e.data for e, _, _ in sub.ends}
        if ends == {()} or not ends:
            return self.mute(flow, st, target, node)
        out = []
        for x in sorted(ends, key=str):
            if x == ():
                out += self.mute(flow, st, target, node) or [st]
                continue
            toks = st.data
            for tok in x:
                toks = self.add(toks, self.translated(flow, target, node, tok))
            out.append(st.with_data(toks))
        return out

    def mute(self, flow, st, target, node):
        """A function that writes nothing that matters is called."""
        return None

    def matters(self, text):
        return bool(self.words.search(text)) or text.rstrip().endswith("&")

    def neutral(self, text):
        return not self.words.search(text) and not re.search("[&!'\"#]", plain(text))

    def short(self, line):
        """A line that does not matter, shortened."""
        if line.lstrip().startswith("#"):
            return "#"
        code = strip_comment(line)
        if self.words.search(code) or len(line) < 2:
            return line
        if code != line:
            return "!"
        code = code.strip()
        out = "\0x\1" if code.strip(" &") else ""
        if code.count(")") > code.count("("):
            out += ")"
        return out + (" " if out and line[-1] == " " else "") + (" &" if code.endswith("&") else "")

    def norm(self, text):
        if "{" in text:
            return text
        if "!" not in text:
            text = re.sub(r"&[ \t]*\n[ \t]*&?", " ", text)
        lines = text.split("\n")
        last = self.short(lines[-1])
        if len(lines) == 1:
            return last
        head, body = self.short(lines[0]), lines[1:-1]
        if (body or [head])[-1].rstrip().endswith("&") or head.rstrip().endswith("&"):
            return text
        toks = self.run((), "\n".join(body))
        return head + "\n" + "".join("@%r\n" % (t,) for t in toks) + last

    def summary(self, text):
        return self.norm(text)

    def leave(self, flow, node, states):
        # text that has to start in the first iteration needs one
        def left(st):
            return (self.shape(st.data), frozenset((n, self.net(v)) for n, v in st.env.items() if isinstance(v, str) and "\n" in v and self.net(v)))
        no = {left(x) for x, ran in states if not ran}
        rest = [x for x, ran in states if ran and left(x) not in no]
        return rest or [x for x, _ in states]

    def net(self, text):
        saved = dict(self.bad)
        toks = self.run((), text.lstrip(LIST))
        self.bad = saved
        return self.shape(toks)


def speaks(fi):
    """Does a function write text?"""
    return any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'write' and n.args for n in ast.walk(fi.node))
