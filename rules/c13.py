"""C13: after an error generated code calls nothing more and hands the error back.

The text a generating function writes is reduced, path by path, to what it does to the error state. A stretch of text is a
segment (needs, good, bad, by, set, told): does it need the error code to be zero, how is it left when it is entered without
(with a possible) error - 'k' no error, 'm' maybe one, 'd' returned -, which variables hold the error it may leave, does it set
the result of the function, and is that set wherever it returns."""
import re

from sa.textflow import Flow, Client, LIST, plain
from sa.project import AnalysisBroken
from rules.c12 import strip_comment, OTHER

RULES = {
    "guarded": "after a statement that can fail the error code is tested before the next one, on every path",
    "loop": "no iteration of a generated loop starts with an error pending from the one before",
    "reset": "the error code is not set to zero where it may hold an error",
    "result": "where a generated function returns because of an error its result is set",
    "parts": "what the parts of a suite write, in any order, calls nothing where an error is pending",
}
H = "\0[^\0\1]*\1"
NAME = r"(?:%s|[\w%%])+" % H
GUARD = re.compile(r"if\s*\(\s*(%s)\s*(==|/=|\.eq\.|\.ne\.)\s*0\s*\)\s*(then\b|return\b)" % NAME, re.I)
IDENT = ('S', 0, 'k', 'm', '', 0, 1)
WORDS = re.compile(r"@|\b(if|then|else\w*|end\w*|do|call|return|stat|subroutine|function)\b|err|\bflg|_cap\(", re.I)


def join(a, b):
    return a if b == 'd' else b if a == 'd' else 'm' if 'm' in (a, b) else 'k'


def by(*parts):
    return ",".join(sorted({x for p in parts for x in p.split(",") if x}))


class Reducer:
    def __init__(self, flag, result=None):
        self.flag, self.result = flag, result

    def seq(self, a, b):
        if a[2] == 'm' and b[1]:
            if b[1] == 2:
                self.flag("reset", "the error code is set to zero where it may hold an error")
            else:
                self.flag("guarded", "a call is made where an error may be pending")
        def go(x, key):
            return 'd' if x == 'd' else b[2] if x == 'k' else b[3]
        needs = a[1] or (b[1] if a[3] == 'm' else 0)
        good, bad = go(a[2], 0), go(a[3], 0)
        return ('S', needs, good, bad, by(a[4] if a[2] == 'm' and b[3] == 'm' else "", b[4]) if good == 'm' or bad == 'm' else "",
                int(a[5] or b[5]), int(a[6] and (b[6] or a[5])))

    def either(self, a, b):
        return ('S', max(a[1], b[1]), join(a[2], b[2]), join(a[3], b[3]), by(a[4], b[4]),
                int((a[5] or a[2] == 'd') and (b[5] or b[2] == 'd')), int(a[6] and b[6]))

    def guard(self, tok, yes, no):
        """if (E == 0) yes else no, for tok ('G=', E); ('G!', E) the other way round."""
        if tok[0] == 'G!':
            yes, no = no, yes
            self.told(tok, no)
        elif no is not IDENT:
            self.told(tok, no)
        if no[1] == 1:
            self.flag("guarded", "a call is made where the error code is not zero")
        return ('S', 0, yes[2], join(yes[2], no[3]), by(yes[4], no[4], "*" if 'm' in (yes[2], join(yes[2], no[3])) else ""),
                int(yes[5] and no[5]), int(yes[6] and no[6]))

    def told(self, tok, seg):
        if self.result and tok[1] != self.result and seg[3] == 'd' and not seg[6]:
            self.flag("result", "the function returns with an error but its result is not set to it")

    def add(self, toks, tok):
        """TOKS (a tuple in normal form) followed by TOK."""
        kind = tok[0]
        if kind == 'S':
            if tok == IDENT:
                return toks
            if toks and toks[-1][0] == 'S':
                got = self.seq(toks[-1], tok)
                return toks[:-1] + ((got,) if got != IDENT else ())
            return toks + (tok,)
        if kind in ('G=', 'G!'):
            prev = toks[-1] if toks and toks[-1][0] == 'S' else None
            if prev is not None and prev[2] == 'm' and not self.fits(tok[1], prev[4]):
                tok = ('IF', None)
        if kind == 'START':
            i = self.open_at(toks)
            kind = 'ELIF' if i is not None and toks[i][0] in ('IF', 'G=', 'G!') else 'IF'
            tok = (kind,)
        if kind == 'IF':
            return toks + (('IF', None),)
        if kind in ('ELIF', 'ELSE'):
            i = self.open_at(toks)
            if i is None or toks[i][0] not in ('IF', 'G=', 'G!'):
                return toks if i is not None and toks[i] == (kind,) and len(toks) == i + 1 else toks + ((kind,),)
            body = toks[i + 1] if i + 1 < len(toks) else IDENT
            if kind == 'ELSE' and toks[i][0] != 'IF':
                return toks[:i] + (('ELSE', body) + toks[i],)
            arm = body if toks[i][0] != 'IF' or toks[i][1] is None else self.either(toks[i][1], body)
            return toks[:i] + ((kind if kind == 'ELSE' else 'IF', arm),)
        if kind in ('END', 'ENDDO', 'ENDSUB'):
            return self.close(toks, kind)
        return toks + (tok,)

    @staticmethod
    def fits(var, holders):
        """Can VAR hold the error left by something whose error is in HOLDERS?"""
        parts = holders.split(",")
        if not parts or holders == "" or "*" in parts:
            return True
        if "\0" in var:
            return "?" in parts
        return var in parts

    @staticmethod
    def open_at(toks):
        for i in range(len(toks) - 1, -1, -1):
            if toks[i][0] != 'S':
                return i
        return None

    def close(self, toks, kind):
        want = {'END': ('IF', 'G=', 'G!', 'ELSE'), 'ENDDO': ('DO',), 'ENDSUB': ('SUB',)}[kind]
        i = self.open_at(toks)
        if i is None or toks[i][0] not in want:
            return toks + ((kind,),)
        head = toks[i]
        body = toks[i + 1] if i + 1 < len(toks) else IDENT
        if kind == 'ENDSUB':
            return toks[:i]
        if kind == 'ENDDO':
            if body[1] and body[2] == 'm':
                self.flag("loop", "the next iteration of a generated loop starts with an error pending")
            return self.add(toks[:i], ('S', body[1], join('k', body[2]), join('m', body[3]), body[4], 0, body[6]))
        if head[0] == 'IF':
            seg = self.either(body if head[1] is None else self.either(head[1], body), IDENT)
        elif head[0] == 'ELSE':
            if len(head) == 1:
                return toks + ((kind,),)
            seg = self.guard(head[2:], head[1], body) if len(head) > 2 else self.either(head[1], body)
        else:
            seg = self.guard(head, body, IDENT)
        return self.add(toks[:i], seg)


def logical_lines(text):
    buf = ""
    for line in text.split("\n"):
        if line.lstrip().startswith("#"):
            continue
        line = strip_comment(line).strip()
        if buf:
            line = buf + line.lstrip("&")
            buf = ""
        if line.endswith("&"):
            buf = line[:-1]
            continue
        yield line
    if buf:
        yield buf


def is_error(name):
    return re.search(r"err|flg", name, re.I) is not None


def read(line, result):
    """The tokens of a statement."""
    if not line:
        return []
    if line.startswith("@"):
        return [eval(line[1:], {"__builtins__": {}})]  # pylint: disable=eval-used
    low = re.sub(H, lambda m: m.group(0), line)
    m = GUARD.match(low)
    if m:
        tok = ('G=' if m.group(2).lower() in ('==', '.eq.') else 'G!', m.group(1))
        return [tok] if m.group(3).lower() == 'then' else [tok, ('S', 0, 'd', 'd', '', 0, 0), ('END',)]
    if re.match(r"(\w+\s*:\s*)?if\s*(\(.*\)|%s)\s*then\s*$" % H, low, re.I):
        return [('IF',)]
    if re.match(H + r"\s*if\s*\(.*\)\s*then\s*$", low, re.I):
        return [('START',)]
    if re.match(r"else\s*if\b", low, re.I):
        return [('ELIF',)]
    if re.match(r"else\s*$", low, re.I):
        return [('ELSE',)]
    if re.match(r"end\s*if\b", low, re.I):
        return [('END',)]
    if re.match(r"end\s*do\b", low, re.I):
        return [('ENDDO',)]
    if re.match(r"end\s*(subroutine|function)\b", low, re.I):
        return [('ENDSUB',)]
    if re.match(r"do\b\s*($|while\b|(%s)\s*=)" % NAME, low, re.I):
        return [('DO',)]
    if re.match(r"((pure|elemental|recursive)\s+)*subroutine\s", low, re.I) or \
            re.match(r"[\w\s(),=*]*\bfunction\s+(%s)\s*\(" % NAME, low, re.I):
        return [('SUB',)]
    m = re.match(r"if\s*\((.*)\)\s*(return\b|exit\b)", low, re.I)
    if m:
        return [('IF',), ('S', 0, 'd', 'd', '', 0, 0), ('END',)] if m.group(2).lower() == 'return' else []
    if re.match(r"return\b", low, re.I):
        return [('S', 0, 'd', 'd', '', 0, 0)]
    m = re.match(r"call\s+(.*?)\((.*)\)\s*$", low, re.I | re.S)
    if m:
        args = m.group(2)
        if "\0" in args or is_error(args):
            return [('S', 1, 'm', 'm', holders(args), 0, 1)]
        return []
    m = re.match(r"allocate\s*\(.*stat\s*=\s*(%s)\s*\)" % NAME, low, re.I)
    if m:
        return [('S', 1, 'm', 'm', "?" if "\0" in m.group(1) else m.group(1), 0, 1)]
    m = re.match(r"(%s)\s*=\s*(.*)$" % NAME, low, re.S)
    if m:
        var, val = m.group(1), m.group(2).strip()
        told = int(result is not None and var == result and val != "0")
        if re.match(r"\d+$", val) and (is_error(var)):
            return [('S', 2, 'k', 'k', '', 0, 1)] if int(val) == 0 else [('S', 0, 'm', 'm', '*', told, 1)]
        f = re.match(r"((?:%s)[\w%%\0\1]*(?:[^\0\1()]|%s)*)\((.*)\)$" % (NAME, H), val, re.S)
        if f and ("\0" in f.group(1) or "_cap" in f.group(1)) and ("\0" in f.group(2) or is_error(f.group(2))) \
                and ":" not in re.sub(H, "", f.group(2)):
            return [('S', 1, 'm', 'm', by(var if "\0" not in var else "?", holders(f.group(2)) if var != result else ""), 0, 1)]
        if told:
            return [('S', 0, 'k', 'm', '', 1, 1)]
    return []


def holders(args):
    """The names among the arguments of a call that may receive its error."""
    out = ["?"] if "\0" in args else []
    out += re.findall(r"\b(\w*(?:err|flg)\w*)\b", re.sub(H, "", args), re.I)
    return by(",".join(out))


def short(line):
    """A line that says nothing about errors, shortened."""
    if line.lstrip().startswith("#"):
        return "#"
    code = strip_comment(line)
    if WORDS.search(code) or len(line) < 2:
        return line
    if code != line:
        return "!"
    code = code.strip()
    out = "\0x\1" if code.strip(" &") else ""
    if code.count(")") > code.count("("):
        out += ")"
    return out + (" " if out and line[-1] == " " else "") + (" &" if code.endswith("&") else "")


class Errors(Client):
    """data: the tokens of the text written so far, in normal form."""
    def __init__(self, result=None, names=(), parts=()):
        self.result, self.names, self.parts = result, names, parts
        self.bad, self.at, self.calls, self.used = {}, None, 0, set()
        self.red = Reducer(self.flag, result)

    def fresh(self):
        return Errors(self.result, self.names, self.parts)

    def blank(self):
        return ()

    def notices(self, name):
        return name in self.names

    def flag(self, kind, what):
        self.bad.setdefault((kind, what), self.at)

    def run(self, toks, text):
        for line in logical_lines(text):
            for tok in read(line, self.result):
                if tok[0] == 'S' and tok[1] == 1 and not line.startswith("@"):
                    self.calls += 1
                toks = self.red.add(toks, tok)
        return toks

    def write(self, flow, st, text, node):
        return [st.with_data(self.run(st.data, text))]

    def call(self, flow, st, name, node):
        if name == 'write' and len(node.args) >= 3:       # a part of the suite writes itself
            target, _ = flow.target(node, st)
            if target is None:
                self.used.add(name)
                return [st.with_data(self.red.add(st.data, ('S', 0, 'm', 'm', '*', 0, 1)))]
        target, args = flow.target(node, st)
        if target is None or not speaks(target):
            return None
        sub = flow.sub(target, args)
        if sub is None:
            return None
        for (kind, what), at in sub.client.bad.items():
            self.bad.setdefault((kind, what), at)
        ends = {e.data for e, _, _ in sub.ends}
        if ends == {()} or not ends:
            return None
        out = []
        for x in sorted(ends, key=str):
            toks = st.data
            for tok in x:
                toks = self.red.add(toks, tok)
            out.append(st.with_data(toks))
        return out

    def matters(self, text):
        return bool(WORDS.search(text)) or text.rstrip().endswith("&")

    def neutral(self, text):
        return not WORDS.search(text) and not re.search("[&!'\"#]", plain(text))

    def norm(self, text):
        if "{" in text:
            return text
        if "!" not in text:
            text = re.sub(r"&[ \t]*\n[ \t]*&?", " ", text)
        lines = text.split("\n")
        last = short(lines[-1])
        if len(lines) == 1:
            return last
        head, body = short(lines[0]), lines[1:-1]
        if (body or [head])[-1].rstrip().endswith("&") or head.rstrip().endswith("&"):
            return text
        toks = self.run((), "\n".join(body))
        return head + "\n" + "".join("@%r\n" % (t,) for t in toks) + last

    def summary(self, text):
        return self.norm(text)

    def leave(self, flow, node, states):
        # text that has to start in the first iteration needs one
        def left(st):
            return (shape(st.data), frozenset((n, self.net(v)) for n, v in st.env.items() if isinstance(v, str) and "\n" in v and self.net(v)))
        no = {left(x) for x, ran in states if not ran}
        rest = [x for x, ran in states if ran and left(x) not in no]
        return rest or [x for x, _ in states]

    def net(self, text):
        saved = dict(self.bad)
        toks = self.run((), text.lstrip(LIST))
        self.bad = saved
        return shape(toks)


def shape(toks):
    return tuple(t[0] if t[0] in ('END', 'ENDDO', 'ENDSUB', 'DO', 'SUB') else 'IF' for t in toks if t[0] != 'S')


def speaks(fi):
    import ast
    return any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'write' and n.args for n in ast.walk(fi.node))


def result_of(cls):
    """The result variable of the functions that the templates of a class make."""
    import ast
    for val in (cls.consts.values() if cls is not None else ()):
        if isinstance(val, ast.Constant) and isinstance(val.value, str):
            m = re.search(r"result\s*\(\s*(\w+)\s*\)", val.value)
            if m:
                return m.group(1)
    return None


def check(ctx, project):
    for name, text in RULES.items():
        ctx.rule(name, text)
    cache, calls = {}, 0
    for mod in sorted(project.modules):
        if mod in OTHER:
            continue
        for fi in project.mod(mod).all_funcs():
            if not speaks(fi):
                continue
            rule = Errors(result_of(fi.cls))
            flow = Flow(project, fi, rule, cache.setdefault(rule.result, {}))
            try:
                flow.run(data=())
            except OverflowError as err:
                if not rule.bad:
                    raise AnalysisBroken(str(err))
            if not rule.calls and not rule.bad and not rule.used:
                continue
            ctx.saw(fi)
            calls += rule.calls
            for (kind, what), node in rule.bad.items():
                ctx.bad(kind, fi.where(node), what)
            if not rule.bad:
                ctx.ok("guarded", fi.ident)
            ends = {e.data for e, _, _ in flow.ends}
            if is_part(fi):
                ctx.check(all(not any(t[0] == 'S' and t[1] for t in x) for x in ends), "parts", fi.where(),
                          "what a part of a suite writes calls a scheme where an error may be pending")
    ctx.count("calls", calls)
    ctx.at_least("guarded", 6)
    ctx.at_least("parts", 3)


def is_part(fi):
    return fi.name == 'write' and fi.cls is not None and len(fi.params) >= 4 and 'errcode' in fi.params
