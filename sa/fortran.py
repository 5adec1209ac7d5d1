"""Front end for the free-form Fortran sources of the framework (src/*.F90).

parse(path) gives a Module: types (components, bindings), procedures (dummies, declarations, statements). Statements
and expressions are tuples, names are in lower case.
"""
import os
import re

from sa.project import AnalysisBroken

# ------------------------------------------------------------------ lines


def logical_lines(text):
    """(line number, statement) without comments and continuations, lower case outside of strings."""
    out = []
    cur, start, cont, quote = "", 0, False, None
    for num, line in enumerate(text.splitlines(), 1):
        if not cont and line.lstrip().startswith("#"):
            continue
        body = line
        if cont:
            strip = body.lstrip()
            if strip.startswith("&"):
                body = strip[1:]
            elif not strip or strip.startswith("!"):
                continue
            elif not quote:
                body = strip
        piece = ""
        for ch in body:
            if quote:
                piece += ch
                if ch == quote:
                    quote = None
            elif ch in "'\"":
                quote = ch
                piece += ch
            elif ch == "!":
                break
            else:
                piece += ch.lower()
        if not cont:
            cur, start = "", num
        stripped = piece.rstrip()
        if stripped.endswith("&"):
            cur += stripped[:-1] if quote else stripped[:-1].rstrip() + " "
            cont = True
            continue
        cont, quote = False, None
        cur += stripped
        for part in split_top(cur, ";"):
            if part.strip():
                out.append((start, part.strip()))
    return out


def split_top(text, sep):
    """Split at SEP outside of strings and parentheses."""
    out, depth, quote, cur = [], 0, None, ""
    for ch in text:
        if quote:
            if ch == quote:
                quote = None
        elif ch in "'\"":
            quote = ch
        elif ch in "([":
            depth += 1
        elif ch in ")]":
            depth -= 1
        elif ch == sep and depth == 0:
            out.append(cur)
            cur = ""
            continue
        cur += ch
    out.append(cur)
    return out


TOKEN = re.compile(r"""\s*(?:
  (?P<str>'(?:[^']|'')*'|"(?:[^"]|"")*")
 |(?P<num>(?:\d+\.(?![a-z]+\.)\d*|\.\d+|\d+)(?:[ed][+-]?\d+)?(?:_[a-z]\w*)?)
 |(?P<op>\.(?:and|or|not|eqv|neqv|eq|ne|lt|le|gt|ge|true|false)\.(?:_\w+)?|=>|==|/=|<=|>=|//|\*\*|::|\(/|/\)|[-+*/%(),:=<>\[\]])
 |(?P<name>[a-z_]\w*)
)""", re.X)


def tokenize(text):
    out, pos = [], 0
    while pos < len(text):
        m = TOKEN.match(text, pos)
        if m is None:
            if not text[pos:].strip():
                break
            raise AnalysisBroken("cannot read Fortran: %s" % text[pos:pos + 40])
        kind = m.lastgroup
        out.append((kind, m.group(kind)))
        pos = m.end()
    return out


DOT = {".eq.": "==", ".ne.": "/=", ".lt.": "<", ".le.": "<=", ".gt.": ">", ".ge.": ">="}


class Expr:
    """Recursive descent over tokens."""

    def __init__(self, toks):
        self.toks = toks
        self.pos = 0

    def peek(self, ofs=0):
        return self.toks[self.pos + ofs][1] if self.pos + ofs < len(self.toks) else None

    def take(self, want=None):
        if self.pos >= len(self.toks):
            raise AnalysisBroken("unexpected end of a Fortran statement")
        kind, tok = self.toks[self.pos]
        if want is not None and tok != want:
            raise AnalysisBroken("expected %s, found %s in a Fortran statement" % (want, tok))
        self.pos += 1
        return kind, tok

    def binary(self, ops, sub):
        left = sub()
        while self.peek() in ops:
            op = self.take()[1]
            left = ('op', DOT.get(op, op), left, sub())
        return left

    def expr(self):
        return self.binary((".eqv.", ".neqv."), self.e_or)

    def e_or(self):
        return self.binary((".or.",), self.e_and)

    def e_and(self):
        return self.binary((".and.",), self.e_not)

    def e_not(self):
        if self.peek() == ".not.":
            self.take()
            return ('un', ".not.", self.e_not())
        return self.e_cmp()

    def e_cmp(self):
        return self.binary(("==", "/=", "<", "<=", ">", ">=") + tuple(DOT), self.e_cat)

    def e_cat(self):
        return self.binary(("//",), self.e_add)

    def e_add(self):
        if self.peek() in ("-", "+"):
            op = self.take()[1]
            left = self.e_mul()
            if op == "-":
                left = ('un', "-", left)
        else:
            left = self.e_mul()
        while self.peek() in ("+", "-"):
            op = self.take()[1]
            left = ('op', op, left, self.e_mul())
        return left

    def e_mul(self):
        return self.binary(("*", "/"), self.e_pow)

    def e_pow(self):
        left = self.primary()
        if self.peek() == "**":
            self.take()
            right = self.e_pow() if self.peek() not in ("-", "+") else self.e_add()
            return ('op', "**", left, right)
        return left

    def primary(self):
        kind, tok = self.take()
        if kind == 'str':
            node = ('str', tok[1:-1].replace(tok[0] * 2, tok[0]))
        elif kind == 'num':
            return ('num', tok)
        elif tok.startswith(".true."):
            return ('log', True)
        elif tok.startswith(".false."):
            return ('log', False)
        elif tok == "(":
            node = self.expr()
            if self.peek() == ",":          # complex constant
                self.take()
                node = ('op', 'cmplx', node, self.expr())
            self.take(")")
            return node
        elif tok in ("[", "(/"):
            close = "]" if tok == "[" else "/)"
            items = []
            while self.peek() != close:
                items.append(self.arg()[1])
                if self.peek() == ",":
                    self.take()
                elif self.peek() == "::":
                    self.take()
                    items = []
            self.take(close)
            return ('arr', tuple(items))
        elif kind == 'name':
            node = ('n', tok)
        elif tok in ("-", "+"):
            return ('un', tok, self.primary()) if tok == "-" else self.primary()
        else:
            raise AnalysisBroken("unexpected %s in a Fortran expression" % tok)
        while True:
            if self.peek() == "(":
                self.take()
                node = ('()', node, self.args(")"))
            elif self.peek() == "%":
                self.take()
                node = ('%', node, self.take()[1])
            else:
                return node

    def args(self, close):
        out = []
        while self.peek() != close:
            out.append(self.arg())
            if self.peek() == ",":
                self.take()
        self.take(close)
        return tuple(out)

    def arg(self):
        """(keyword or None, expression or slice)"""
        if self.pos + 1 < len(self.toks) and self.toks[self.pos][0] == 'name' and self.peek(1) == "=":
            key = self.take()[1]
            self.take()
            return (key, self.arg()[1])
        if self.peek() == "*" and self.peek(1) in (")", ","):
            self.take()
            return (None, ('*',))
        low = None
        if self.peek() != ":":
            low = self.expr()
            if self.peek() != ":":
                return (None, low)
        self.take(":")
        high = None if self.peek() in (",", ")", ":") else self.expr()
        step = None
        if self.peek() == ":":
            self.take()
            step = self.expr()
        return (None, (':', low, high, step))


def parse_expr(text):
    p = Expr(tokenize(text))
    node = p.expr()
    if p.pos != len(p.toks):
        raise AnalysisBroken("trailing text in the Fortran expression %s" % text)
    return node


# ------------------------------------------------------------------ model
class Decl:
    def __init__(self, name, base, tname, attrs, dims, init, line):
        self.name, self.base, self.tname, self.attrs, self.dims, self.init, self.line = name, base, tname, attrs, dims, init, line

    @property
    def intent(self):
        for a in self.attrs:
            m = re.match(r"intent\s*\(\s*(in\s*out|inout|in|out)\s*\)", a)
            if m:
                return m.group(1).replace(" ", "")
        return None

    def has(self, attr):
        return any(a.split("(")[0].strip() == attr for a in self.attrs)


class Type:
    def __init__(self, name, extends, line):
        self.name, self.extends, self.line = name, extends, line
        self.comps, self.bindings, self.finals, self.generics = {}, {}, [], {}
        self.private = set()        # bindings


class Proc:
    def __init__(self, name, kind, args, result, line, prefix):
        self.name, self.kind, self.args, self.result, self.line, self.prefix = name, kind, args, result, line, prefix
        self.decls, self.body, self.module, self.end = {}, [], None, line
        self.uses = []

    @property
    def ident(self):
        return "%s.%s" % (self.module.name, self.name)

    def where(self, line=None):
        return "%s:%d (%s)" % (self.module.rel, line or self.line, self.name)


class Module:
    def __init__(self, name, rel):
        self.name, self.rel = name, rel
        self.types, self.procs, self.decls = {}, {}, {}


SPEC = re.compile(r"^(integer|real|logical|complex|character|double\s+precision|type|class)\b\s*(.*)$")
PROC = re.compile(r"^((?:(?:elemental|pure|recursive|impure|module|integer|logical|real|character)\s*(?:\([^()]*(?:\([^()]*\))?[^()]*\))?\s+|"
                  r"(?:type|class)\s*\([^()]*\)\s+)*)(subroutine|function)\s+(\w+)\s*(?:\(([^)]*)\))?\s*(?:result\s*\(\s*(\w+)\s*\))?")


def paren(text):
    """Split '(...) rest' at the matching parenthesis."""
    depth, quote = 0, None
    for i, ch in enumerate(text):
        if quote:
            if ch == quote:
                quote = None
        elif ch in "'\"":
            quote = ch
        elif ch == "(":
            depth += 1
        elif ch == ")":
            depth -= 1
            if depth == 0:
                return text[1:i].strip(), text[i + 1:].strip()
    raise AnalysisBroken("unbalanced parentheses in %s" % text)


def parse_decl(text, line):
    m = SPEC.match(text)
    if m is None:
        return None
    base, rest = m.group(1), m.group(2).strip()
    tname = None
    if rest.startswith("("):
        tname, rest = paren(rest)
    elif base in ("type", "class"):
        return None
    elif base == "character" and rest.startswith("*"):
        return None
    if base in ("type", "class"):
        tname = tname.strip()
    if "::" in rest:
        left, right = split_first(rest, "::")
        attrs = [a.strip() for a in split_top(left, ",") if a.strip()]
    elif rest.startswith(","):
        return None
    else:
        attrs, right = [], rest
    out = []
    for item in split_top(right, ","):
        m = re.match(r"\s*(\w+)\s*(.*)$", item, re.S)
        if m is None:
            return None
        name, tail = m.group(1), m.group(2).strip()
        dims = None
        if tail.startswith("("):
            dims, tail = paren(tail)
        if tail.startswith("*"):
            tail = re.sub(r"^\*\s*(\d+|\([^)]*\))", "", tail).strip()
        init = None
        if tail.startswith("=>"):
            init = ('ptr', tail[2:].strip())
        elif tail.startswith("="):
            init = ('val', tail[1:].strip())
        elif tail:
            return None
        for a in attrs:
            if a.startswith("dimension") and dims is None:
                dims = paren(a[len("dimension"):].strip())[0]
        out.append(Decl(name, base, tname, attrs, dims, init, line))
    return out


def split_first(text, sep):
    depth, quote = 0, None
    for i, ch in enumerate(text):
        if quote:
            if ch == quote:
                quote = None
        elif ch in "'\"":
            quote = ch
        elif ch in "([":
            depth += 1
        elif ch in ")]":
            depth -= 1
        elif depth == 0 and text.startswith(sep, i):
            return text[:i], text[i + len(sep):]
    return text, ""


class Reader:
    def __init__(self, rel, text):
        self.rel = rel
        self.lines = logical_lines(text)
        self.pos = 0

    def peek(self):
        return self.lines[self.pos] if self.pos < len(self.lines) else (0, None)

    def next(self):
        item = self.peek()
        self.pos += 1
        return item

    def module(self):
        mod = None
        while self.peek()[1] is not None:
            line, text = self.next()
            m = re.match(r"^module\s+(\w+)$", text)
            if m and m.group(1) != "procedure":
                mod = Module(m.group(1), self.rel)
                continue
            if mod is None:
                continue
            m = re.match(r"^type\s*(?:,(?P<attr>.*?))?(?:::|\s)\s*(?P<name>\w+)$", text)
            if m and not text.startswith("type("):
                self.type(mod, m, line)
                continue
            if re.match(r"^(abstract\s+)?interface\b", text):
                while not re.match(r"^end\s*interface", self.peek()[1]):
                    self.pos += 1
                self.pos += 1
                continue
            m = PROC.match(text)
            if m:
                self.proc(mod, m, line)
                continue
            decls = parse_decl(text, line)
            for d in decls or ():
                mod.decls[d.name] = d
        return mod

    def type(self, mod, m, line):
        ext = re.search(r"extends\s*\(\s*(\w+)\s*\)", m.group('attr') or "")
        typ = Type(m.group('name'), ext.group(1) if ext else None, line)
        mod.types[typ.name] = typ
        bound = False
        while True:
            num, text = self.next()
            if text is None or re.match(r"^end\s*type", text):
                return
            if text == "contains":
                bound = True
            elif bound:
                if text.startswith("final"):
                    typ.finals += [x.strip() for x in text.split("::")[-1].split(",")]
                elif text.startswith("generic"):
                    left, right = text.split("=>", 1)
                    typ.generics[left.split("::")[-1].strip()] = [x.strip() for x in right.split(",")]
                elif text.startswith("procedure"):
                    for item in split_top(text.split("::")[-1] if "::" in text else text[len("procedure"):], ","):
                        name, _, target = item.partition("=>")
                        typ.bindings[name.strip()] = target.strip() or name.strip()
                        if "private" in text.split("::")[0]:
                            typ.private.add(name.strip())
            else:
                for d in parse_decl(text, num) or ():
                    typ.comps[d.name] = d

    def proc(self, mod, m, line):
        args = [a.strip() for a in (m.group(4) or "").split(",") if a.strip()]
        prefix = (m.group(1) or "").strip()
        kind = m.group(2)
        proc = Proc(m.group(3), kind, args, m.group(5) or (m.group(3) if kind == 'function' else None), line, prefix)
        proc.module = mod
        mod.procs[proc.name] = proc
        if kind == 'function' and prefix:
            decls = parse_decl(re.sub(r"\b(elemental|pure|recursive|impure|module)\b", "", prefix).strip() + " :: " + proc.result, line)
            for d in decls or ():
                proc.decls[d.name] = d
        while True:
            num, text = self.peek()
            if text is None:
                raise AnalysisBroken("%s: no end of %s" % (self.rel, proc.name))
            decls = None
            if re.match(r"^(use|implicit|import|external|intrinsic|save|parameter)\b", text):
                if text.startswith("use"):
                    proc.uses.append(text)
                self.pos += 1
                continue
            if "::" in text or SPEC.match(text):
                if not re.match(r"^(type|class)\s+is\b", text) and not re.match(r"^\w+\s*=", text):
                    decls = parse_decl(text, num)
            if decls is None:
                break
            for d in decls:
                proc.decls[d.name] = d
            self.pos += 1
        proc.body = self.block(("end subroutine", "end function", "endsubroutine", "endfunction", "end", "contains"))
        num, text = self.next()
        proc.end = num
        if text == "contains":
            # internal procedures
            while True:
                num, text = self.next()
                if text is None or re.match(r"^end\s*(subroutine|function)", text):
                    break
                mm = PROC.match(text)
                if mm:
                    self.proc(mod, mm, num)

    def stops(self, text, ends):
        return any(text == e or (e != "end" and re.match(re.escape(e).replace(r"\ ", r"\s*") + r"\b(?!\s*[=%])", text)) for e in ends)

    def block(self, ends):
        out = []
        while True:
            num, text = self.peek()
            if text is None:
                raise AnalysisBroken("%s: unexpected end of file" % self.rel)
            if self.stops(text, ends):
                return out
            out.append(self.statement())

    def statement(self):
        num, text = self.next()
        m = re.match(r"^(\w+)\s*:\s*(?=(do|if|select|associate|block)\b)", text)
        label = None
        if m and not text.startswith("case"):
            label, text = m.group(1), text[m.end():]
        if re.match(r"^if\s*\(", text):
            cond, rest = paren(text[2:].strip())
            if rest == "then":
                return self.if_block(num, cond)
            return ('if', num, ((parse_expr(cond), [self.simple(num, rest)]),), [])
        if text == "do" or re.match(r"^do\s+(while\b|\w+\s*=|concurrent\b)", text) or re.match(r"^do\s+while", text):
            return self.do_block(num, text, label)
        if re.match(r"^select\s*(case|type)\b", text):
            return self.select(num, text)
        if re.match(r"^associate\s*\(", text):
            inner, _ = paren(text[len("associate"):].strip())
            pairs = []
            for item in split_top(inner, ","):
                left, right = item.split("=>", 1)
                pairs.append((left.strip(), parse_expr(right.strip())))
            body = self.block(("end associate",))
            self.next()
            return ('assoc', num, tuple(pairs), body)
        if re.match(r"^where\s*\(", text):
            cond, rest = paren(text[5:].strip())
            if rest:
                return ('if', num, ((parse_expr(cond), [self.simple(num, rest)]),), [])
            body = self.block(("end where", "elsewhere"))
            arms, other = [(parse_expr(cond), body)], []
            while self.peek()[1].startswith("elsewhere"):
                self.next()
                other = self.block(("end where", "elsewhere"))
            self.next()
            return ('if', num, tuple(arms), other)
        return self.simple(num, text)

    def if_block(self, num, cond):
        arms, other = [], []
        cur = parse_expr(cond)
        while True:
            body = self.block(("else if", "else", "end if"))
            if cur is None:
                other = body
            else:
                arms.append((cur, body))
            _, text = self.next()
            if re.match(r"^end\s*if", text):
                return ('if', num, tuple(arms), other)
            m = re.match(r"^else\s*if\s*(\(.*)$", text)
            if m:
                cur = parse_expr(paren(m.group(1))[0])
            else:
                cur = None

    def do_block(self, num, text, label):
        rest = text[2:].strip()
        m = re.match(r"^while\s*(\(.*)$", rest)
        head = None
        if m:
            head = ('while', parse_expr(paren(m.group(1))[0]))
        elif rest:
            m = re.match(r"^(\w+)\s*=\s*(.*)$", rest)
            if not m:
                raise AnalysisBroken("%s:%d: unknown loop %s" % (self.rel, num, text))
            head = ('var', m.group(1)) + tuple(parse_expr(x) for x in split_top(m.group(2), ","))
        body = self.block(("end do",))
        self.next()
        return ('do', num, head, body, label)

    def select(self, num, text):
        m = re.match(r"^select\s*(case|type)\s*(\(.*)$", text)
        kind = m.group(1)
        inner, _ = paren(m.group(2))
        name, _, expr = inner.partition("=>")
        if not expr:
            name, expr = None, inner
        arms = []
        ends = ("case", "type is", "class is", "class default", "end select")
        self.block(ends)
        while True:
            _, text = self.next()
            if re.match(r"^end\s*select", text):
                return ('select', num, kind, parse_expr(expr.strip()), name and name.strip(), tuple(arms))
            m = re.match(r"^(case|type\s+is|class\s+is)\s*(\(.*\))$", text)
            guard = paren(m.group(2))[0] if m else None
            arms.append((guard, self.block(ends)))

    def simple(self, num, text):
        if text in ("return", "exit", "cycle", "continue"):
            return (text, num)
        m = re.match(r"^(exit|cycle)\s+(\w+)$", text)
        if m:
            return (m.group(1), num, m.group(2))
        if re.match(r"^(error\s+)?stop\b", text):
            return ('stop', num)
        m = re.match(r"^call\s+(.*)$", text)
        if m:
            node = parse_expr(m.group(1))
            if node[0] == '()':
                return ('call', num, node[1], node[2])
            return ('call', num, node, ())
        m = re.match(r"^(allocate|deallocate|nullify)\s*(\(.*\))$", text)
        if m:
            p = Expr(tokenize(m.group(2)))
            p.take("(")
            args = p.args(")")
            return (m.group(1), num, args)
        m = re.match(r"^(write|read|print)\b\s*(.*)$", text)
        if m and not re.match(r"^(write|read|print)\s*=", text):
            if m.group(1) == "print":
                return ('write', num, ((None, ('*',)),), ())
            inner, rest = paren(m.group(2))
            p = Expr(tokenize(inner + ")"))
            items = Expr(tokenize(rest + ")")).args(")") if rest else ()
            return ('write', num, p.args(")"), items)
        toks = tokenize(text)
        p = Expr(toks)
        lhs = p.primary()
        if p.peek() in ("=", "=>"):
            op = p.take()[1]
            rhs = p.expr()
            if p.pos != len(toks):
                raise AnalysisBroken("%s:%d: cannot read %s" % (self.rel, num, text))
            return (op, num, lhs, rhs)
        raise AnalysisBroken("%s:%d: unknown statement %s" % (self.rel, num, text))


def load(repo, rel):
    with open(os.path.join(repo, rel), encoding="utf-8") as handle:
        mod = Reader(rel, handle.read()).module()
    if mod is None:
        raise AnalysisBroken("%s contains no module" % rel)
    return mod


def show(e):
    """Fortran text of an expression."""
    if e is None:
        return ""
    k = e[0]
    if k == 'n' or k == 'num':
        return e[1]
    if k == 'str':
        return "'%s'" % e[1]
    if k == 'log':
        return ".true." if e[1] else ".false."
    if k == '%':
        return "%s%%%s" % (show(e[1]), e[2])
    if k == '()':
        return "%s(%s)" % (show(e[1]), ", ".join((a + "=" if a else "") + show(v) for a, v in e[2]))
    if k == 'op':
        return "%s %s %s" % (show(e[2]), e[1], show(e[3]))
    if k == 'un':
        return "%s%s" % (e[1], show(e[2]))
    if k == ':':
        return "%s:%s" % (show(e[1]), show(e[2]))
    if k == 'arr':
        return "[%s]" % ", ".join(show(x) for x in e[1])
    return "*"


def walk_stmts(body):
    for s in body:
        yield s
        if s[0] == 'if':
            for _, b in s[2]:
                yield from walk_stmts(b)
            yield from walk_stmts(s[3])
        elif s[0] in ('do', 'assoc'):
            yield from walk_stmts(s[3])
        elif s[0] == 'select':
            for _, b in s[5]:
                yield from walk_stmts(b)


def walk_expr(e):
    if not isinstance(e, tuple):
        return
    if e and isinstance(e[0], str):
        yield e
        if e[0] == '()':
            yield from walk_expr(e[1])
            for _, v in e[2]:
                yield from walk_expr(v)
            return
        if e[0] in ('n', 'num', 'str', 'log'):
            return
        if e[0] == '%':
            yield from walk_expr(e[1])
            return
    for x in e:
        if isinstance(x, tuple):
            yield from walk_expr(x)


def exprs_of(s):
    """Expressions directly in statement S (not those of nested statements)."""
    if s[0] == 'if':
        return [c for c, _ in s[2]]
    if s[0] == 'do':
        return [x for x in (s[2] or ())[1:] if isinstance(x, tuple)]
    if s[0] == 'select':
        return [s[3]]
    if s[0] == 'assoc':
        return [e for _, e in s[2]]
    if s[0] in ('=', '=>'):
        return [s[2], s[3]]
    if s[0] == 'call':
        return [s[2]] + [v for _, v in s[3]]
    if s[0] in ('allocate', 'deallocate', 'nullify'):
        return [v for _, v in s[2]]
    if s[0] == 'write':
        return [v for _, v in s[2]] + [v for _, v in s[3]]
    return []
