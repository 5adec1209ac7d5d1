"""Evaluation of list-making code over sets that are not known.

The unknown sets (what a loop has collected) are n base sets; every set made from them is a union of the 2^n regions of their Venn
diagram, a bit mask; the length of a set is a linear form over the regions. Conditions on sets split the path by which regions are
empty; conditions on anything else split it by the text of what is tested. The paths are explored one after the other by replaying
decisions. Text that is written is kept as lines with numbers (linear forms), sets and elements in them."""
import ast
import re

from sa.project import FuncInfo, Module, ClassInfo

MARK = re.compile("\3(\\d+)\4")


class Undecided(Exception):
    pass


class Dead(Exception):
    """The path ends (return, raise)."""


class Lin:
    """A linear form: a number plus so many times the size of each region; `i` counts the iterations of a loop over a set."""
    def __init__(self, const=0, parts=None, i=0):
        self.const, self.parts, self.i = const, parts or {}, i

    def plus(self, other, sign=1):
        parts = dict(self.parts)
        for r, n in other.parts.items():
            parts[r] = parts.get(r, 0) + sign * n
        return Lin(self.const + sign * other.const, {r: n for r, n in parts.items() if n}, self.i + sign * other.i)

    def under(self, empty):
        return (self.const, frozenset((r, n) for r, n in self.parts.items() if not (empty >> r) & 1), self.i)


def size(mask):
    return Lin(0, {r: 1 for r in range(mask.bit_length()) if (mask >> r) & 1})


class Ref:
    """A container: kind 'set' (mask), 'list' / 'tuple' (values) or 'dict'."""
    def __init__(self, kind, val):
        self.kind, self.val = kind, val


class Term:
    """Anything else, by its text."""
    def __init__(self, text):
        self.text = text

    def __eq__(self, other):
        return isinstance(other, Term) and other.text == self.text

    def __hash__(self):
        return hash(self.text)


class Seq:
    """A list without repetition: its elements as regions."""
    def __init__(self, mask):
        self.mask = mask


class Elem:
    def __init__(self, mask):
        self.mask = mask


class Base:
    """Names the base sets. `room` is how many there may be."""
    def __init__(self, room):
        self.room, self.names = room, {}
        self.all = (1 << (1 << room)) - 1

    def mask(self, name):
        if name not in self.names:
            if len(self.names) >= self.room:
                raise Undecided("too many sets")
            self.names[name] = len(self.names)
        k = self.names[name]
        out = 0
        for r in range(1 << self.room):
            if (r >> k) & 1:
                out |= 1 << r
        return out


class Evaluator:
    max_paths = 6000

    def __init__(self, project, fi, room=9, unknown_loops=None):
        self.p, self.fi = project, fi
        self.base = Base(room)
        self.trace, self.pos = [], 0
        self.lines = []

    # ---------------------------------------------------------------- paths
    def paths(self, body, env=None):
        """Yields once for each path through BODY (self holds what it found)."""
        self.trace, count = [], 0
        while True:
            self.pos = 0
            self.empty, self.full, self.facts = 1, [], {}      # region 0 is in no set
            self.lines, self.table, self.depth = [], [], 0
            self.env = dict(env or {})
            self.stack = [self.fi]
            self.log = []
            count += 1
            if count > self.max_paths:
                raise Undecided("too many paths")
            try:
                ended = self.block(body)
            except Dead:
                ended = 'dead'
            yield ended
            while self.trace and self.trace[-1] is False:
                self.trace.pop()
            if not self.trace:
                return
            self.trace[-1] = False

    def split(self):
        if self.pos == len(self.trace):
            self.trace.append(True)
        self.pos += 1
        return self.trace[self.pos - 1]

    def nonempty(self, mask):
        mask &= ~self.empty
        if not mask:
            return False
        if any(not f & ~self.empty & ~mask for f in self.full):
            return True
        if self.split():
            self.full.append(mask)
            return True
        self.empty |= mask
        return False

    def fact(self, key):
        if key not in self.facts:
            self.facts[key] = self.split()
        return self.facts[key]

    def truth(self, v):
        if isinstance(v, Ref):
            return self.nonempty(v.val) if v.kind == 'set' else bool(v.val)
        if isinstance(v, (Seq, Elem)):
            return self.nonempty(v.mask) if isinstance(v, Seq) else True
        if isinstance(v, Lin):
            if not v.parts and not v.i:
                return bool(v.const)
            if v.const == 0 and not v.i and all(n > 0 for n in v.parts.values()):
                return self.nonempty(sum(1 << r for r in v.parts))
            raise Undecided("a number is tested")
        if isinstance(v, Term):
            return self.fact(('true', v.text))
        return bool(v)

    # ---------------------------------------------------------------- statements
    def block(self, stmts):
        for s in stmts:
            got = self.stmt(s)
            if got is not None:
                return got
        return None

    def stmt(self, s):
        self.node = s
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            if s.value is None:
                return None
            val = self.ev(s.value)
            for t in s.targets if isinstance(s, ast.Assign) else [s.target]:
                self.store(t, val)
        elif isinstance(s, ast.AugAssign):
            old, val = self.ev(ast.copy_location(ast.parse(ast.unparse(s.target), mode='eval').body, s.target)), self.ev(s.value)
            if isinstance(old, Ref) and old.kind == 'set':
                old.val = self.setop(s.op, old.val, self.mask_of(val))
            elif isinstance(old, Ref) and old.kind == 'list' and isinstance(val, Ref):
                old.val += val.val
            else:
                self.store(s.target, self.binop(s.op, old, val, s))
        elif isinstance(s, ast.Expr):
            self.ev(s.value)
        elif isinstance(s, ast.If):
            return self.block(s.body if self.truth(self.ev(s.test)) else s.orelse)
        elif isinstance(s, (ast.For, ast.While)):
            return self.loop(s)
        elif isinstance(s, ast.Return):
            return ('return', self.ev(s.value) if s.value is not None else None)
        elif isinstance(s, ast.Raise):
            raise Dead()
        elif isinstance(s, (ast.Continue, ast.Break)):
            return ('jump', None)
        elif isinstance(s, ast.Assert):
            pass
        elif isinstance(s, ast.With):
            return self.block(s.body)
        elif isinstance(s, ast.FunctionDef):
            self.env[s.name] = FuncInfo(self.stack[-1].module, s, self.stack[-1].cls, self.stack[-1])
        elif isinstance(s, (ast.Pass, ast.Delete, ast.Global, ast.Import, ast.ImportFrom)):
            pass
        else:
            raise Undecided("a %s" % type(s).__name__)
        return None

    def store(self, t, val):
        if isinstance(t, ast.Name):
            self.env[t.id] = val
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = val.val if isinstance(val, Ref) and val.kind in ('list', 'tuple') and len(val.val) == len(t.elts) else None
            for i, x in enumerate(t.elts):
                self.store(x, vals[i] if vals is not None else Term("%s[%d]" % (self.show(val), i)))
        elif isinstance(t, ast.Subscript):
            box, key = self.ev(t.value), self.ev(t.slice)
            if isinstance(box, Ref) and box.kind == 'list' and isinstance(key, int):
                box.val[key] = val
            elif isinstance(box, Ref) and box.kind == 'dict':
                if isinstance(key, (str, int)):
                    box.val[key] = val
                else:
                    self.facts[('item', id(box), self.show(key))] = val
        elif isinstance(t, ast.Starred):
            raise Undecided("a starred target")

    def loop(self, s):
        raise Undecided("a loop")

    def over(self, s, val):
        """A loop over a list that is a set of regions."""
        idx, var, mask = None, None, None
        if isinstance(val, tuple) and val[0] == 'enum':
            mask, first = val[1], val[2]
            if isinstance(s.target, ast.Tuple) and len(s.target.elts) == 2:
                idx, var = s.target.elts
        elif isinstance(val, (Seq, Ref)):
            mask, var, first = self.mask_of(val), s.target, None
        if var is None:
            raise Undecided("a loop")
        if idx is not None:
            self.store(idx, Lin(first, None, 1))
        self.store(var, Elem(mask))
        before = dict(self.env)
        n = len(self.lines)
        got = self.block(s.body)
        changed = [k for k, v in before.items() if self.env.get(k) is not v and k not in [x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)]]
        if got is not None or len(self.lines) > n + 1 or [k for k in changed if self.live_after(s, k)]:
            raise Undecided("what a loop does")
        if len(self.lines) == n + 1:
            self.lines[n] = ('each', mask, self.lines[n][1], self.lines[n][2])
        return None

    def live_after(self, s, name):
        return any(isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id == name for n in ast.walk(s))

    # ---------------------------------------------------------------- expressions
    def ev(self, e):
        if isinstance(e, ast.Constant):
            return e.value if not isinstance(e.value, (int,)) or isinstance(e.value, bool) else e.value
        if isinstance(e, ast.Name):
            if e.id in self.env:
                return self.env[e.id]
            return Term(e.id)
        if isinstance(e, ast.Attribute):
            return Term(self.show(self.ev(e.value)) + "." + e.attr)
        if isinstance(e, (ast.List, ast.Tuple)):
            return Ref('list' if isinstance(e, ast.List) else 'tuple', [self.ev(x) for x in e.elts])
        if isinstance(e, ast.Dict):
            return Ref('dict', {(self.ev(k) if k is not None else None): self.ev(v) for k, v in zip(e.keys, e.values)})
        if isinstance(e, ast.BoolOp):
            val = None
            for x in e.values:
                val = self.ev(x)
                if self.truth(val) is isinstance(e.op, ast.Or):
                    return val
            return val
        if isinstance(e, ast.UnaryOp):
            if isinstance(e.op, ast.Not):
                return not self.truth(self.ev(e.operand))
            val = self.ev(e.operand)
            if isinstance(e.op, ast.USub) and isinstance(val, (int, Lin)):
                return self.binop(ast.Sub(), 0, val, e)
            return Term(ast.unparse(e))
        if isinstance(e, ast.Compare):
            return self.compare(e)
        if isinstance(e, ast.IfExp):
            return self.ev(e.body if self.truth(self.ev(e.test)) else e.orelse)
        if isinstance(e, ast.BinOp):
            return self.binop(e.op, self.ev(e.left), self.ev(e.right), e)
        if isinstance(e, ast.JoinedStr):
            return "".join(v.value if isinstance(v, ast.Constant) else self.fill(self.ev(v.value)) for v in e.values)
        if isinstance(e, ast.Subscript):
            box = self.ev(e.value)
            if isinstance(e.slice, ast.Slice):
                return Term(ast.unparse(e))
            key = self.ev(e.slice)
            if isinstance(box, Ref) and box.kind in ('list', 'tuple') and isinstance(key, int) and -len(box.val) <= key < len(box.val):
                return box.val[key]
            if isinstance(box, Ref) and box.kind == 'dict':
                if isinstance(key, (str, int)) and key in box.val:
                    return box.val[key]
                known = self.facts.get(('item', id(box), self.show(key)))
                return known if known is not None else Term("item %s[%s]" % (ast.unparse(e.value), self.show(key)))
            return Term("%s[%s]" % (self.show(box), self.show(key)))
        if isinstance(e, ast.Call):
            return self.call(e)
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp)):
            return self.comp(e)
        if isinstance(e, ast.NamedExpr):
            val = self.ev(e.value)
            self.store(e.target, val)
            return val
        return Term(ast.unparse(e))

    def comp(self, e):
        gen = e.generators[0]
        if len(e.generators) == 1 and not gen.ifs and isinstance(e.elt, ast.Name) and isinstance(gen.target, ast.Name) and e.elt.id == gen.target.id:
            return Seq(self.mask_of(self.ev(gen.iter)))
        if len(e.generators) == 1 and len(gen.ifs) == 1 and isinstance(gen.ifs[0], ast.Compare) and isinstance(gen.target, ast.Name) \
                and isinstance(e.elt, ast.Name) and e.elt.id == gen.target.id and isinstance(gen.ifs[0].left, ast.Name) and gen.ifs[0].left.id == gen.target.id:
            a, b = self.mask_of(self.ev(gen.iter)), self.mask_of(self.ev(gen.ifs[0].comparators[0]))
            if isinstance(gen.ifs[0].ops[0], ast.NotIn):
                return Seq(a & ~b)
            if isinstance(gen.ifs[0].ops[0], ast.In):
                return Seq(a & b)
        return Term(ast.unparse(e))

    def mask_of(self, v):
        if isinstance(v, Seq):
            return v.mask
        if isinstance(v, Ref) and v.kind == 'set':
            return v.val
        if isinstance(v, Ref) and v.kind in ('list', 'tuple') and not v.val:
            return 0
        if isinstance(v, Term):
            return self.base.mask(v.text)
        raise Undecided("what %s holds" % self.show(v))

    @staticmethod
    def setop(op, a, b):
        if isinstance(op, ast.BitOr):
            return a | b
        if isinstance(op, ast.BitAnd):
            return a & b
        if isinstance(op, ast.Sub):
            return a & ~b
        if isinstance(op, ast.BitXor):
            return a ^ b
        raise Undecided("an operation on sets")

    def binop(self, op, a, b, e):
        if isinstance(a, Ref) and a.kind == 'set' and isinstance(b, Ref) and b.kind == 'set':
            return Ref('set', self.setop(op, a.val, b.val))
        if isinstance(a, (Seq, Ref)) and isinstance(b, (Seq, Ref)) and isinstance(op, ast.Add):
            x, y = self.mask_of(a), self.mask_of(b)
            if x & y & ~self.empty:
                raise Undecided("lists that may share elements are joined")
            return Seq(x | y)
        if isinstance(a, str) or isinstance(b, str):
            if isinstance(op, ast.Add):
                return self.fill(a) + self.fill(b)
            if isinstance(op, ast.Mult):
                return Term("text")
        if isinstance(a, (int, Lin)) and isinstance(b, (int, Lin)) and isinstance(op, (ast.Add, ast.Sub)):
            a, b = [x if isinstance(x, Lin) else Lin(int(x)) for x in (a, b)]
            got = a.plus(b, 1 if isinstance(op, ast.Add) else -1)
            return got if got.parts or got.i else got.const
        if isinstance(a, int) and isinstance(b, int):
            return Term("number")
        return Term("(%s %s %s)" % (self.show(a), type(op).__name__, self.show(b)))

    def compare(self, e):
        if len(e.ops) != 1:
            return Term(ast.unparse(e))
        a, b, op = self.ev(e.left), self.ev(e.comparators[0]), e.ops[0]
        neg = isinstance(op, (ast.NotEq, ast.IsNot, ast.NotIn))
        if isinstance(op, (ast.In, ast.NotIn)):
            if isinstance(b, Ref) and b.kind in ('list', 'tuple') and isinstance(a, Term) and all(isinstance(x, str) for x in b.val):
                return any(self.equal(a, x) for x in b.val) is not neg
            if isinstance(b, Ref) and b.kind == 'dict' and not isinstance(a, (str, int)) and ('item', id(b), self.show(a)) in self.facts:
                return not neg
            return self.fact(('in', self.show(a), self.show(b) if not isinstance(b, Ref) else ast.unparse(e.comparators[0]))) is not neg
        if isinstance(op, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)):
            return self.equal(a, b) is not neg
        if isinstance(a, (int, Lin)) and isinstance(b, (int, Lin)):
            d = self.binop(ast.Sub(), a, b, e)
            if isinstance(d, int):
                return {ast.Lt: d < 0, ast.LtE: d <= 0, ast.Gt: d > 0, ast.GtE: d >= 0}[type(op)]
            if d.const == 0 and isinstance(op, ast.Gt) and not d.i and all(n > 0 for n in d.parts.values()):
                return self.truth(d)
            if d.const == -1 and isinstance(op, ast.GtE) and not d.i and all(n > 0 for n in d.parts.values()):
                return self.truth(d.plus(Lin(1)))
            raise Undecided("a comparison")
        return self.fact(('cmp', type(op).__name__, self.show(a), self.show(b)))

    def equal(self, a, b):
        if isinstance(a, Term) and isinstance(b, Term):
            return a.text == b.text or self.fact(('eq',) + tuple(sorted((a.text, b.text))))
        if isinstance(b, Term):
            a, b = b, a
        if isinstance(a, Term):
            if b is None:
                return self.fact(('none', a.text))
            known = [v for (k, t, v), yes in [(k, y) for k, y in self.facts.items() if k[0] == 'is'] if t == a.text and yes]
            if known:
                return known[0] == b
            return self.fact(('is', a.text, b if isinstance(b, (str, int)) else self.show(b)))
        if isinstance(a, (int, Lin)) and isinstance(b, (int, Lin)) and not isinstance(a, bool):
            d = self.binop(ast.Sub(), a, b, None)
            if isinstance(d, int):
                return d == 0
            return not self.truth(d)
        if isinstance(a, (Ref, Seq)) and isinstance(b, (Ref, Seq)):
            return not self.truth(Ref('set', self.mask_of(a) ^ self.mask_of(b)))
        if isinstance(a, (Ref, Seq, Elem)) or isinstance(b, (Ref, Seq, Elem)):
            return self.fact(('eq', self.show(a), self.show(b)))
        return a == b

    def show(self, v):
        if isinstance(v, Term):
            return v.text
        if isinstance(v, Ref):
            return "<%s>" % v.kind
        return repr(v) if isinstance(v, (str, int, type(None))) else "<%s>" % type(v).__name__

    def fill(self, v):
        """V in a text."""
        if isinstance(v, str):
            return v
        if isinstance(v, bool) or v is None:
            return str(v)
        if isinstance(v, int):
            return str(v)
        self.table.append(v)
        return "\3%d\4" % (len(self.table) - 1)

    # ---------------------------------------------------------------- calls
    def call(self, e):
        f = e.func
        if isinstance(f, ast.Name) and f.id not in self.env:
            args = [self.ev(a) for a in e.args] if f.id in ('set', 'sorted', 'list', 'len', 'enumerate', 'bool', 'str', 'tuple', 'frozenset', 'sum', 'isinstance') else None
            if f.id == 'dict' and not e.args and not e.keywords:
                return Ref('dict', {})
            if f.id in ('set', 'frozenset'):
                return Ref('set', self.mask_of(args[0]) if args else 0)
            if f.id in ('sorted', 'list', 'tuple'):
                if not args:
                    return Ref('list', [])
                if isinstance(args[0], Ref) and args[0].kind in ('list', 'tuple') and args[0].val:
                    return Ref('list', list(args[0].val))
                return Seq(self.mask_of(args[0]))
            if f.id == 'len' and args and isinstance(args[0], (Ref, Seq, Term)):
                if isinstance(args[0], Ref) and args[0].kind != 'set':
                    return len(args[0].val)
                got = size(self.mask_of(args[0]))
                return got if got.parts else 0
            if f.id == 'bool' and args:
                return self.truth(args[0])
            if f.id == 'str' and args:
                return self.fill(args[0])
            if f.id == 'enumerate' and args and isinstance(args[0], (Seq, Ref, Term)):
                first = 0
                for x in [a for a in e.args[1:]] + [k.value for k in e.keywords]:
                    first = self.ev(x)
                if isinstance(first, Lin):
                    raise Undecided("where a loop starts")
                return ('enum', self.mask_of(args[0]), first)
            if f.id == 'isinstance' and args:
                return self.fact(('isinstance', self.show(args[0]), ast.unparse(e.args[1]))) if isinstance(args[0], Term) else Term(ast.unparse(e))
        if isinstance(f, ast.Attribute):
            if f.attr == 'write' and e.args and self.is_file(f.value):
                self.written(e)
                return None
            if isinstance(f.value, ast.Constant) or f.attr in ('format', 'union', 'intersection', 'difference', 'symmetric_difference', 'copy', 'add', 'update', 'append',
                                                               'difference_update', 'intersection_update', 'clear', 'extend', 'setdefault', 'get', 'discard', 'isdisjoint', 'join'):
                got = self.method(e, f, self.ev(f.value))
                if got is not NotImplemented:
                    return got
        target = self.target(e)
        if target is not None:
            return self.inline(target, e)
        for a in list(e.args) + [k.value for k in e.keywords]:
            self.escaped(self.ev(a))
        return Term(self.call_text(e))

    def call_text(self, e):
        f = e.func
        name = self.show(self.ev(f.value)) + "." + f.attr if isinstance(f, ast.Attribute) else ast.unparse(f)
        return "%s(%s)" % (name, ", ".join([self.show(self.ev(a)) for a in e.args] + ["%s=%s" % (k.arg, self.show(self.ev(k.value))) for k in e.keywords]))

    def escaped(self, v):
        """A value is handed to a function that is not known."""

    def is_file(self, node):
        return True

    def written(self, e):
        text = self.ev(e.args[0])
        self.lines.append(('line', text if isinstance(text, str) else self.fill(text), self.node))

    def method(self, e, f, box):
        args = [self.ev(a) for a in e.args]
        if isinstance(box, str) and f.attr == 'format':
            vals = {str(i): a for i, a in enumerate(args)}
            vals.update({k.arg: self.ev(k.value) for k in e.keywords})
            auto = [0]

            def put(m):
                if m.group(0) in ("{{", "}}"):
                    return m.group(0)[0]
                key = m.group(1).split(":")[0]
                if key == "":
                    key = str(auto[0])
                    auto[0] += 1
                return self.fill(vals[key]) if key in vals else m.group(0)
            return re.sub(r"\{\{|\}\}|\{([^{}]*)\}", put, box)
        if isinstance(box, str):
            return Term("text")
        if isinstance(box, Ref) and box.kind == 'set':
            if f.attr in ('union', 'update'):
                mask = box.val
                for i, a in enumerate(args):
                    if f.attr == 'update' and isinstance(a, Term):
                        return self.added(e, f, box, a)
                    mask |= self.mask_of(a)
                if f.attr == 'union':
                    return Ref('set', mask)
                box.val = mask
                return None
            if f.attr in ('difference', 'intersection', 'symmetric_difference', 'difference_update', 'intersection_update'):
                mask = box.val
                for a in args:
                    m = self.mask_of(a)
                    mask = mask & ~m if 'diff' in f.attr and 'symm' not in f.attr else mask & m if 'inter' in f.attr else mask ^ m
                if f.attr.endswith('update'):
                    box.val = mask
                    return None
                return Ref('set', mask)
            if f.attr == 'copy':
                return Ref('set', box.val)
            if f.attr == 'clear':
                box.val = 0
                return None
            if f.attr == 'add':
                return self.added(e, f, box, args[0])
            if f.attr == 'isdisjoint':
                return not self.nonempty(box.val & self.mask_of(args[0]))
        if isinstance(box, Ref) and box.kind == 'list':
            if f.attr == 'append':
                box.val.append(args[0])
                return None
            if f.attr == 'extend' and isinstance(args[0], Ref) and args[0].kind in ('list', 'tuple'):
                box.val.extend(args[0].val)
                return None
            if f.attr == 'copy':
                return Ref('list', list(box.val))
        if isinstance(box, Seq) and f.attr == 'copy':
            return box
        if isinstance(box, Ref):
            if box.kind == 'dict' and f.attr in ('get', 'setdefault') and not isinstance(args[0], (str, int)):
                known = self.facts.get(('item', id(box), self.show(args[0])))
                if known is not None:
                    return known
                if f.attr == 'setdefault' and len(args) > 1:
                    self.facts[('item', id(box), self.show(args[0]))] = args[1]
                return Term("item %s[%s]" % (ast.unparse(f.value), self.show(args[0])))
            raise Undecided("%s of a %s" % (f.attr, box.kind))
        return NotImplemented

    def added(self, e, f, box, val):
        raise Undecided("an element is added")

    def target(self, e):
        f = e.func
        fi = self.stack[-1]
        if isinstance(f, ast.Name):
            got = self.env.get(f.id)
            if isinstance(got, FuncInfo):
                return got
            if f.id in self.env:
                return None
            got = self.p.resolve(fi.module, f.id)
            return got if isinstance(got, FuncInfo) else None
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and (f.value.id not in self.env or f.value.id in ('self', 'cls')):
            cls = fi.cls
            if f.value.id not in ('self', 'cls'):
                got = self.p.resolve(fi.module, f.value.id)
                if isinstance(got, Module):
                    return got.funcs.get(f.attr)
                cls = got if isinstance(got, ClassInfo) else None
            if cls is not None:
                return self.p.find_method(cls, f.attr)
        return None

    def worth(self, fi):
        """Is a function followed?"""
        return True

    def inline(self, fi, e):
        if len(self.stack) > 5 or fi in self.stack or not self.worth(fi):
            for a in list(e.args) + [k.value for k in e.keywords]:
                self.escaped(self.ev(a))
            return Term(self.call_text(e))
        params = list(fi.params)
        if fi.cls is not None and not fi.is_static and params[:1] in (['self'], ['cls']):
            params = params[1:]
        env = {}
        a = fi.node.args
        plain = [x.arg for x in a.posonlyargs + a.args]
        for n, d in list(zip(plain[len(plain) - len(a.defaults):], a.defaults)) + [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            env[n] = self.ev(d)
        for n, x in zip(params, e.args):
            env[n] = self.ev(x)
        for k in e.keywords:
            if k.arg:
                env[k.arg] = self.ev(k.value)
        for n in params:
            env.setdefault(n, Term(n))
        if fi.outer is not None:
            env = dict(self.env, **env)
        saved, node = self.env, self.node
        self.env = env
        self.stack.append(fi)
        got = self.block(fi.node.body)
        self.stack.pop()
        self.env, self.node = saved, node
        return got[1] if got is not None and got[0] == 'return' else None
