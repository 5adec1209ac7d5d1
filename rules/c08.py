"""C08: unit conversions are right and are applied in the right direction."""
import ast
import math
import re

from sa.absint import Interp, Rule, K, NONE, fragment, show, show_atom, mentions
from sa.callgraph import CallGraph
from sa.project import AnalysisBroken

# --------------------------------------------------------------- unit algebra
# name -> (scale to SI, offset to SI, dimension)
BASE = {
    "m": (1, 0, {"m": 1}), "g": (1e-3, 0, {"kg": 1}), "s": (1, 0, {"s": 1}),
    "K": (1, 0, {"K": 1}), "C": (1, 273.15, {"K": 1}), "mol": (1, 0, {"mol": 1}),
    "min": (60, 0, {"s": 1}), "h": (3600, 0, {"s": 1}), "hr": (3600, 0, {"s": 1}),
    "d": (86400, 0, {"s": 1}), "day": (86400, 0, {"s": 1}),
    "radian": (1, 0, {"rad": 1}), "rad": (1, 0, {"rad": 1}),
    "degree": (math.pi / 180, 0, {"rad": 1}), "degree_north": (math.pi / 180, 0, {"rad": 1}),
    "degree_east": (math.pi / 180, 0, {"rad": 1}), "degrees": (math.pi / 180, 0, {"rad": 1}),
    "Pa": (1, 0, {"kg": 1, "m": -1, "s": -2}), "bar": (1e5, 0, {"kg": 1, "m": -1, "s": -2}),
    "N": (1, 0, {"kg": 1, "m": 1, "s": -2}),
    "W": (1, 0, {"kg": 1, "m": 2, "s": -3}), "J": (1, 0, {"kg": 1, "m": 2, "s": -2}),
    "erg": (1e-7, 0, {"kg": 1, "m": 2, "s": -2}),
    "Hz": (1, 0, {"s": -1}), "one": (1, 0, {}), "percent": (1e-2, 0, {}), "frac": (1, 0, {}),
    "l": (1e-3, 0, {"m": 3}), "L": (1e-3, 0, {"m": 3}), "t": (1e3, 0, {"kg": 1}),
    "F": (5.0 / 9, 273.15 - 32 * 5.0 / 9, {"K": 1}),
}
PREFIX = {"n": 1e-9, "u": 1e-6, "m": 1e-3, "c": 1e-2, "d": 1e-1, "h": 1e2, "k": 1e3, "M": 1e6, "G": 1e9}
PREFIXABLE = {"m", "g", "s", "Pa", "W", "J", "mol", "bar", "N", "Hz", "l", "L", "K"}


def unit_of(name):
    """(scale, offset, dimension) of a unit spelt as an identifier, or None."""
    if name in BASE:
        return BASE[name]
    scale, dims, off, first = 1.0, {}, 0, True
    words = re.findall(r"_?minus_\d+|_?plus_\d+|[A-Za-z]+(?:_north|_east)?\d*|_", name)
    if "".join(words) != name:
        return None
    factors = []
    for word in words:
        if word == "_":
            continue
        if "minus_" in word or "plus_" in word:
            if not factors:
                return None
            factors[-1][1] = int(word.rsplit("_", 1)[1]) * (-1 if "minus" in word else 1)
            continue
        mat = re.match(r"([A-Za-z_]+?)(\d*)$", word)
        factors.append([mat.group(1), int(mat.group(2) or 1)])
    for sym, power in factors:
        if sym in BASE:
            unit = BASE[sym]
        elif sym[:1] in PREFIX and sym[1:] in PREFIXABLE:
            unit = BASE[sym[1:]]
            unit = (unit[0] * PREFIX[sym[0]], unit[1], unit[2])
        else:
            return None
        if unit[1] and (len(factors) > 1 or power != 1):
            unit = (unit[0], 0, unit[2])
        scale *= unit[0] ** power
        off = unit[1]
        for dim, num in unit[2].items():
            dims[dim] = dims.get(dim, 0) + num * power
    return scale, off, {d: n for d, n in dims.items() if n}


class Formula:
    """A conversion formula as an affine function a*{var} + b."""
    TOKEN = re.compile(r"\s*(?:(\{var\})|(\d+(?:\.\d*)?(?:[EeDd][-+]?\d+)?|\.\d+(?:[EeDd][-+]?\d+)?)(\{kind\})?"
                       r"|(\*\*|[-+*/()]))")

    def __init__(self, text):
        self.text = text
        self.problems = []
        self.toks = []
        pos = 0
        while pos < len(text.rstrip()):
            mat = self.TOKEN.match(text, pos)
            if mat is None:
                raise ValueError("not an affine formula")
            if mat.group(1):
                self.toks.append(("var", None))
            elif mat.group(2):
                num = mat.group(2)
                if not mat.group(3):
                    self.problems.append("the literal %s does not carry {kind}" % num)
                elif not re.search(r"[.EeDd]", num):
                    self.problems.append("the integer literal %s carries a real kind" % num)
                elif re.search(r"[Dd]", num):
                    self.problems.append("the literal %s has a D exponent and a kind" % num)
                self.toks.append(("num", float(num.lower().replace("d", "e"))))
            else:
                self.toks.append(("op", mat.group(4)))
            pos = mat.end()
        self.pos = 0
        self.value = self.add()
        if self.pos != len(self.toks):
            raise ValueError("not an affine formula")
        if len([t for t in self.toks if t[0] == "var"]) != 1:
            self.problems.append("{var} does not occur exactly once")

    def peek(self, *ops):
        return self.pos < len(self.toks) and self.toks[self.pos][0] == "op" and self.toks[self.pos][1] in ops

    def take(self):
        tok = self.toks[self.pos]
        self.pos += 1
        return tok

    def add(self):
        if self.peek("-", "+"):
            sign = -1 if self.take()[1] == "-" else 1
            left = self.mul()
            left = (sign * left[0], sign * left[1])
        else:
            left = self.mul()
        while self.peek("+", "-"):
            sign = -1 if self.take()[1] == "-" else 1
            right = self.mul()
            left = (left[0] + sign * right[0], left[1] + sign * right[1])
        return left

    def mul(self):
        left = self.atom()
        while self.peek("*", "/"):
            oper = self.take()[1]
            right = self.atom()
            if oper == "*":
                if left[0] and right[0]:
                    raise ValueError("not an affine formula")
                left = (left[0] * right[1] + right[0] * left[1], left[1] * right[1])
            else:
                if right[0] or not right[1]:
                    raise ValueError("not an affine formula")
                left = (left[0] / right[1], left[1] / right[1])
        return left

    def atom(self):
        if self.pos >= len(self.toks):
            raise ValueError("not an affine formula")
        kind, val = self.take()
        if kind == "var":
            return (1.0, 0.0)
        if kind == "num":
            return (0.0, val)
        if val == "(":
            inner = self.add()
            if not self.peek(")"):
                raise ValueError("not an affine formula")
            self.take()
            return inner
        raise ValueError("not an affine formula")


def close(a, b, scale=1.0):
    return abs(a - b) <= 1e-9 * max(abs(a), abs(b), scale * 1e-3)


def table(ctx, p, mod):
    """The conversion formulas against the units they are named after."""
    ctx.rule("formula", "the text a conversion function A__to__B returns is an affine function of {var} whose "
             "literals carry {kind} and that equals the conversion between the two units; where it uses a function "
             "instead, it is not decided")
    ctx.rule("inverse", "every conversion has a reverse conversion and the two compose to the identity")
    forms = {}
    names = {}
    for name in mod.funcs:
        if "__to__" in name:
            names[name] = mod.funcs[name]
    # aliases at module level: a__to__b = c__to__d
    for node in mod.tree.body:
        if isinstance(node, ast.Assign) and isinstance(node.value, ast.Name) and node.value.id in mod.funcs:
            for tgt in node.targets:
                if isinstance(tgt, ast.Name) and "__to__" in tgt.id:
                    names[tgt.id] = mod.funcs[node.value.id]
    for name, fi in sorted(names.items()):
        ctx.saw(fi)
        ip = Interp(p, Rule())
        ex = ip.run(fi)
        vals = {v for _, v, _ in ex.ret}
        key = name
        if len(vals) != 1 or ex.exc:
            ctx.bad("formula", key, "the conversion does not return one text", fi.where())
            continue
        val = vals.pop()
        if val[0] != 'k' or val[1] != 'str':
            if val == NONE:
                ctx.bad("formula", key, "the conversion returns nothing", fi.where())
            else:
                ctx.notes.append("%s: formula not constant, not decided" % name)
            continue
        src, _, dst = name.partition("__to__")
        try:
            form = Formula(val[2])
        except ValueError:
            if not val[2].count("{var}"):
                ctx.bad("formula", key, "formula '%s' does not use {var}" % val[2], fi.where())
            else:
                ctx.notes.append("%s: formula '%s' is not affine, not decided" % (name, val[2]))
            continue
        forms[name] = form
        a, b = form.value
        for prob in form.problems:
            ctx.bad("formula", key, "formula '%s': %s" % (val[2], prob), fi.where())
        us, ud = unit_of(src), unit_of(dst)
        if us is None or ud is None:
            ctx.notes.append("%s: unit not known to the oracle, only its inverse is checked" % name)
            ctx.ok("formula", key, fi.where())
            continue
        if us[2] != ud[2]:
            ctx.bad("formula", key, "%s and %s are not the same physical dimension" % (src, dst), fi.where())
            continue
        want_a, want_b = us[0] / ud[0], (us[1] - ud[1]) / ud[0]
        ctx.check(abs(a - want_a) <= 1e-9 * abs(want_a) and close(b, want_b), "formula", key,
                  "'%s' is %.12g*x%+.12g, but %s to %s is %.12g*x%+.12g" % (val[2], a, b, src, dst, want_a, want_b),
                  fi.where())
    for name, form in sorted(forms.items()):
        src, _, dst = name.partition("__to__")
        back = "%s__to__%s" % (dst, src)
        if back not in names:
            ctx.bad("inverse", name, "there is no reverse conversion %s" % back, names[name].where())
            continue
        if back not in forms:
            continue
        a, b = form.value
        c, d = forms[back].value
        ctx.check(close(a * c, 1.0) and close(c * b + d, 0.0), "inverse", name,
                  "'%s' followed by '%s' is not the identity" % (form.text, forms[back].text),
                  names[name].where())
    ctx.at_least("formula", 30)
    ctx.at_least("inverse", 30)
    return names


# ------------------------------------------------------- which function is used
def conv_name(val):
    """The (source, target) unit terms of the name of a conversion, in order."""
    if val[0] == 's':
        text = [x if isinstance(x, str) else None for x in val[1]]
        if "__to__" in text:
            i = text.index("__to__")
            return val[1][:i], val[1][i + 1:]
    if val[0] == 'k' and isinstance(val[2], str) and "__to__" in val[2]:
        return tuple(val[2].split("__to__"))
    return None


class Lookup(Rule):
    """getattr(unit_conversion, NAME) becomes a term that carries NAME."""
    def on_call(self, ip, st, node, name, target, recv, args, kwargs):
        if name == 'getattr' and len(args) >= 2:
            got = conv_name(args[1])
            if got is not None:
                return [(st, ('convfn', got))]
            return None
        short = getattr(target, "name", name.split(".")[-1])
        if short in ('string_to_python_identifier', 'units_to_string'):
            return [(st, ('ident', args[0]))]
        if short == '<expr>' or isinstance(node.func, (ast.Name, ast.Call)):
            fval = self.callee(ip, st, node)
            if fval is not None:
                return [(st, ('conv', fval[1]))]
        return None

    @staticmethod
    def callee(ip, st, node):
        if isinstance(node.func, ast.Name):
            val = st.env.get(node.func.id)
            if val is not None and val[0] == 'convfn':
                return val
        elif isinstance(node.func, ast.Call):
            for _, val in ip.ev(node.func, st):
                if val[0] == 'convfn':
                    return val
        return None


def ends(val):
    """(source term, target term) of a conversion value."""
    if val[0] != 'conv':
        return None
    one = [x for x in val[1][0] if isinstance(x, tuple)]
    two = [x for x in val[1][1] if isinstance(x, tuple)]
    if len(one) == 1 and len(two) == 1:
        return one[0], two[0]
    return None


def mkcap_side(ctx, p):
    """Which formula a ccpp_prebuild variable registers for which direction."""
    ctx.rule("registered", "a prebuild variable stores a formula from the other units to its own units as the action "
             "'in' and from its own units to the other ones as the action 'out'")
    found = 0
    mod = p.mod("mkcap")
    for fi in mod.all_funcs():
        if fi.cls is None or fi.outer is not None:
            continue
        if not any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'getattr'
                   for n in ast.walk(fi.node)) and not any(
                isinstance(n, ast.Attribute) and n.attr == '_actions' and fi.name.startswith('convert')
                for n in ast.walk(fi.node)):
            continue
        stores = []

        class Rec(Lookup):
            def on_store(self, ip, st, node, kind, base, key, val):
                if kind == 'item' and key[0] == 'k' and key[2] in ('in', 'out') and mentions_attr(base, 'actions'):
                    stores.append((key[2], val, node))
                return st
        ip = Interp(p, Rec())
        ex = ip.run(fi)
        for which, val, node in stores:
            got = ends(val)
            if got is None:
                continue
            found += 1
            own = ['units' if mentions_attr(x, 'units') and mentions(x, ('param', 'self')) else 'other' for x in got]
            want = ['other', 'units'] if which == 'in' else ['units', 'other']
            ctx.saw(fi)
            ctx.check(own == want, "registered", "%s:%s" % (fi.qualname, which),
                      "the action '%s' converts from %s to %s" % (which, show(got[0]), show(got[1])),
                      fi.where(node))
        if stores and ex.ret:
            # every normal exit has stored a conversion
            pass
    ctx.at_least("registered", 2)


def mentions_attr(val, *names):
    if not isinstance(val, (tuple, frozenset)):
        return False
    if isinstance(val, tuple) and len(val) == 3 and val[0] == 'attr' and val[2].lstrip("_") in names:
        return True
    return any(mentions_attr(x, *names) for x in val if isinstance(x, (tuple, frozenset)))


class Intent(Rule):
    """compare_metadata: conversions by intent of the requesting subroutine."""
    merge = True
    merge_over = 1
    keep_none = True
    liveness = True
    text = False
    max_depth = 3

    def __init__(self, ctx):
        self.ctx = ctx
        self.seen = {}
        self.calls = 0

    def inline(self, fi, depth):
        return fi.module.name == "ccpp_prebuild"

    def on_call(self, ip, st, node, name, target, recv, args, kwargs):
        short = getattr(target, "name", name.split(".")[-1])
        if short in ('convert_from', 'convert_to') and recv is not None:
            self.calls += 1
            other = args[0] if args else next(iter(kwargs.values()), NONE)
            good = mentions_attr(other, 'units') and mentions(other, ('param', 'metadata_define'))
            self.ctx.check(good, "by-intent", "%s:units@%s" % (ip.fi.qualname, short),
                           "%s is called with %s, not with the units of the host variable" % (short, show(other)),
                           ip.fi.where(node))
            return [(st.with_ts(st.ts | {('did', short)}), NONE)]
        return None

    def on_assume(self, ip, st, atom, val):
        if atom[0] == 'eq':
            sides = atom[1:]
            consts = [x[2] for x in sides if x[0] == 'k' and x[1] == 'str']
            if consts and any(mentions_attr(x, 'intent') for x in sides):
                return st.with_ts(st.ts | {('intent', consts[0], val)})
            if all(mentions_attr(x, 'units') for x in sides):
                return st.with_ts(st.ts | {('same', val)})
        if atom[0] == 'in' and mentions_attr(atom[1], 'intent') and atom[2][0] == 'l':
            elts = [e[2] for e in atom[2][1] if e[0] == 'k']
            if not val:
                return st.with_ts(st.ts | {('intent', e, False) for e in elts})
            return st.with_ts(st.ts | {('intentin', tuple(sorted(elts)))})
        return st

    def oracle(self, ip, st, atom):
        if atom[0] == 'eq' and any(mentions_attr(x, 'intent') for x in atom[1:]):
            for fact in st.ts:
                if fact[0] == 'intent' and fact[2] and K(fact[1]) not in atom[1:] and any(
                        x[0] == 'k' for x in atom[1:]):
                    return False
                if fact[0] == 'intentin' and not any(K(e) in atom[1:] for e in fact[1]):
                    return False
        return None

    def iter_start(self, ip, st, node):
        return st.with_ts(frozenset())

    def iter_end(self, ip, st, node):
        ts = st.ts
        did = {f[1] for f in ts if f[0] == 'did'}
        if not did and not any(f[0] == 'same' for f in ts):
            return st.with_ts(frozenset())
        where = ip.fi.where(node)
        if ('same', True) in ts:
            self.verdict(not did, "equal units", "a conversion is registered although the units are equal", where)
        elif ('same', False) in ts:
            poss = {'in', 'out', 'inout'}
            for f in ts:
                if f[0] == 'intent':
                    poss = (poss & {f[1]}) if f[2] else (poss - {f[1]})
                elif f[0] == 'intentin':
                    poss &= set(f[1])
            for intent in sorted(poss):
                need = {'in': {'convert_from'}, 'out': {'convert_to'},
                        'inout': {'convert_from', 'convert_to'}}[intent]
                self.verdict(did == need, "intent " + intent,
                             "units differ and intent is %s, but %s is registered" % (
                                 intent, ", ".join(sorted(did)) or "nothing"), where)
        elif did:
            self.verdict(False, "unconditional", "conversions are registered without comparing the units", where)
        return st.with_ts(frozenset())

    def iter_break(self, ip, st, node):
        if any(f[0] in ('did', 'same') for f in st.ts):
            self.verdict(False, "every request", "the remaining requests for the variable are not looked at", ip.fi.where(node))
        return st

    def verdict(self, good, what, msg, where):
        key = "compare_metadata:" + what
        self.seen[key] = self.seen.get(key, True) and good
        self.ctx.check(self.seen[key], "by-intent", key, msg, where)


def prebuild_side(ctx, p):
    ctx.rule("by-intent", "for every requested variable whose units differ from the host's, conversion before the "
             "call is registered iff the subroutine reads it and conversion after the call iff it writes it, against "
             "the host's units")
    cg = CallGraph(p)
    roots = [fi for fi in p.mod("ccpp_prebuild").all_funcs()
             if any(isinstance(n, ast.Attribute) and n.attr in ('convert_from', 'convert_to')
                    for n in ast.walk(fi.node))]
    if not roots:
        raise AnalysisBroken("no use of convert_from/convert_to in ccpp_prebuild")
    try:
        start = p.func("ccpp_prebuild", "compare_metadata")
    except AnalysisBroken:
        start = roots[0]
    rule = Intent(ctx)
    ip = Interp(p, rule)
    ip.run(start, ts=frozenset())
    for ident in ip.visited:
        ctx.saw(ident)
    if not rule.calls:
        raise AnalysisBroken("compare_metadata does not reach convert_from/convert_to")
    ctx.at_least("by-intent", 5)


# ------------------------------------------------------------------- mkstatic
def conv_event(node):
    """A use of a registered conversion, or the template of a scheme call."""
    if isinstance(node, ast.JoinedStr):
        return bool(re.search(r"(?m)^\s*call\s", "".join(
            str(x.value) if isinstance(x, ast.Constant) else "{}" for x in node.values)))
    if not isinstance(node, ast.Call):
        return False
    if isinstance(node.func, ast.Attribute) and node.func.attr == 'format':
        if isinstance(node.func.value, ast.Constant):
            return isinstance(node.func.value.value, str) and bool(
                re.search(r"(?m)^\s*call\s", node.func.value.value))
        return any(isinstance(n, ast.Attribute) and n.attr == 'actions' for n in ast.walk(node.func.value))
    return False


class Apply(Rule):
    """Group.write: where the conversion texts end up relative to the call."""
    merge = True
    merge_over = 1
    keep_none = False
    liveness = True
    max_depth = 3
    loop_rounds = 3
    chop = True
    MARKS = re.compile(r"(?m)^\s*call\s")

    def __init__(self, ctx):
        self.ctx = ctx
        self.applied = {'in': 0, 'out': 0}
        self.placed = 0
        self.done = set()

    def fold(self, text):
        return tuple('CALL' for _ in self.MARKS.findall(text))

    def fold_value(self, val):
        return ()

    def fold_norm(self, marks):
        out = []
        for m in marks:
            if m not in out[-2:]:
                out.append(m)
        return tuple(out[:6])

    def slice_events(self, fi):
        return conv_event

    def inline(self, fi, depth):
        return fi.module.name == "mkstatic" and fi.name != "write" and depth < 2 and any(
            isinstance(n, ast.Attribute) and n.attr == 'actions' for n in ast.walk(fi.node))

    @staticmethod
    def direction(val):
        """'in'/'out' if VAL is an entry of a variable's actions."""
        if val is not None and val[0] == 'item' and mentions_attr(val[1], 'actions') and val[2][0] == 'k':
            return val[2][2]
        return None

    def on_call(self, ip, st, node, name, target, recv, args, kwargs):
        if name.split(".")[-1] == 'format' and recv is not None:
            way = self.direction(recv)
            if way in ('in', 'out'):
                self.applied[way] += 1
                var = kwargs.get('var', NONE)
                kind = kwargs.get('kind', NONE)
                site = "%s:%s" % (ip.fi.qualname, way)
                if var == NONE or kind == NONE:
                    self.ctx.bad("applied", site, "the formula is not given both var and kind", ip.fi.where(node))
                else:
                    self.ctx.ok("applied", site, ip.fi.where(node))
                st = st.with_ts(st.ts | {('did', way)})
                return [(st, ('t', (way,), True))]
        return None

    def on_assume(self, ip, st, atom, val):
        if atom[0] == 'truth':
            way = self.direction(atom[1])
            if way:
                return st.with_ts((st.ts - {('need', way, not val)}) | {('need', way, val)})
        return st

    def on_bound(self, ip, st, node, name, val):
        for alt in (val[1] if val[0] == 'j' else (val,)):
            if alt[0] == 't' and 'CALL' in alt[1] and ('in' in alt[1] or 'out' in alt[1]):
                self.placed += 1
                pos = alt[1].index('CALL')
                good = 'out' not in alt[1][:pos] and 'in' not in alt[1][pos + 1:]
                if not good and any(m == 'CALL' for m in alt[1][pos + 1:]):
                    continue     # several calls in a row
                self.ctx.check(good, "placed", "%s:%s" % (ip.fi.qualname, name),
                               "conversion texts and the call are assembled in the order %s" % (alt[1],),
                               ip.fi.where(node))
                st = st.bind(name, ('t', (), True))
        return st

    def iter_start(self, ip, st, node):
        return st.with_ts(frozenset(e for e in st.ts if e[0] not in ('did', 'need')))

    def iter_end(self, ip, st, node):
        for way in ('in', 'out'):
            if ('need', way, True) in st.ts:
                self.ctx.check(('did', way) in st.ts, "applied", "%s:needed %s" % (ip.fi.qualname, way),
                               "a registered conversion '%s' is not applied" % way, ip.fi.where(node))
        return self.iter_start(ip, st, node)


def mkstatic_side(ctx, p):
    ctx.rule("applied", "the registered formulas are applied with var= and kind=, whenever they are registered")
    ctx.rule("placed", "texts that convert to the scheme's units stand before the call, texts that convert back "
             "stand after it")
    funcs = [fi for fi in p.mod("mkstatic").all_funcs()
             if any(isinstance(n, ast.Subscript) and isinstance(n.value, ast.Attribute) and n.value.attr == 'actions'
                    for n in ast.walk(fi.node))]
    # start from the outermost function that assembles the call
    cg = CallGraph(p)
    roots = [fi for fi in p.mod("mkstatic").all_funcs() if any(
        isinstance(n, ast.Constant) and isinstance(n.value, str) and re.search(r"(?m)^\s*call\s+\{", n.value)
        and re.search(r"actions|\}\s*\n\s*\n?\s*call", n.value) for n in ast.walk(fi.node))]
    starts = [fi for fi in roots if fi in funcs or cg.closure([fi]) & set(funcs)]
    if not starts:
        raise AnalysisBroken("no function of mkstatic both converts units and assembles the call")
    for fi in starts:
        rule = Apply(ctx)
        ip = Interp(p, rule)
        frag, env = fragment(fi, lambda n: conv_event(n) or (
            isinstance(n, ast.Call) and any(g in funcs for g in cg.resolve_call(fi, n))))
        ip.run(frag, args=env, ts=frozenset())
        for ident in ip.visited:
            ctx.saw(ident)
        ctx.count("conversion texts", rule.applied['in'] + rule.applied['out'])
        for way in ('in', 'out'):
            ctx.check(rule.applied[way] > 0, "applied", "%s:some %s" % (fi.qualname, way),
                      "no registered conversion '%s' is applied" % way, fi.where())
        ctx.check(rule.placed > 0, "placed", "%s:some" % fi.qualname,
                  "no conversion text reaches the call", fi.where())


# --------------------------------------------------------------------- capgen
def capgen_table(ctx, p, cls):
    """The pair of formulas of a VarCompatObj and how it is used."""
    ctx.rule("pair", "the conversion pair of a VarCompatObj is (variable 1 to variable 2, variable 2 to variable 1)")
    mod = p.mod("var_props")
    getters = {}
    for fi in mod.all_funcs():
        if fi.cls is None or fi.outer is not None or not any(
                isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'getattr' and
                isinstance(n.args[0], ast.Name) and 'conver' in n.args[0].id for n in ast.walk(fi.node)):
            continue
        ip = Interp(p, Lookup())
        ex = ip.run(fi)
        ctx.saw(fi)
        for _, val, node in ex.ret:
            got = [ends(x) for x in val[1]] if val[0] == 'l' else [ends(val)]
            if None in got or not all(isinstance(e, tuple) for pair in got for e in pair):
                ctx.bad("pair", fi.qualname, "returns %s, not conversions" % show(val), fi.where(node))
                continue
            # the units themselves, as parameters
            names = [tuple(first_param(e, fi) for e in pair) for pair in got]
            getters[fi] = names
    if not getters:
        raise AnalysisBroken("no function of var_props looks conversions up")
    for fi, names in sorted(getters.items(), key=lambda x: x[0].ident):
        good = len(names) == 2 and names[0] == tuple(reversed(names[1])) and None not in names[0] and \
            names[0][0] != names[0][1]
        ctx.check(good, "pair", "%s:order" % fi.qualname,
                  "the pair converts %s" % "; ".join("%s to %s" % n for n in names), fi.where())
        if not good:
            continue
        src, dst = names[0]
        used = []

        class Site(Rule):
            merge = True
            merge_over = 1
            liveness = True

            def slice_events(self, inner):
                return lambda n: isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
                    n.func.attr == fi.name

            def inline(self, inner, depth):
                return False

            def on_call(self, ip, st, node, name, target, recv, args, kwargs):
                if target is fi or name.split(".")[-1] == fi.name:
                    prm = [x for x in fi.params if x != 'self']
                    bound = dict(zip(prm, args))
                    bound.update(kwargs)
                    used.append((node, bound))
                    return [(st, ('pair', 'units'))]
                return None

        for caller in mod.all_funcs():
            if caller.name == "__init__" and caller.cls is not None and caller.cls is fi.cls:
                ip = Interp(p, Site())
                ip.run(caller)
                ctx.saw(caller)
                for node, bound in used:
                    one, two = (unit_param(bound.get(x, NONE), caller) for x in (src, dst))
                    good = one is not None and two is not None and '1' in one and '2' in two
                    ctx.check(good, "pair", "%s:call" % caller.qualname,
                              "the lookup is called with %s and %s" % (show(bound.get(src, NONE)), show(
                                  bound.get(dst, NONE))), caller.where(node))
    ctx.at_least("pair", 2)


def first_param(val, fi):
    """The one parameter of FI that VAL depends on."""
    got = {x for x in fi.params if x != 'self' and mentions(val, ('param', x))}
    return got.pop() if len(got) == 1 else None


def unit_param(val, fi):
    got = {x for x in fi.params if x != 'self' and mentions(val, ('param', x))}
    if len(got) == 1 and 'unit' in next(iter(got)):
        return got.pop()
    return None


def items_of(val, attr, out):
    """Collect the constant indices with which attribute ATTR is subscripted in VAL."""
    if isinstance(val, (tuple, frozenset)):
        if isinstance(val, tuple) and len(val) == 3 and val[0] == 'item' and mentions_suffix(val[1], attr):
            out.add(val[2][2] if val[2][0] == 'k' else '?')
        for x in val:
            items_of(x, attr, out)
    return out


def mentions_suffix(val, attr):
    return isinstance(val, tuple) and len(val) == 3 and val[0] == 'attr' and val[2].endswith(attr)


def attrs_of(val, out):
    if isinstance(val, (tuple, frozenset)):
        if isinstance(val, tuple) and len(val) == 3 and val[0] == 'attr':
            out.add(val[2])
        for x in val:
            attrs_of(x, out)
    return out


def flat(val):
    """Parts of an assembled string, nested strings spliced in."""
    if val[0] == 's':
        out = []
        for x in val[1]:
            if isinstance(x, str):
                out.append(x)
            else:
                out += flat(x)
        return out
    if val[0] == 'k' and isinstance(val[2], str):
        return [val[2]]
    return [val]


def capgen_statement(ctx, p):
    """The assignment that a transform writes."""
    ctx.rule("assignment", "forward_transform assigns variable 2 from variable 1 with the formula and the kind of "
             "variable 2, reverse_transform the other way round; each name carries its own indices, and a registered "
             "conversion is never left out")
    for name, unit, kind, own in (("forward_transform", 0, 1, "2"), ("reverse_transform", 1, 0, "1")):
        fi = p.func("var_props", "VarCompatObj." + name)
        ctx.saw(fi)
        prm = [x for x in fi.params if x != 'self']
        want = ["lvar_lname", "rvar_lname", "rvar_indices", "lvar_indices"]
        if not all(w in prm for w in want):
            want = prm[:4]
        lvar, rvar, rind, lind = (('param', w) for w in want)
        ip = Interp(p, Lookup())
        ex = ip.run(fi)
        site = fi.qualname
        probs = {}
        for st, val, node in ex.ret:
            parts = flat(val)
            cut = [i for i, x in enumerate(parts) if isinstance(x, str) and re.search(r"\s=(\s|$)", x)]
            if len(cut) != 1:
                probs["does not return one assignment: %s" % show(val)] = node
                continue
            lhs, rhs = parts[:cut[0]], parts[cut[0] + 1:]
            if not (lhs and lhs[0] == lvar) or any(mentions(x, rvar) or mentions(x, rind) for x in lhs):
                probs["the left-hand side is %s" % show(('s', tuple(lhs)))] = node
            if not any(mentions(x, rvar) for x in rhs) or any(mentions(x, lvar) or mentions(x, lind) for x in rhs):
                probs["the right-hand side is %s" % show(('s', tuple(rhs)))] = node
            left = any(mentions(x, lind) for x in lhs)
            if left != any(mentions(x, rind) for x in rhs):
                probs["only one side is subscripted"] = node
            units = items_of(tuple(rhs), 'unit_transforms', set())
            kinds = items_of(tuple(rhs), 'kind_transforms', set())
            if units - {unit}:
                probs["the formula used is number %s of the pair" % sorted(units, key=str)] = node
            if kinds - {kind}:
                probs["the kind used is number %s of the pair" % sorted(kinds, key=str)] = node
            names = {a for a in attrs_of(tuple(rhs), set()) if a.endswith('_kind')}
            if any(not a.endswith('v%s_kind' % own) for a in names):
                probs["the kind of the literals is %s" % sorted(names)] = node
            for suffix, present in (('unit_transforms', units), ('kind_transforms', kinds)):
                if present:
                    continue
                excused = any(atom[0] == 'isnone' and mentions_suffix(atom[1], suffix) and pos or
                              atom[0] == 'truth' and mentions_suffix(atom[1], suffix) and not pos
                              for atom, pos in st.preds.items())
                if not excused:
                    probs["the %s are ignored on a path" % suffix] = node
        if not ex.ret:
            raise AnalysisBroken("%s does not return" % site)
        for what, node in probs.items():
            ctx.bad("assignment", "%s:%s" % (site, what[:40]), what, fi.where(node))
        if not probs:
            ctx.ok("assignment", site, fi.where())


class Register(Rule):
    """Collects what is appended to which attribute for one intent."""
    merge = False

    def __init__(self, intent):
        self.intent = intent

    def inline(self, fi, depth):
        return False

    def on_call(self, ip, st, node, name, target, recv, args, kwargs):
        short = name.split(".")[-1]
        if short == 'get_prop_value' and args and args[0] == K('intent'):
            return [(st, K(self.intent))]
        if short == 'append' and recv is not None and recv[0] == 'attr' and recv[1] == ('param', 'self') and args:
            return [(st.with_ts(st.ts + ((recv[2], args[0], ip.fi.where(node)),)), NONE)]
        return None


class Emit(Rule):
    """Scheme.write: the transforms before and after the call."""
    merge = True
    merge_over = 1
    liveness = True
    max_depth = 3
    text = True

    def __init__(self, intent, lists):
        self.intent = intent
        self.lists = lists
        self.calls = 0
        self.seen = []

    def inline(self, fi, depth):
        if fi.module.name != "suite_objects":
            return False
        return any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and (
            n.func.attr in ('forward_transform', 'reverse_transform')) for n in ast.walk(fi.node))

    def on_call(self, ip, st, node, name, target, recv, args, kwargs):
        short = name.split(".")[-1]
        if short in ('forward_transform', 'reverse_transform'):
            prm = ["lvar_lname", "rvar_lname", "rvar_indices", "lvar_indices"]
            bound = dict(zip(prm, args))
            bound.update(kwargs)
            self.seen.append((short, recv, bound, ip.fi.where(node)))
            return [(st, ('stmt', short))]
        if short == 'write' and args:
            if args[0] == ('stmt', 'forward_transform') or args[0] == ('stmt', 'reverse_transform'):
                return [(st.with_ts(self.step(st.ts, args[0][1], ip.fi.where(node))), NONE)]
            text = flat(args[0])
            if args[0][0] in ('s', 'k') and isinstance(text[0], str) and text[0].lstrip().startswith("call "):
                self.calls += 1
                return [(st.with_ts(self.step(st.ts, 'CALL', ip.fi.where(node))), NONE)]
        if short == 'call_string':
            subs = kwargs.get('sub_lname_list', args[3] if len(args) > 3 else NONE)
            self.seen.append(('call_string', recv, subs, ip.fi.where(node)))
        return None

    def on_attr(self, ip, st, node, base, attr):
        if base == ('param', 'self'):
            got = self.lists.get(attr)
            return None if got is None else [(st, got)]
        return None

    def step(self, ts, what, where):
        return ts if what in ts else ts + (what,)


def capgen_side(ctx, p):
    capgen_table(ctx, p, "VarCompatObj")
    capgen_statement(ctx, p)
    ctx.rule("direction", "for a scheme argument that needs a transform, the reverse transform (host to local copy) is "
             "written before the call iff the scheme reads it, the forward transform (local copy to host) after the "
             "call iff the scheme writes it, and the call is passed the local copy")
    reg = p.func("suite_objects", "Scheme.add_var_transform")
    wri = p.func("suite_objects", "Scheme.write")
    ctx.saw(reg)
    capgen_needed(ctx, p, reg)
    lists = {n.attr for fi in p.mod("suite_objects").all_funcs() if fi.cls is reg.cls and fi.cls is not None
             for n in ast.walk(fi.node) if isinstance(n, ast.Attribute) and n.attr.endswith("_transforms")}
    for intent in ('in', 'inout', 'out'):
        ip = Interp(p, Register(intent))
        ex = ip.run(reg, ts=())
        sets = {tuple((a, v) for a, v, _ in st.ts if v[0] == 'l') for st, _, _ in ex.ret}
        ways = {frozenset(a for a, _ in s) for s in sets}
        key = "intent %s" % intent
        if len(ways) != 1:
            ctx.bad("direction", key, "what is registered depends on more than the intent", reg.where())
            continue
        entries = sorted(sets, key=repr)
        for one in entries[:6]:
            content = {a: ('l', tuple(v for b, v in one if b == a), 'list') for a in
                       ("_Scheme" + x if x.startswith("__") else x for x in lists)}
            rule = Emit(intent, content)
            ip = Interp(p, rule)
            ex = ip.run(wri, ts=())
            for ident in ip.visited:
                ctx.saw(ident)
            want = {'in': ('reverse_transform', 'CALL'), 'out': ('CALL', 'forward_transform'),
                    'inout': ('reverse_transform', 'CALL', 'forward_transform')}[intent]
            got = {st.ts for st, _, _ in ex.ret if 'CALL' in st.ts}
            ctx.check(got == {want}, "direction", key,
                      "written for an argument of intent %s: %s" % (
                          intent, " or ".join(", ".join(g) for g in sorted(got)) or "no call"), wri.where())
            for what, recv, info, where in rule.seen:
                if what == 'call_string':
                    pairs = info[1] if info[0] == 'l' else ()
                    ok = pairs and all(x[0] == 'l' and len(x[1]) == 2 and asks(x[1][0], 'standard_name')
                                       and is_local(x[1][1]) for x in pairs)
                    ctx.check(bool(ok), "direction", key + ":argument",
                              "the call is not told to pass the local copy: %s" % show(info), where)
                    continue
                lv, rv = info.get('lvar_lname', NONE), info.get('rvar_lname', NONE)
                li, ri = info.get('lvar_indices', NONE), info.get('rvar_indices', NONE)
                loc, host = (lv, rv) if what == 'reverse_transform' else (rv, lv)
                good = is_local(loc) and not is_local(host) and mentions_call(host, 'find_variable') and \
                    recv == ('param', reg.params[2] if len(reg.params) > 2 else 'compat_obj')
                ctx.check(good, "direction", key + ":" + what,
                          "%s assigns %s from %s" % (what, show(lv), show(rv)), where)


class Needed(Rule):
    """Is a transform registered whenever one is needed?"""
    def __init__(self, name):
        self.name = name

    def inline(self, fi, depth):
        return False

    def on_call(self, ip, st, node, name, target, recv, args, kwargs):
        if name.split(".")[-1] == self.name:
            return [(st.with_ts(st.ts | {'registered'}), NONE)]
        return None


def capgen_needed(ctx, p, reg):
    ctx.rule("needed", "an argument whose compatibility object has a unit or kind transform gets one registered")
    found = 0
    for fi in p.mod("suite_objects").all_funcs():
        if not any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == reg.name
                   for n in ast.walk(fi.node)):
            continue
        found += 1
        frag, env = fragment(fi, lambda n: (isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and
                                            n.func.attr == reg.name) or
                             (isinstance(n, ast.Attribute) and n.attr in ('has_unit_transforms', 'has_kind_transforms')))
        rule = Needed(reg.name)

        def events(n):
            return (isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == reg.name)
        rule.slice_events = lambda inner: events
        rule.liveness = True
        rule.merge = False
        ip = Interp(p, rule)
        ex = ip.run(frag, args=env, ts=frozenset())
        ctx.saw(fi)
        bad = None
        for st, _, node in ex.ret:
            if 'registered' in st.ts:
                continue
            facts = {}
            for atom, pos in st.preds.items():
                if atom[0] in ('truth', 'isnone'):
                    facts[(atom[0], show(atom[1]).split(".")[-1])] = pos
            none = any(k[0] == 'isnone' and v and 'transform' not in k[1] for k, v in facts.items()) or any(
                k[0] == 'truth' and not v and 'transform' not in k[1] for k, v in facts.items())
            lacks = [any('transforms' in k[1] and w in k[1] and v == (k[0] == 'isnone') for k, v in facts.items())
                     for w in ('unit', 'kind')]
            if not none and not all(lacks):
                bad = ", ".join("%s%s" % ("" if pos else "not ", show_atom(a)) for a, pos in st.preds.items())
        ctx.check(bad is None, "needed", fi.qualname, "no transform is registered when %s" % bad, fi.where())
    ctx.at_least("needed", 1)


def asks(val, prop):
    return val[0] == 'call' and val[1] == 'get_prop_value' and val[3] and val[3][0] == K(prop)


def is_local(val):
    """The local name of a variable constructed for the transform?"""
    return asks(val, 'local_name') and val[2] is not None and (
        val[2][0] == 'new' or mentions_call(val[2], 'Var') or mentions_call(val[2], 'clone'))


def mentions_call(val, name):
    if not isinstance(val, (tuple, frozenset)):
        return False
    if isinstance(val, tuple) and len(val) == 4 and val[0] == 'call' and val[1] == name:
        return True
    return any(mentions_call(x, name) for x in val if isinstance(x, (tuple, frozenset)))


def check(ctx, p):
    mod = p.mod("conversion_tools.unit_conversion")
    table(ctx, p, mod)
    mkcap_side(ctx, p)
    prebuild_side(ctx, p)
    mkstatic_side(ctx, p)
    capgen_side(ctx, p)
