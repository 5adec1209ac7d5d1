"""C05: metadata with an invalid entry is rejected."""
import ast

from sa.absint import Interp, Rule, K, FALSE, NONE, mentions, show
from sa.project import AnalysisBroken
from rules.c29 import length_allows

RULES = {
    "value": "a property value is accepted only if its type, its list of valid values and its check function accept it",
    "checker": "a check function asked to raise an error does so for every value it does not accept",
    "accepts": "a check function accepts only what passed its test",
    "declared": "each property is declared with its check, its valid values and whether it is required",
    "variable": "a variable has only known properties, all required ones, and each of them has been validated",
    "entry": "every property of a variable read from a file is known and valid, or an error is recorded",
    "header": "every line of a table or section header is understood, or an error is recorded",
    "section": "a section that lacks its name or type or does not belong to its table is an error",
    "line": "every line of a metadata file is part of a table or blank, and no table is accepted twice",
    "surface": "a table in which an error was recorded is not returned",
}

# property -> (required?, what validates it)
CHECKS = {
    "local_name": (True, "check_local_name"), "standard_name": (True, "check_cf_standard_name"), "units": (True, "check_units"),
    "dimensions": (True, "check_dimensions"), "type": (True, "check_fortran_type"), "intent": (True, ("in", "out", "inout")),
    "diagnostic_name": (False, "check_diagnostic_id"), "diagnostic_name_fixed": (False, "check_diagnostic_fixed"),
    "default_value": (False, "check_default_value"), "persistence": (False, ("run", "timestep")), "molar_mass": (False, "check_molar_mass"),
}
TYPES = {"local_name": "str", "standard_name": "str", "units": "str", "dimensions": "list", "type": "str", "kind": "str", "protected": "bool",
         "allocatable": "bool", "optional": "bool", "advected": "bool", "molar_mass": "float", "constituent": "bool", "intent": "str", "target": "bool",
         "polymorphic": "bool", "top_at_one": "bool"}


def P(name):
    return ('param', name)


def known(st, *atom):
    return st.preds.get(tuple(atom))


def truth(st, val):
    if val[0] == 'k':
        return bool(val[2])
    if val[0] == 'l' and not val[1]:
        return False
    got = known(st, 'truth', val)
    if got is None and known(st, 'isnone', val) is True:
        return False
    return got


def facts(st):
    return [(a, v) for a, v in st.preds.items()]


def terms(val):
    if isinstance(val, tuple) and val:
        yield val
    if isinstance(val, (tuple, frozenset)):
        for x in val:
            if isinstance(x, (tuple, frozenset)):
                yield from terms(x)


def has_call(val, *names):
    return any(t[0] == 'call' and str(t[1]).split(".")[-1] in names for t in terms(val) if len(t) >= 4)


class Plain(Rule):
    max_states = 4000
    max_depth = 3
    liveness = False

    def __init__(self, homes=(), stop=()):
        self.homes, self.stop = homes, stop

    def inline(self, fi, depth):
        return fi.module.name in self.homes and fi.name not in self.stop and not fi.name.startswith("__init__")


def attr_of_self(val, short):
    return isinstance(val, tuple) and len(val) == 3 and val[0] == 'attr' and val[1] == P('self') and val[2].lstrip("_").startswith(short)


# ---------------------------------------------------------------- one value
def check_value(ctx, project, cls):
    fi = project.find_method(cls, "valid_value")
    if fi is None:
        raise AnalysisBroken("VariableProperty.valid_value not found")
    ctx.saw(fi)
    ex = Interp(project, Plain((fi.module.name,))).run(fi, ts=frozenset())
    said = Once(ctx)
    for st, val, node in ex.ret:
        where = fi.where(node)
        if val == NONE:
            said(truth(st, P('error')) is False, "value", "an invalid value is refused", where + ": an invalid value is not reported although an error was asked for")
            continue
        asked = {x[1] if x[0] == 'ext' else show(x) for a, v in facts(st) if v is True and a[0] == 'eq' and any(attr_of_self(x, 'type') for x in a[1:]) for x in a[1:]}
        called = any(len(t) >= 4 and t[0] == 'call' and ('check_fn' in str(t[1]) or t[2] is not None and attr_of_self(t[2], 'check_fn')) for t in terms(val))
        unchecked = any(v is True and a[0] == 'isnone' and attr_of_self(a[1], 'check_fn') or v is False and a[0] == 'truth' and attr_of_self(a[1], 'check_fn') for a, v in facts(st))
        said(unchecked or called or truth(st, val) is False or 'bool' in asked, "value", "the check function decides",
             where + ": a value is accepted that the check function of the property has not seen")
        if 'bool' in asked and any(v is True and a[0] == 'isinst' and a[1] == P(fi.params[1]) for a, v in facts(st)):
            word = any(v is True and a[0] in ('in', 'eq') and mentions(a[1:], P(fi.params[1])) for a, v in facts(st))
            said(word, "value", "a logical value is one of the known words", where + ": a text that is neither true nor false is taken for a logical value")
        if not asked & {'int', 'float', 'str'}:
            continue
        free = any(v is True and a[0] == 'isnone' and attr_of_self(a[1], 'valid_values') or v is False and a[0] == 'truth' and attr_of_self(a[1], 'valid_values') for a, v in facts(st))
        member = any(v is True and a[0] == 'in' and attr_of_self(a[2], 'valid_values') for a, v in facts(st))
        said(free or member, "value", "the valid values decide", where + ": a value is accepted that is not one of the valid values")
    said.at_least("value", 3)


class Once:
    """One verdict for each (rule, construct)."""
    def __init__(self, ctx):
        self.ctx, self.seen = ctx, {}

    def __call__(self, good, rule, key, message):
        if self.seen.get((rule, key)) != message:
            if not good:
                self.seen[(rule, key)] = message
            elif (rule, key) not in self.seen:
                self.seen[(rule, key)] = None

    def flush(self):
        for (rule, key), message in self.seen.items():
            if message is None:
                self.ctx.ok(rule, key)
            else:
                self.ctx.bad(rule, key, message)

    def at_least(self, rule, num):
        self.flush()
        self.ctx.at_least(rule, num)


# ---------------------------------------------------------------- the check functions
def matched(st, *names):
    """Was something matched on this path?"""
    for a, v in facts(st):
        if a[0] == 'isnone' and v is False and has_call(a[1], *names):
            return True
        if a[0] == 'truth' and v is True and has_call(a[1], *names):
            return True
    return False


def says(st, names, val):
    return any(v is val and a[0] == 'truth' and has_call(a[1], *names) or v is (not val) and a[0] == 'isnone' and has_call(a[1], *names) for a, v in facts(st))


MATCH = ("match", "fullmatch")


def short_enough(st, val):
    lim = P('max_len')
    for a, v in facts(st):
        if a[0] == 'lt' and a[1] == K(0) and a[2] == lim and v is False or a[0] == 'le' and a[1] == lim and a[2] == K(0) and v is True or a == ('truth', lim) and v is False:
            return True
        if a[0] == 'lt' and a[1] == lim and has_call(a[2], 'len') and v is False or a[0] == 'le' and has_call(a[1], 'len') and a[2] == lim and v is True:
            return True
    return False


def other_given(st, key):
    """Has the property KEY been looked at and found missing or empty?"""
    for a, v in facts(st):
        if a[0] == 'in' and a[1] == K(key) and v is False:
            return False
        if a[0] in ('truth', 'isnone') and key in repr(a[1]) and v is (a[0] == 'isnone'):
            return False
        if a == ('truth', P('prop_dict')) and v is False or a == ('isnone', P('prop_dict')) and v is True:
            return False
    return True


def numeric_bound(st):
    low = any((a[0] == 'lt' and a[2] in (K(0.0), K(0)) and v is False) or (a[0] == 'le' and a[1] in (K(0.0), K(0)) and v is True) for a, v in facts(st))
    high = any((a[0] == 'lt' and a[1][0] == 'k' and a[1][2] and v is False) or (a[0] == 'le' and a[2][0] == 'k' and a[2][2] and v is True) for a, v in facts(st))
    return low and high


ACCEPTS = {
    "check_units": ("it matches the pattern of units", lambda st, v: matched(st, *MATCH)),
    "check_cf_standard_name": ("it matches the pattern of standard names and is folded to lower case", lambda st, v: matched(st, *MATCH) and has_call(v, 'lower', 'casefold')),
    "check_fortran_id": ("it is an identifier no longer than allowed", lambda st, v: matched(st, *MATCH) and short_enough(st, v)),
    "check_fortran_ref": ("it is an identifier or a reference", lambda st, v: matched(st, "check_fortran_id", *MATCH)),
    "check_local_name": ("it is a reference, or a literal where that is allowed", lambda st, v: has_call(v, "check_fortran_ref") or matched(st, "check_fortran_ref") or says(st, ("check_fortran_literal",), True) and any(
        v is True and a[0] == 'truth' and 'protected' in repr(a[1]) for a, v in facts(st))),
    "check_fortran_intrinsic": ("it is one of the intrinsic types", lambda st, v: matched(st, *MATCH) or any(v is True and a[0] == 'in' or v is True and a[0] == 'eq' and any(x[0] == 'k' for x in a[1:]) for a, v in facts(st))),
    "check_fortran_type": ("it is an intrinsic or a registered type", lambda st, v: matched(st, "check_fortran_intrinsic", "registered_fortran_ddt_name")
                           or has_call(v, "check_fortran_intrinsic", "registered_fortran_ddt_name") or any(v is True and a[0] == 'in' for a, v in facts(st))),
    "check_diagnostic_fixed": ("it is an identifier and the other name is not given", lambda st, v: matched(st, "check_fortran_id") and not other_given(st, "diagnostic_name")),
    "check_diagnostic_id": ("it matches the pattern and the other name is not given", lambda st, v: matched(st, *MATCH) and not other_given(st, "diagnostic_name_fixed")),
    "check_default_value": ("it is a literal of the type of the variable", lambda st, v: says(st, ("check_fortran_literal",), True) or known(st, 'isnone', P('prop_dict')) is True),
    "check_molar_mass": ("it is a number within the bounds", lambda st, v: numeric_bound(st)),
}


def check_checkers(ctx, project):
    mod = project.mod("parse_tools.parse_checkers")
    said = Once(ctx)
    for name, fi in sorted(mod.funcs.items()):
        if not name.startswith("check_") or 'error' not in fi.params:
            continue
        stop = [n for n in mod.funcs if n != name and (n.startswith("check_") or n.startswith("registered"))]
        rule = Plain((mod.name,), stop)
        ex = Interp(project, rule).run(fi, ts=frozenset())
        ctx.saw(fi)
        text, accepts = ACCEPTS.get(name, (None, None))
        for st, val, node in ex.ret:
            if val == NONE:
                said(truth(st, P('error')) is False, "checker", name, fi.where(node) + ": a value is refused without an error although one was asked for")
            elif accepts is not None and val[0] != 'l':
                said(accepts(st, val), "accepts", name, fi.where(node) + ": a value is accepted although it is not known that " + text)
        said(bool(ex.ret) or name not in ACCEPTS, "accepts", name, "%s accepts nothing" % name)
    for name in ACCEPTS:
        said(name in mod.funcs, "accepts", name, "%s is missing" % name)
    said.at_least("checker", 8)
    ctx.at_least("accepts", 10)


# ---------------------------------------------------------------- the declarations
def check_declared(ctx, project):
    cls = project.mod("metavar").classes["Var"]
    said = Once(ctx)
    found = {}
    for n in ast.walk(cls.node):
        if isinstance(n, ast.Call) and ast.unparse(n.func).split(".")[-1] == "VariableProperty" and n.args and isinstance(n.args[0], ast.Constant):
            kw = {k.arg: k.value for k in n.keywords}
            found.setdefault(n.args[0].value, (ast.unparse(n.args[1]) if len(n.args) > 1 else "?", kw, n.lineno))
    ctx.count("declared properties", len(found))
    for name in sorted(set(CHECKS) | set(TYPES)):
        if name not in found:
            said(False, "declared", name, "property %s is not declared" % name)
            continue
        ptype, kw, line = found[name]
        said(True, "declared", name, "")
        where = "%s:%d" % (cls.module.rel, line)
        if name in TYPES:
            said(ptype == TYPES[name], "declared", name, "%s: property %s is declared as %s" % (where, name, ptype))
        if name not in CHECKS:
            continue
        required, how = CHECKS[name]
        opt = kw.get('optional_in')
        is_opt = isinstance(opt, ast.Constant) and bool(opt.value)
        said(is_opt is not required, "declared", name, "%s: property %s is %s" % (where, name, "optional" if is_opt else "required"))
        if isinstance(how, str):
            said('check_fn_in' in kw and ast.unparse(kw['check_fn_in']).split(".")[-1] == how, "declared", name, "%s: property %s is not checked by %s" % (where, name, how))
        else:
            vals = kw.get('valid_values_in')
            vals = sorted(e.value for e in vals.elts if isinstance(e, ast.Constant)) if isinstance(vals, (ast.List, ast.Tuple, ast.Set)) else None
            said(vals == sorted(how), "declared", name, "%s: property %s does not have the valid values %s" % (where, name, ", ".join(how)))
    said.at_least("declared", 15)


# ---------------------------------------------------------------- per-iteration judging
class Walk(Rule):
    """Typestate: what has happened in the present iteration of each loop; 'err' is for good."""
    merge = True
    merge_over = 1
    keep_none = True
    liveness = True
    text = False
    max_depth = 2
    max_states = 6000
    homes = ()
    stop = ()
    keep_marks = ('err',)

    def inline(self, fi, depth):
        return fi.module.name in self.homes and fi.name not in self.stop and not fi.name.startswith("__init__")

    def oracle(self, ip, st, atom):
        # keep_none: what was joined is not None
        return False if atom[0] == 'isnone' and atom[1][:2] == ('top', 'join') else None

    def mark(self, st, *what):
        return st.with_ts(st.ts | {what})

    def marks(self, st):
        return {x[0] for x in st.ts}

    def iter_start(self, ip, st, node):
        if isinstance(node, (ast.For, ast.AsyncFor)):
            at = self.__dict__.setdefault('at', {}).setdefault(node, [])
            at += [st.env[n.id] for n in ast.walk(node.target) if isinstance(n, ast.Name) and n.id in st.env and st.env[n.id] not in at]
        return self.reset(st, node)

    def reset(self, st, node):
        if isinstance(node, ast.While):
            return st.with_ts(frozenset(x for x in st.ts if x[0] in self.keep_marks))
        return st

    def elements(self, node):
        """What the loop NODE stands at."""
        return self.__dict__.setdefault('at', {}).get(node, [])

    def iter_end(self, ip, st, node):
        self.judge(ip, st, node)
        return self.reset(st, node)


def drawn_from(val):
    """The iterables VAL was taken from."""
    return [t[1] for t in terms(val) if t[0] == 'elem' and len(t) == 2]


def names(val, text):
    return any(isinstance(x, str) and text in x for t in terms(val) for x in t if isinstance(x, str))


def validates(node):
    return any(isinstance(c, ast.Attribute) and c.attr == 'valid_value' for c in ast.walk(node))


class Variable(Walk):
    homes = ("metavar",)
    stop = ("get_prop", "valid_value", "var_properties", "copy_prop_dict", "context", "source")
    keep_marks = ('err', 'protected', 'mutable')

    def __init__(self, said, where):
        self.said, self.where, self.seen = said, where, set()

    def on_call(self, ip, st, node, name, target, recv, args, kwargs):
        if name.split(".")[-1] == "valid_value":
            err = kwargs.get('error', args[2] if len(args) > 2 else FALSE)
            given = kwargs.get('prop_dict', args[1] if len(args) > 1 else NONE)
            line = "%s:%d" % (ip.fi.module.rel, node.lineno)
            self.said(truth(st, err) is True, "variable", "an invalid value raises an error", line + ": the value of a property is checked without asking for an error")
            self.said(given != NONE, "variable", "the other properties are given to the check", line + ": the value of a property is checked without the other properties of the variable")
            st = self.mark(st, 'checked')
        return [(st, ('call', name.split(".")[-1], recv, tuple(args)))] if name.split(".")[-1] in ("valid_value",) else None

    def on_assume(self, ip, st, atom, val):
        text = repr(atom)
        if "'protected'" in text and atom[0] in ('truth', 'eq') and "'intent'" not in text:
            pos = val if atom[0] == 'truth' else None
            if pos is not None:
                st = st.with_ts(frozenset(x for x in st.ts if x[0] != 'protected') | ({('protected',)} if pos else set()))
        if "'intent'" in text and atom[0] in ('eq', 'in') and K('in') in atom[1:] or atom[0] == 'eq' and "'intent'" in text:
            lit = [x for x in atom[1:] if x[0] == 'k']
            if lit and lit[0] == K('in'):
                st = st.with_ts(frozenset(x for x in st.ts if x[0] != 'mutable') | (set() if val else {('mutable',)}))
        return st

    def reset(self, st, node):
        return st.with_ts(frozenset(x for x in st.ts if x[0] in self.keep_marks))

    def judge(self, ip, st, node):
        for val in self.elements(node):
            for src in drawn_from(val):
                where = "%s:%d" % (ip.fi.module.rel, node.lineno)
                if names(src, 'required'):
                    self.seen.add('required')
                    good = any(v is True and a[0] == 'in' and mentions(a[1], ('elem', src)) or v is False and a[0] == 'isnone' and mentions(a[1], ('elem', src))
                               for a, v in facts(st))
                    self.said(good, "variable", "every required property is present", where + ": a variable that lacks a required property is accepted")
                elif names(src, 'var_properties') or validates(node) and (names(src, '_prop_dict') or src == P('prop_dict')) and not names(src, 'constituent'):
                    self.seen.add('checked')
                    self.said('checked' in self.marks(st), "variable", "every property is validated", where + ": a property of a variable is not validated")
                elif src == P('prop_dict') or names(src, 'copy_prop_dict') or src[0] == 'call' and src[2] == P('prop_dict') and src[1] in ('keys', 'items'):
                    good = any(v is False and a[0] == 'isnone' and has_call(a[1], 'get_prop') or v is True and a[0] == 'truth' and has_call(a[1], 'get_prop', 'is_prop')
                               or v is True and a[0] == 'in' and mentions(a[1], ('elem', src)) for a, v in facts(st))
                    self.seen.add('known')
                    self.said(good, "variable", "every property is known", where + ": a variable with an unknown property is accepted")


def check_variable(ctx, project):
    cls = project.mod("metavar").classes["Var"]
    fi = cls.methods["__init__"]
    ctx.saw(fi)
    said = Once(ctx)
    rule = Variable(said, fi)
    ex = Interp(project, rule).run(fi, ts=frozenset())
    # the same may be written with a comprehension over the properties
    bodies = [fi] + [cls.methods[c.func.attr] for c in ast.walk(fi.node) if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in cls.methods]
    for body in bodies:
        for n in ast.walk(body.node):
            if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
                over = ast.unparse(n.generators[0].iter)
                if 'required' in over:
                    rule.seen.add('required')
                if 'prop_dict' in over and 'get_prop' in ast.unparse(n):
                    rule.seen.add('known')
            elif isinstance(n, ast.BinOp) and isinstance(n.op, ast.Sub) and 'set(' in ast.unparse(n):
                text = ast.unparse(n)
                if 'required' in text:
                    rule.seen.add('required')
                elif 'prop_dict' in text:
                    rule.seen.add('known')
    for what, msg in (('required', "a variable that lacks a required property is accepted"), ('known', "a variable with an unknown property is accepted"),
                      ('checked', "the properties of a variable are not validated")):
        said(what in rule.seen, "variable", what + " properties are looked at", "%s: %s" % (fi.where(), msg))
    for st, val, node in ex.ret:
        marks = rule.marks(st)
        said(not ('protected' in marks and 'mutable' in marks), "variable", "a protected variable is not written", fi.where() + ": a protected variable with an intent other than in is accepted")
    said(any({'protected', 'mutable'} <= rule.marks(st) for st, _, _ in ex.exc), "variable", "protected variables are looked at", fi.where() + ": no variable is protected, or the property is not compared with the intent")
    said.at_least("variable", 8)


# ---------------------------------------------------------------- reading a file
CONFIG = "_parse_config_line"
FILE_CALLS = ("add_syntax_err", "next_line", "curr_line", CONFIG, "valid_value", "get_prop", "variable_start", "header_start", "table_start", "blank_metadata_line",
              "check_fortran_intrinsic", "check_array_reference", "parse_variable", "section_table_mismatch", "register_fortran_ddt_name", "context_string", "start_context")


class Reading(Walk):
    homes = ("metadata_table",)
    stop = FILE_CALLS + ("title", "header_type", "process_type", "module", "table_name", "table_type", "_default_module", "relative_path", "dependencies", "run_env", "name", "sections")
    keep_marks = ('err',)

    def __init__(self, ctx, said, fi):
        self.ctx, self.said, self.fi = ctx, said, fi
        self.props = self.lines = 0

    def on_call(self, ip, st, node, name, target, recv, args, kwargs):
        short = name.split(".")[-1]
        if short == "add_syntax_err":
            return [(self.mark(self.mark(st, 'err'), 'said'), NONE)]
        if short == "next_line":
            return [(self.mark(st, 'advanced'), ('l', (('call', 'next_line', None, (K(node.lineno),)), ('call', 'line_num', None, ())), 'tuple'))]
        if short == CONFIG:
            return [(self.mark(st, 'parsed'), ('call', CONFIG, None, tuple(args)))]
        return None

    def where(self, ip, node):
        return "%s:%d" % (ip.fi.module.rel, node.lineno)

    def config_loop(self, st, node):
        return [v for v in self.elements(node) if any(src[0] == 'call' and src[1] == CONFIG for src in drawn_from(v)) and not has_call(v, 'valid_value')]

    def judge(self, ip, st, node):
        if isinstance(node, ast.While):
            self.judge_line(ip, st, node)
        elif self.config_loop(st, node):
            self.props += 1
            self.judge_prop(ip, st, node)

    def judge_line(self, ip, st, node):
        marks = self.marks(st)
        if 'advanced' not in marks:
            return
        self.lines += 1
        blank = any(v is True and a[0] == 'truth' and has_call(a[1], 'blank_metadata_line') for a, v in facts(st))
        self.said('parsed' in marks or 'err' in marks or blank or self.handed_on(st), "line", "%s: every line is looked at" % self.fi.qualname,
                  self.where(ip, node) + ": a line of the file is skipped that is neither blank nor understood")

    def handed_on(self, st):
        """The line is left to the caller."""
        return any(v is True and a[0] == 'truth' and has_call(a[1], 'header_start', 'table_start') or v is (a[0] == 'truth') and a[0] in ('truth', 'isnone') and has_call(a[1], 'variable_start')
                   or v is True and a[0] == 'isnone' and has_call(a[1], 'next_line') for a, v in facts(st))

    def judge_prop(self, ip, st, node):
        raise NotImplementedError


class Header(Reading):
    keep_marks = ('err', 'titled', 'typed', 'matches')

    def __init__(self, ctx, said, fi):
        super().__init__(ctx, said, fi)
        self.at_variables = []

    def on_call(self, ip, st, node, name, target, recv, args, kwargs):
        if name.split(".")[-1] == "parse_variable":
            self.at_variables.append(st)
        return super().on_call(ip, st, node, name, target, recv, args, kwargs)

    def on_assume(self, ip, st, atom, val):
        if atom[0] == 'eq' and has_config(atom):
            lit = [x[2] for x in atom[1:] if x[0] == 'k']
            if lit and val is True and str(lit[0]).lower() != 'none':
                st = self.mark(st, 'key', lit[0])
            if lit and val is False and str(lit[0]).lower() == 'none':
                st = self.mark(st, 'nonone')
        if atom[0] == 'in' and val is True and has_config(atom[1]):
            st = self.mark(st, 'key' if keys_only(atom[1]) else 'member', None)
        none = val if atom[0] == 'isnone' else not val if atom[0] == 'truth' else None
        if none is None:
            return st
        for what, name in (('titled', 'title'), ('typed', 'header_type')):
            x = atom[1]
            if x[0] in ('attr', 'call') and x[-1 if x[0] == 'attr' else 1] in (name, "_MetadataSection__section_" + name, "_MetadataSection__" + name) and not none:
                st = self.mark(st, what)
        if has_call(atom[1], 'section_table_mismatch') and none:
            st = self.mark(st, 'matches')
        return st

    def reset(self, st, node):
        if self.config_loop(st, node):
            return st.with_ts(frozenset(x for x in st.ts if x[0] not in ('key', 'member', 'nonone')))
        return super().reset(st, node)

    def judge_prop(self, ip, st, node):
        marks = self.marks(st)
        if 'err' in marks:
            return
        keys = {x[1] for x in st.ts if x[0] == 'key'}
        self.said(bool(keys), "header", "%s: unknown entries" % self.fi.qualname, self.where(ip, node) + ": an entry of the header that is not known is accepted")
        if 'type' in keys:
            self.said('member' in marks, "header", "%s: the type" % self.fi.qualname, self.where(ip, node) + ": a header with an unknown type is accepted")
        if 'module' in keys:
            self.said('nonone' in marks, "header", "%s: the module" % self.fi.qualname, self.where(ip, node) + ": a header whose module is None is accepted")


def has_config(val):
    return has_call(val, CONFIG)


def keys_only(val):
    """Is VAL the name (not the value) of an entry?"""
    return any(t[0] == 'item' and t[2] == K(0) for t in terms(val) if len(t) == 3)


class Entry(Reading):
    keep_marks = ('err', 'nothing')

    def on_assume(self, ip, st, atom, val):
        a, v = atom, val
        if not ip.loops and (v is True and a == ('isnone', P('curr_line')) or a[0] in ('truth', 'isnone') and mentions(a[1], P('curr_line')) and (
                v is True and a[0] == 'truth' and has_call(a[1], 'header_start', 'table_start') or v is (a[0] == 'isnone') and has_call(a[1], 'variable_start'))):
            st = self.mark(st, 'nothing')
        if a[0] in ('truth', 'isnone') and v is (a[0] == 'truth'):
            for what, name in (('known', 'get_prop'), ('valid', 'valid_value')):
                if a[1][0] == 'call' and a[1][1] == name:
                    st = self.mark(st, what)
        if v is True and (a[0] == 'in' and mentions(a[2], P('known_ddts')) or a == ('truth', P('skip_ddt_check'))):
            st = self.mark(st, 'ddt')
        if v is True and a[0] == 'eq' and K('type') in a[1:]:
            st = self.mark(st, 'type')
        if a[0] == 'truth' and has_config(a[1]) and not has_call(a[1], 'valid_value', 'get_prop', 'check_fortran_intrinsic'):
            st = self.mark(st, 'full' if v else 'empty')
        if a[0] == 'truth' and names(a[1], 'optional') and v is True:
            st = self.mark(st, 'optional')
        return st

    def judge_prop(self, ip, st, node):
        marks = self.marks(st)
        if 'err' in marks:
            return
        where = self.where(ip, node)
        self.said({'known', 'valid'} <= marks or {'ddt', 'type'} <= marks, "entry", "a property is known and its value valid",
                  where + ": a property of a variable is accepted that is not known or whose value is not valid")
        self.said(bool(marks & {'full', 'optional', 'ddt'}), "entry", "a required property has a value", where + ": an empty value of a required property is accepted")
        self.said('stored' in marks, "entry", "a property becomes part of the variable", where + ": a property of a variable is dropped without an error")

    def reset(self, st, node):
        st = super().reset(st, node)
        if self.config_loop(st, node):
            return st.with_ts(frozenset(x for x in st.ts if x[0] in self.keep_marks + ('advanced', 'parsed')))
        return st

    def on_store(self, ip, st, node, kind, base, key, val):
        if kind in ('item', 'index', 'sub') or key is not None and has_config(key) or key in (K('ddt_type'), K('dimensions')):
            if key is not None and not isinstance(key, str):
                return self.mark(st, 'stored')
        return st


def reader(cls):
    """The method that reads from a file."""
    got = [m for n, m in cls.methods.items() if n.endswith("init_from_file")]
    if len(got) != 1:
        raise AnalysisBroken("%s has no method that reads a file" % cls.name)
    return got[0]


def check_section(ctx, said, fi, rule, ex):
    ends = [st for st, _, _ in ex.ret] + rule.at_variables
    for st in ends:
        marks = rule.marks(st)
        for what, msg in (('titled', "a section without a name is accepted"), ('typed', "a section without a type is accepted"),
                          ('matches', "a section is accepted that does not belong to its table")):
            said(what in marks or 'err' in marks, "section", what, "%s: %s" % (fi.where(), msg))
    said(bool(rule.at_variables), "section", "the variables of a section", fi.where() + ": the variables of a section are not read")


class Dims(Walk):
    """Each part of each dimension."""
    homes = ("parse_tools.parse_checkers",)
    stop = ("check_fortran_id", "check_balanced_paren")
    keep_marks = ()
    parts = outer = 0

    def __init__(self, said):
        self.said = said

    def part(self, node):
        return any(has_call(src, 'split', 'partition') for v in self.elements(node) for src in drawn_from(v))

    def on_bound(self, ip, st, node, name, val):
        return self.mark(st, 'int') if has_call(val, 'int') else st

    def on_assume(self, ip, st, atom, val):
        if val is True and has_call(atom, 'int'):
            st = self.mark(st, 'int')
        if length_allows(atom, val, 4, lambda x: has_call(x, 'split')) is False:
            st = self.mark(st, 'few')
        if atom[0] in ('isnone', 'truth') and val is (atom[0] == 'truth') and has_call(atom[1], 'check_fortran_id', 'isdigit', 'isdecimal', 'match', 'fullmatch'):
            st = self.mark(st, 'id')
        if val is False and K(-1) in atom[1:] and has_call(atom, 'check_balanced_paren') and (atom[0] == 'in' or any(x[0] == 'item' for x in atom[1:])):
            st = self.mark(st, 'size')
        return st

    def reset(self, st, node):
        return st.with_ts(frozenset(x for x in st.ts if x[0] == 'few' and self.part(node)))

    def judge(self, ip, st, node):
        if st.env.get('test_val') == NONE:
            return
        where = "%s:%d" % (ip.fi.module.rel, node.lineno)
        if self.part(node):
            self.parts += 1
            self.said(bool(self.marks(st) & {'int', 'id', 'size'}), "accepts", "check_dimensions: parts", where + ": a part of a dimension is accepted that is no number, identifier or size()")
        elif any(mentions(src, P('test_val')) for v in self.elements(node) for src in drawn_from(v)):
            self.outer += 1
            self.said('few' in self.marks(st), "accepts", "check_dimensions: colons", where + ": a dimension with more than two colons is accepted")


def check_dims(ctx, project, said):
    fi = project.mod("parse_tools.parse_checkers").funcs["check_dimensions"]
    ctx.saw(fi)
    rule = Dims(said)
    Interp(project, rule).run(fi, ts=frozenset())
    said(rule.parts > 0 and rule.outer > 0, "accepts", "check_dimensions is analysed", fi.where() + ": the parts of a dimension are not looked at")


def check_file(ctx, project):
    mod = project.mod("metadata_table")
    said = Once(ctx)
    # lines of the file
    fi = mod.funcs["parse_metadata_file"]
    ctx.saw(fi)
    rule = Reading(ctx, said, fi)
    Interp(project, rule).run(fi, ts=frozenset())
    # the headers
    for cname in ("MetadataTable", "MetadataSection"):
        cls = mod.classes[cname]
        fi = reader(cls)
        ctx.saw(fi)
        rule = Header(ctx, said, fi)
        ex = Interp(project, rule).run(fi, ts=frozenset())
        said(rule.props > 0, "header", "%s is analysed" % fi.qualname, "%s: the entries of the header are not looked at" % fi.where())
        if cname == "MetadataTable":
            for st, val, node in ex.ret:
                clean = any(v is False and a[0] == 'truth' and names(a[1], 'error_message') or v is True and a[0] == 'eq' and names(a, 'error_message') and K('') in a[1:]
                            for a, v in facts(st))
                said(clean, "surface", "a table with errors is not returned", fi.where(node) + ": a table is returned although errors have been recorded")
        else:
            check_section(ctx, said, fi, rule, ex)
    # the variables
    fi = mod.classes["MetadataSection"].methods["parse_variable"]
    ctx.saw(fi)
    rule = Entry(ctx, said, fi)
    ex = Interp(project, rule).run(fi, ts=frozenset())
    said(rule.props > 0, "entry", "%s is analysed" % fi.qualname, "%s: the properties of a variable are not looked at" % fi.where())
    for st, val, node in ex.ret:
        got = val[1][0] if val[0] == 'l' and val[1] else val
        said(got != NONE or rule.marks(st) & {'err', 'nothing'}, "entry", "a variable that cannot be made is an error", fi.where(node) + ": a variable is dropped without an error")
    # messages
    cls = project.mod("parse_tools.parse_object").classes["ParseObject"]
    fi = cls.methods["add_syntax_err"]
    ctx.saw(fi)
    class Count(Plain):
        def on_assume(self, ip, st, atom, val):
            if val is False and atom[0] in ('lt', 'le') and names(atom, 'num_errors'):
                return st.with_ts(st.ts | {('full',)})
            return st
    ex = Interp(project, Count(("parse_tools.parse_object",), ("context_string",))).run(fi, ts=frozenset())
    for st, val, node in ex.ret:
        now = [v for k, v in st.heap.items() if 'error_message' in repr(k)]
        had = any(v is True and a[0] == 'truth' and names(a[1], 'error_message') for a, v in facts(st))
        full = ('full',) in st.ts
        told = any(mentions(v, P('token_type')) or v[0] == 's' and any(isinstance(x, str) and x for x in v[1]) for v in now)
        said(had or full or told, "surface", "an error leaves a message", fi.where(node) + ": an error is recorded without a message")
    said.flush()
    for name, num in (("entry", 4), ("header", 5), ("section", 4), ("line", 4), ("surface", 2)):
        ctx.at_least(name, num)
    ctx.count("header loops", 2)


def check(ctx, project):
    for name, text in RULES.items():
        ctx.rule(name, text)
    cls = project.mod("var_props").classes["VariableProperty"]
    check_value(ctx, project, cls)
    check_checkers(ctx, project)
    check_declared(ctx, project)
    check_variable(ctx, project)
    check_file(ctx, project)
    said = Once(ctx)
    check_dims(ctx, project, said)
    said.flush()
