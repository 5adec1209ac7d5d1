"""C17: code that diagnoses an error can run: names, attributes, calls, formats and unpackings resolve."""
import ast
import builtins
import importlib
import string
import symtable
import sys
import warnings

from sa.project import ClassInfo, FuncInfo, Module
from sa.reach import Reach

RULES = {
    "names": "every name that is read is defined: by the function, an enclosing one, the module or Python",
    "bound": "no local variable is read where no assignment to it can have been executed, nor a loop variable before its loop in a turn of an outer loop",
    "handler": "an exception handler does not read a variable that the failing statement itself was to assign",
    "attributes": "an attribute of the object itself, of a class or of a module exists there; any other attribute exists somewhere",
    "calls": "the arguments of a call of a framework function or class fit its parameters",
    "formats": "a message has the values its format asks for",
    "unpacking": "the result of a framework function is unpacked into as many names as it has parts",
    "compare": "no method is compared where its result is meant",
}

# what objects that are not the framework's may have
EXTERNAL = ("collections", "re", "logging", "argparse", "subprocess", "os", "os.path", "sys", "xml.etree.ElementTree", "datetime", "io", "shutil", "filecmp",
            "difflib", "itertools", "types", "ast", "copy", "configparser", "html", "tempfile", "hashlib", "json", "textwrap", "pathlib")


def known_attributes():
    out = set()
    for val in vars(builtins).values():
        out |= set(dir(val))
    for val in (sys.stdout, sys.version_info, lambda: 0, (x for x in ()), None, 1, 1.0, "", b"", [], {}, set(), object):
        out |= set(dir(val))
    out |= {"errno", "strerror", "filename", "returncode", "output", "cmd", "stdout", "stderr", "args", "text", "tail", "attrib", "tag", "f_code", "f_lineno", "f_back", "co_name"}
    for val in vars(ast).values():
        if isinstance(val, type) and issubclass(val, ast.AST):
            out |= set(val._fields) | set(val._attributes)
    for name in EXTERNAL:
        mod = importlib.import_module(name)
        out |= set(dir(mod))
        for val in vars(mod).values():
            out |= set(dir(val))
    return out


STR_METHODS = {n for n in dir(str) if not n.startswith("_")}


class World:
    """What exists."""
    def __init__(self, project):
        self.project = project
        self.ext = known_attributes()
        self.globals = {m.name: self.module_names(m) for m in project.modules.values()}
        self.own = {}
        for mod in project.modules.values():
            for cls in self.classes(mod):
                self.own[cls.node] = self.class_attributes(cls)
        self.any = set(self.ext)
        for names in list(self.own.values()) + list(self.globals.values()):
            self.any |= names
        for mod in project.modules.values():
            for n in ast.walk(mod.tree):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    self.any.add(n.attr)
                elif isinstance(n, ast.Call) and ast.unparse(n.func).split(".")[-1] == "add_argument":
                    for a in n.args:
                        if isinstance(a, ast.Constant) and isinstance(a.value, str):
                            self.any.add(a.value.lstrip("-").replace("-", "_"))
                    for k in n.keywords:
                        if k.arg == "dest" and isinstance(k.value, ast.Constant):
                            self.any.add(k.value.value)
                elif isinstance(n, ast.Call) and ast.unparse(n.func).split(".")[-1] == "namedtuple" and len(n.args) > 1:
                    for c in ast.walk(n.args[1]):
                        if isinstance(c, ast.Constant) and isinstance(c.value, str):
                            self.any |= set(c.value.replace(",", " ").split())
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr" and len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                    self.any.add(n.args[1].value)
        self.methods = {}
        for mod in project.modules.values():
            for cls in self.classes(mod):
                for name, fi in cls.methods.items():
                    self.methods.setdefault(name, []).append(fi)

    @staticmethod
    def classes(mod):
        return list(mod.classes.values())

    def module_names(self, mod):
        out = {"__name__", "__file__", "__doc__", "__package__", "__builtins__", "__spec__", "__path__", "__all__"}
        for n in ast.walk(mod.tree):
            if isinstance(n, ast.Global):
                out |= set(n.names)
        for n in self.outside(mod.tree):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                out.add(n.name)
            elif isinstance(n, ast.Import):
                out |= {a.asname or a.name.split(".")[0] for a in n.names}
            elif isinstance(n, ast.ImportFrom):
                if any(a.name == "*" for a in n.names):
                    src = self.project._find_module(mod, "." * n.level + (n.module or ""))  # pylint: disable=protected-access
                    if src is None:
                        out.add("*")
                    elif src is not mod:
                        out |= self.module_names(src)
                out |= {a.asname or a.name for a in n.names}
            elif isinstance(n, ast.ExceptHandler) and n.name:
                out.add(n.name)
        return out

    def outside(self, node):
        """The nodes of a module that are in no function or class."""
        for child in ast.iter_child_nodes(node):
            yield child
            if not isinstance(child, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef, ast.Lambda)):
                yield from self.outside(child)

    def class_attributes(self, cls):
        """The (mangled) attributes a class gives its objects, without its bases."""
        out = {mangle(n, cls) for n in list(cls.methods) + list(cls.setters) + list(cls.consts)}
        for item in ast.walk(cls.node):
            if isinstance(item, (ast.ClassDef,)) and item is not cls.node:
                out.add(item.name)
            if isinstance(item, ast.Attribute) and isinstance(item.ctx, (ast.Store, ast.Del)):
                out.add(mangle(item.attr, cls))
            if isinstance(item, ast.AnnAssign) and isinstance(item.target, ast.Name):
                out.add(mangle(item.target.id, cls))
            if isinstance(item, ast.Call) and isinstance(item.func, ast.Name) and item.func.id == "setattr":
                out.add("*")
        for item in cls.node.body:
            for n in ast.walk(item) if not isinstance(item, (ast.FunctionDef, ast.ClassDef)) else ():
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    out.add(mangle(n.id, cls))
        return out

    def attributes(self, cls, below=True):
        """All attributes of objects of a class; '*' if they are not all known."""
        out = set(dir(object)) | {"__dict__", "__annotations__", "__name__", "__qualname__", "__module__"}
        seen = set(self.project.mro(cls))
        if below:
            for sub in self.project.subclasses(cls):
                seen |= set(self.project.mro(sub))
        for cur in seen:
            out |= self.own.get(cur.node, set())
            for base in cur.node.bases:
                target = self.project.resolve(cur.module, ast.unparse(base).split(".")[-1])
                if isinstance(target, ClassInfo):
                    continue
                obj = external(self.project, cur.module, base)
                out |= set(dir(obj)) if obj is not None else {"*"}
                if isinstance(obj, type) and issubclass(obj, BaseException):
                    out.add("*")
        return out


def mangle(name, cls):
    return "_%s%s" % (cls.name.lstrip("_"), name) if cls is not None and name.startswith("__") and not name.endswith("__") else name


def external(project, mod, node):
    """The standard library object an expression stands for."""
    try:
        parts = ast.unparse(node).split(".")
        if not all(p.isidentifier() for p in parts):
            return None
        if parts[0] in mod.imports:
            src, what = mod.imports[parts[0]]
            if src.startswith(".") or project._find_module(mod, src) is not None or src.split(".")[0] not in sys.stdlib_module_names:  # pylint: disable=protected-access
                return None
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                obj = importlib.import_module(src)
            for p in ([what] if what else []) + parts[1:]:
                if not hasattr(obj, p) and isinstance(obj, type(sys)):
                    importlib.import_module(obj.__name__ + "." + p)
                obj = getattr(obj, p)
            return obj
        if len(parts) == 1 and hasattr(builtins, parts[0]) and parts[0] not in mod.consts and parts[0] not in mod.classes:
            return getattr(builtins, parts[0])
    except (ImportError, AttributeError, ValueError):
        return None
    return None


# ---------------------------------------------------------------- names
def check_names(ctx, world, mod):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        top = symtable.symtable(mod.src, mod.rel, "exec")
    here = world.globals[mod.name]
    if "*" in here:
        return
    here = set(here) | {s.get_name() for s in top.get_symbols() if s.is_assigned() or s.is_imported()}
    lines = {}
    for n in ast.walk(mod.tree):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            lines.setdefault(n.id, n.lineno)

    def walk(table):
        bad = 0
        for sym in table.get_symbols():
            name = sym.get_name()
            if sym.is_referenced() and (sym.is_global() or table.get_type() == "module") and not (sym.is_assigned() or sym.is_imported()) and name not in here and not hasattr(builtins, name):
                if name in ("__class__", "__module__", "__qualname__", "__conditional_annotations__", "__classdict__"):
                    continue
                at = [n.lineno for n in ast.walk(mod.tree) if isinstance(n, ast.Name) and n.id == name and n.lineno >= table.get_lineno()]
                ctx.bad("names", "%s:%s:%s" % (mod.name, table.get_name(), name), "%s:%d: %s is not defined anywhere" % (mod.rel, min(at or [lines.get(name, 0)]), name))
                bad += 1
        for sub in table.get_children():
            bad += walk(sub)
        return bad
    if not walk(top):
        ctx.ok("names", mod.name)
    # imports of framework names
    for node in ast.walk(mod.tree):
        if isinstance(node, ast.ImportFrom):
            src = world.project._find_module(mod, "." * node.level + (node.module or ""))  # pylint: disable=protected-access
            for a in node.names if src is not None else ():
                if a.name != "*" and a.name not in world.globals[src.name] and "*" not in world.globals[src.name] and world.project._find_module(src, src.name + "." + a.name) is None:  # pylint: disable=protected-access
                    ctx.bad("names", "%s:import:%s" % (mod.name, a.name), "%s:%d: %s has no %s" % (mod.rel, node.lineno, src.name, a.name))


# ---------------------------------------------------------------- bound
class Bound:
    """May-bound analysis: the names that some path has assigned."""
    def __init__(self, node, report):
        self.node, self.report = node, report
        args = node.args
        self.params = {a.arg for a in args.posonlyargs + args.args + args.kwonlyargs} | {a.arg for a in (args.vararg, args.kwarg) if a}
        self.locals = set(self.params)
        other = set()
        for n in own_nodes(node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                self.locals.add(n.id)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                self.locals.add(n.name)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                self.locals.add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                self.locals |= {(a.asname or a.name).split(".")[0] for a in n.names}
            elif isinstance(n, (ast.Global, ast.Nonlocal)):
                other |= set(n.names)
        self.locals -= other
        stores = [n.id for n in own_nodes(node) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del))]
        loops = [x.id for n in own_nodes(node) if isinstance(n, (ast.For, ast.AsyncFor)) for x in ast.walk(n.target) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)]
        # names that are nothing but loop variables
        self.loop_only = {n for n in set(loops) if stores.count(n) == loops.count(n)} - self.params
        self.jumps, self.memo = [], {}
        self.block(node.body, frozenset(self.params))

    def use(self, node, env):
        """Reads in an expression, and what it binds; env is None where nothing gets."""
        if node is None:
            return env
        got = self.memo.get(id(node))
        if got is None:
            nodes = list(expr_nodes(node))
            got = self.memo[id(node)] = ([n for n in nodes if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in self.locals], {n.target.id for n in nodes if isinstance(n, ast.NamedExpr)})
        if got[1]:
            env = env | got[1]
        for n in got[0]:
            if n.id not in env:
                self.report(n)
        return env

    def bind(self, target, env):
        for n in ast.walk(target):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                env = env | {n.id}
            elif isinstance(n, (ast.Attribute, ast.Subscript)):
                self.use(n, env | {x.id for x in ast.walk(target) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)})
        return env

    def block(self, stmts, env):
        for s in stmts:
            if env is None:
                return None
            env = self.stmt(s, env)
        return env

    @staticmethod
    def join(*envs):
        envs = [e for e in envs if e is not None]
        return frozenset().union(*envs) if envs else None

    def stmt(self, s, env):
        if isinstance(s, ast.Assign):
            env = self.use(s.value, env)
            for t in s.targets:
                env = self.bind(t, env)
            return env
        if isinstance(s, ast.AnnAssign):
            return self.bind(s.target, self.use(s.value, env)) if s.value is not None else env
        if isinstance(s, ast.AugAssign):
            env = self.use(s.value, env)
            if isinstance(s.target, ast.Name) and s.target.id in self.locals and s.target.id not in env:
                self.report(s.target)
            return self.bind(s.target, env)
        if isinstance(s, ast.If):
            env = self.use(s.test, env)
            return self.join(self.block(s.body, env), self.block(s.orelse, env))
        if isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            return self.loop(s, env)
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for item in s.items:
                env = self.use(item.context_expr, env)
                if item.optional_vars is not None:
                    env = self.bind(item.optional_vars, env)
            return self.block(s.body, env)
        if isinstance(s, ast.Try):
            inner = self.bound_in(s.body)
            end = self.block(s.body, env)
            outs = [self.block(s.orelse, end) if end is not None else None]
            for h in s.handlers:
                self.use(h.type, env)
                got = self.block(h.body, env | inner | ({h.name} if h.name else set()))
                outs.append(got - ({h.name} if h.name else set()) if got is not None else None)
            out = self.join(*outs)
            if s.finalbody:
                fin = self.block(s.finalbody, self.join(out, env | inner))
                return None if out is None else fin
            return out
        if isinstance(s, (ast.Return, ast.Raise)):
            for x in ast.iter_child_nodes(s):
                self.use(x, env)
            return None
        if isinstance(s, (ast.Break, ast.Continue)):
            if self.jumps:
                self.jumps[-1].append((isinstance(s, ast.Break), env))
            return None
        if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            return env | {s.name}
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            return env | {(a.asname or a.name).split(".")[0] for a in s.names}
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    env = env - {t.id}
                else:
                    self.use(t, env)
            return env
        if isinstance(s, ast.Match):
            env = self.use(s.subject, env)
            outs = [env]
            for c in s.cases:
                names = {n.name for n in ast.walk(c.pattern) if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name}
                outs.append(self.block(c.body, env | names))
            return self.join(*outs)
        for x in ast.iter_child_nodes(s):
            env = self.use(x, env)
        return env

    def bound_in(self, stmts):
        out = set()
        for s in stmts:
            for n in [s] + list(own_nodes(s)):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    out.add(n.id)
        return frozenset(out)

    def loop(self, s, env):
        head = self.use(s.iter if not isinstance(s, ast.While) else None, env)
        quiet, self.report = self.report, lambda n: None
        for turn in range(2):
            # the first turn: a loop variable read here is not one of an earlier turn; the last one: everything
            self.report = quiet if turn else (lambda n: quiet(n) if n.id in self.loop_only else None)
            self.jumps.append([])
            begin = self.bind(s.target, head) if not isinstance(s, ast.While) else self.use(s.test, head)
            end = self.block(s.body, begin)
            got = self.jumps.pop()
            head = self.join(head, end, *[e for brk, e in got if not brk])
        self.report = quiet
        breaks = [e for brk, e in got if brk]
        forever = isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and s.test.value
        out = None if forever else self.block(s.orelse, head) if s.orelse else head
        return self.join(out, *breaks)


def own_nodes(node):
    """The nodes of a function that are not in a function of their own."""
    for child in ast.iter_child_nodes(node):
        yield child
        if not isinstance(child, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            yield from own_nodes(child)


def expr_nodes(node):
    """The nodes of an expression evaluated where it stands."""
    yield node
    if isinstance(node, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
        if not isinstance(node, ast.Lambda):
            yield from expr_nodes(node.generators[0].iter)
        return
    for child in ast.iter_child_nodes(node):
        yield from expr_nodes(child)


def functions(mod):
    for n in ast.walk(mod.tree):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            yield n


def check_bound(ctx, mod, owner):
    for node in functions(mod):
        bad = {}
        Bound(node, lambda n: bad.setdefault(n.id, n.lineno))  # pylint: disable=cell-var-from-loop
        name = "%s:%s" % (mod.name, owner.get(node, node.name))
        for var, line in bad.items():
            ctx.bad("bound", "%s:%s" % (name, var), "%s:%d: %s is read where it has no value" % (mod.rel, line, var))
        if not bad:
            ctx.ok("bound", name)
        # handlers
        for t in own_nodes(node):
            if isinstance(t, ast.Try):
                handler(ctx, mod, node, t, name)


def may_raise(stmt):
    return any(isinstance(n, (ast.Call, ast.Subscript, ast.BinOp, ast.Attribute)) for n in ast.walk(stmt))


def handler(ctx, mod, node, stmt, name):
    first = next((s for s in stmt.body if may_raise(s)), None)
    if first is None or [s for s in stmt.body if may_raise(s)] != [first] or not isinstance(first, (ast.Assign, ast.AnnAssign)):
        return
    targets = {n.id for n in ast.walk(first) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
    for var in sorted(targets):
        if any(isinstance(n, ast.Name) and n.id == var and isinstance(n.ctx, ast.Store) and n.lineno < first.lineno for n in own_nodes(node)) or var in {a.arg for a in node.args.args}:
            continue
        if any(isinstance(n, (ast.For, ast.While)) and n.lineno <= stmt.lineno <= n.end_lineno for n in own_nodes(node)):
            continue
        for h in stmt.handlers:
            stores = [n.lineno for s in h.body for n in ast.walk(s) if isinstance(n, ast.Name) and n.id == var and isinstance(n.ctx, ast.Store)]
            reads = [n.lineno for s in h.body for n in ast.walk(s) if isinstance(n, ast.Name) and n.id == var and isinstance(n.ctx, ast.Load)]
            good = not reads or stores and min(stores) <= min(reads)
            ctx.check(good, "handler", "%s:%s" % (name, var), "%s:%d: the handler reads %s, which the statement that failed was to assign" % (mod.rel, min(reads or [h.lineno]), var))


# ---------------------------------------------------------------- attributes
def class_of(mod, node, owner):
    return owner.get(node)


def made_objects(world, mod, fi):
    """{id(Name node): class} of the locals that can only be objects of one framework class."""
    project = world.project
    reach = Reach(fi)
    plain = {id(n.value) for n in ast.walk(fi.node) if isinstance(n, ast.Assign) and all(isinstance(t, ast.Name) for t in n.targets)}
    out = {}
    for stmt in statements(fi.node):
        env = reach.at.get(id(stmt))
        if not env:
            continue
        for n in own_expressions(stmt):
            if not isinstance(n, ast.Name) or not isinstance(n.ctx, ast.Load) or n.id not in env or n.id in fi.params:
                continue
            made = set()
            for d in env[n.id]:
                target = None
                if id(d.value) in plain and isinstance(d.value, ast.Call) and isinstance(d.value.func, ast.Name):
                    target = project.resolve(mod, d.value.func.id)
                made.add(target if isinstance(target, ClassInfo) and project.find_method(target, "__new__") is None and project.find_method(target, "__getattr__") is None else None)
            if len(made) == 1 and None not in made:
                out[id(n)] = made.pop()
    return out


def check_attributes(ctx, world, mod, cls, node, name, made=()):
    """In one function (with its nested functions)."""
    project = world.project
    selfname = None
    static = any(ast.unparse(d) == "staticmethod" for d in node.decorator_list)
    if cls is not None and not static and node.args.args:
        selfname = node.args.args[0].arg
    locs = {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | {a.arg for f in ast.walk(node) if isinstance(f, (ast.FunctionDef, ast.Lambda)) for a in f.args.args + f.args.kwonlyargs}
    guarded = {ast.unparse(n.args[0]) + "." + str(n.args[1].value) for n in ast.walk(node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("hasattr", "getattr") and len(n.args) > 1 and isinstance(n.args[1], ast.Constant)}
    # modules read at run time
    loaded = {t.id for n in ast.walk(node) if isinstance(n, ast.Assign) and any(isinstance(c, ast.Call) and ast.unparse(c.func).split(".")[-1] in ("import_module", "__import__", "module_from_spec") for c in ast.walk(n.value))
              for t in n.targets if isinstance(t, ast.Name)}
    good = True
    for n in ast.walk(node):
        if not isinstance(n, ast.Attribute) or not isinstance(n.ctx, ast.Load) or isinstance(n.value, ast.Name) and n.value.id in loaded:
            continue
        attr = mangle(n.attr, cls)
        where, known, what = "%s:%d" % (mod.rel, n.lineno), None, None
        if ast.unparse(n.value) + "." + n.attr in guarded:
            continue
        if isinstance(n.value, ast.Name):
            base = n.value.id
            if base == selfname:
                known, what = world.attributes(cls), "the object"
            elif id(n.value) in made:
                known, what = world.attributes(made[id(n.value)], False), "an object of class " + made[id(n.value)].name
            elif base not in locs:
                target = project.resolve(mod, base)
                if isinstance(target, ClassInfo):
                    known, what = world.attributes(target, False), "class " + base
                elif isinstance(target, Module):
                    known, what = world.globals[target.name], "module " + base
                    if project._find_module(target, target.name + "." + n.attr) is not None:  # pylint: disable=protected-access
                        continue
                elif base in mod.imports:
                    obj = external(project, mod, n.value)
                    if obj is not None:
                        if external(project, mod, n) is None and not hasattr(obj, n.attr):
                            ctx.bad("attributes", "%s:%s.%s" % (name, base, n.attr), "%s: %s has no %s" % (where, base, n.attr))
                            good = False
                        continue
        if known is None:
            if n.attr not in world.any and attr not in world.any:
                ctx.bad("attributes", "%s:%s" % (name, n.attr), "%s: nothing has an attribute %s" % (where, n.attr))
                good = False
        elif "*" not in known and attr not in known and n.attr not in ("__class__", "__doc__", "__name__", "__dict__"):
            ctx.bad("attributes", "%s:%s" % (name, n.attr), "%s: %s has no %s" % (where, what, n.attr))
            good = False
    if good:
        ctx.ok("attributes", name)


# ---------------------------------------------------------------- calls
def signature_error(fi, call, skip):
    """Why the arguments of CALL do not fit, or None."""
    a = fi.node.args
    pos = [x.arg for x in a.posonlyargs + a.args][skip:]
    required = pos[:len(pos) - len(a.defaults)] if a.defaults else list(pos)
    if len(a.defaults) > len(pos):
        required = []
    kwonly = {x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults)}
    starred = any(isinstance(x, ast.Starred) for x in call.args)
    double = any(k.arg is None for k in call.keywords)
    given = len([x for x in call.args if not isinstance(x, ast.Starred)])
    if given > len(pos) and a.vararg is None:
        return "takes %d arguments, %d are given" % (len(pos), given)
    names = [k.arg for k in call.keywords if k.arg]
    for k in names:
        if k not in pos and k not in kwonly and a.kwarg is None:
            return "has no parameter %s" % k
        if not starred and k in pos[:given]:
            return "is given %s twice" % k
    if not starred and not double:
        for p in required[given:]:
            if p not in names:
                return "is not given %s" % p
        for k, d in kwonly.items():
            if d is None and k not in names:
                return "is not given %s" % k
    return None


def targets_of(world, mod, cls, node, call, locs):
    """[(function, parameters bound already)] of a call, None if not known."""
    project = world.project
    f = call.func
    if isinstance(f, ast.Name):
        if f.id in locs:
            return None
        target = project.resolve(mod, f.id)
        if isinstance(target, FuncInfo):
            return [(target, 0)]
        if isinstance(target, ClassInfo):
            return ctor(project, target)
        return None
    if not isinstance(f, ast.Attribute):
        return None
    base = f.value
    static = any(ast.unparse(d) == "staticmethod" for d in node.decorator_list)
    selfname = node.args.args[0].arg if cls is not None and not static and node.args.args else None
    attr = f.attr

    def bound(fi):
        return (fi, 0 if fi.is_static else 1)
    if isinstance(base, ast.Call) and isinstance(base.func, ast.Name) and base.func.id == "super" and cls is not None:
        for cur in project.mro(cls)[1:]:
            if attr in cur.methods:
                return [bound(cur.methods[attr])]
        return None
    if isinstance(base, ast.Name) and base.id == selfname:
        got = [c.methods.get(attr) for c in project.mro(cls) if attr in c.methods][:1] or [c.methods[attr] for c in project.subclasses(cls) if attr in c.methods]
        got = [g for g in got if g is not None and not g.is_property]
        return [bound(g) for g in got] or None
    if isinstance(base, ast.Name) and base.id not in locs:
        target = project.resolve(mod, base.id)
        if isinstance(target, ClassInfo):
            fi = project.find_method(target, attr)
            if fi is None or fi.is_property:
                return None
            return [(fi, 1 if fi.is_classmethod else 0)]
        if isinstance(target, Module):
            sub = project.resolve(target, attr)
            if isinstance(sub, FuncInfo):
                return [(sub, 0)]
            if isinstance(sub, ClassInfo):
                return ctor(project, sub)
            return None
        if isinstance(target, tuple) and target[0] == 'ext':
            return None
    if attr in world.ext or attr.startswith("__"):
        return None
    got = [fi for fi in world.methods.get(attr, ())]
    if not got or any(fi.is_property for fi in got):
        return None
    for m in project.modules.values():
        if attr in m.funcs:
            return None
    return [bound(fi) for fi in got]


def ctor(project, cls):
    fi = project.find_method(cls, "__init__")
    new = project.find_method(cls, "__new__")
    if new is not None or fi is None:
        return None
    return [(fi, 1)]


def check_calls(ctx, world, mod, cls, node, name):
    locs = {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | {a.arg for f in ast.walk(node) if isinstance(f, (ast.FunctionDef, ast.Lambda)) for a in f.args.args + f.args.kwonlyargs}
    locs |= {f.name for f in ast.walk(node) if isinstance(f, ast.FunctionDef) and f is not node}
    num, good = 0, True
    for n in ast.walk(node):
        if not isinstance(n, ast.Call):
            continue
        targets = targets_of(world, mod, cls, node, n, locs)
        if not targets or any(d for t, _ in targets for d in t.decorators if d not in ("staticmethod", "classmethod", "property")):
            continue
        num += 1
        errs = [signature_error(t, n, skip) for t, skip in targets]
        if all(errs):
            good = False
            ctx.bad("calls", "%s:%s" % (name, ast.unparse(n.func)), "%s:%d: %s %s" % (mod.rel, n.lineno, ast.unparse(n.func), errs[0]))
    if num and good:
        ctx.ok("calls", name)
    return num


# ---------------------------------------------------------------- formats
def fields(text):
    """(number of positional values, names) a format needs; None if it is not valid."""
    auto, high, names, numbered = 0, -1, set(), False
    todo = [text]
    while todo:
        try:
            parts = list(string.Formatter().parse(todo.pop(0)))
        except ValueError as err:
            return str(err)
        for _, field, spec, _ in parts:
            if field is None:
                continue
            root = field.split(".")[0].split("[")[0]
            if root == "":
                auto += 1
            elif root.isdigit():
                high, numbered = max(high, int(root)), True
            else:
                names.add(root)
            if spec and "{" in spec:
                todo.append(spec)
    if auto and numbered:
        return "it mixes numbered and unnumbered values"
    return max(auto, high + 1), names


def texts(reach, stmt, expr, depth=0):
    """The constant texts an expression may be, None if not known."""
    if isinstance(expr, ast.Constant) and isinstance(expr.value, str):
        return [expr.value]
    if isinstance(expr, ast.BinOp) and isinstance(expr.op, ast.Add):
        a, b = texts(reach, stmt, expr.left, depth), texts(reach, stmt, expr.right, depth)
        return [x + y for x in a for y in b] if a and b and len(a) * len(b) < 20 else None
    if isinstance(expr, ast.IfExp):
        a, b = texts(reach, stmt, expr.body, depth), texts(reach, stmt, expr.orelse, depth)
        return a + b if a and b else None
    if isinstance(expr, ast.Name) and depth < 4:
        env = reach.at.get(id(stmt)) if not isinstance(stmt, dict) else stmt
        defs = (env or {}).get(expr.id)
        if not defs:
            return None
        out = []
        for d in defs:
            if d.target or id(d.value) not in reach.plain and id(d.value) not in reach.augmented:
                return None
            got = texts(reach, d.env, d.value, depth + 1)
            if got and id(d.value) in reach.augmented:
                before = texts(reach, d.env, expr, depth + 1)
                got = [b + g for b in before for g in got] if before else None
            if got is None or len(got) > 20:
                return None
            out += got
        return out
    return None


def percents(text):
    """How many values a % format takes, None if it takes names."""
    num, i = 0, 0
    while i < len(text):
        if text[i] == "%":
            i += 1
            if i < len(text) and text[i] == "%":
                i += 1
                continue
            if i < len(text) and text[i] == "(":
                return None
            while i < len(text) and text[i] in "#0- +.*0123456789hlL":
                num += text[i] == "*"
                i += 1
            num += 1
        i += 1
    return num


class Texts(Reach):
    """An augmented assignment replaces the value."""
    def stmt(self, s, env):
        if isinstance(s, ast.AugAssign):
            self.note(s, env)
            return self.stores(self.mutations(env, s.value), s.target, s.value, s)
        return super().stmt(s, env)


def check_formats(ctx, mod, fi, name):
    reach = Texts(fi)
    reach.augmented = {id(n.value) for n in ast.walk(fi.node) if isinstance(n, ast.AugAssign) and isinstance(n.op, ast.Add) and isinstance(n.target, ast.Name)}
    reach.plain = {id(n.value) for n in ast.walk(fi.node) if isinstance(n, ast.Assign) and all(isinstance(t, ast.Name) for t in n.targets)}
    num = 0
    for stmt in statements(fi.node):
        for n in own_expressions(stmt):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "format":
                got = texts(reach, stmt, n.func.value)
                if got is None or any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
                    continue
                for text in got:
                    num += 1
                    need = fields(text)
                    if isinstance(need, str):
                        ctx.bad("formats", "%s:%s" % (name, text[:40]), "%s:%d: the format %r is not valid: %s" % (mod.rel, n.lineno, text[:60], need))
                        continue
                    missing = need[1] - {k.arg for k in n.keywords}
                    ctx.check(need[0] <= len(n.args) and not missing, "formats", "%s:%s" % (name, text[:40]),
                              "%s:%d: the format %r needs %s" % (mod.rel, n.lineno, text[:60], "values named " + ", ".join(sorted(missing)) if missing else "%d values, not %d" % (need[0], len(n.args))))
            elif isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod):
                got = texts(reach, stmt, n.left)
                for text in got or ():
                    need = percents(text)
                    if need is None or isinstance(n.right, ast.Tuple) and any(isinstance(a, ast.Starred) for a in n.right.elts):
                        continue
                    if isinstance(n.right, ast.Tuple):
                        num += 1
                        ctx.check(need == len(n.right.elts), "formats", "%s:%s" % (name, text[:40]), "%s:%d: the format %r takes %d values, not %d" % (mod.rel, n.lineno, text[:60], need, len(n.right.elts)))
                    elif isinstance(n.right, (ast.Constant, ast.JoinedStr)) or need == 0:
                        num += 1
                        ctx.check(need == 1, "formats", "%s:%s" % (name, text[:40]), "%s:%d: the format %r takes %d values, not 1" % (mod.rel, n.lineno, text[:60], need))
    return num


def statements(node):
    for n in own_nodes(node):
        if isinstance(n, ast.stmt):
            yield n


def own_expressions(stmt):
    """The expressions of a statement, not those of the statements in it."""
    for child in ast.iter_child_nodes(stmt):
        if isinstance(child, ast.stmt) or isinstance(child, (ast.ExceptHandler, ast.match_case)):
            continue
        yield child
        yield from own_expressions(child)


# ---------------------------------------------------------------- unpacking
def result_size(fi):
    """How many parts the result of a function always has; 0: it has no result; None: not known."""
    rets = [n for n in own_nodes(fi.node) if isinstance(n, ast.Return)]
    if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own_nodes(fi.node)):
        return None
    if not [r for r in rets if r.value is not None]:
        body = [s for s in fi.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
        return None if all(isinstance(s, (ast.Pass, ast.Raise)) for s in body) else 0
    sizes = {len(r.value.elts) if isinstance(r.value, ast.Tuple) and not any(isinstance(e, ast.Starred) for e in r.value.elts) else None for r in rets if r.value is not None}
    return sizes.pop() if len(sizes) == 1 else None


def check_unpacking(ctx, world, mod, cls, node, name):
    locs = {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | {a.arg for a in node.args.args}
    num = 0
    for n in ast.walk(node):
        if not isinstance(n, ast.Assign) or not isinstance(n.value, ast.Call) or not isinstance(n.targets[0], (ast.Tuple, ast.List)):
            continue
        elts = n.targets[0].elts
        targets = targets_of(world, mod, cls, node, n.value, locs)
        if not targets or any(isinstance(e, ast.Starred) for e in elts):
            continue
        if any(t.name == "__init__" for t, _ in targets):
            made = world.project.resolve(mod, ast.unparse(n.value.func).split(".")[-1])
            if isinstance(made, ClassInfo) and not world.project.has_external_base(made):
                num += 1
                ctx.check(world.project.find_method(made, "__iter__") is not None, "unpacking", "%s:%s" % (name, ast.unparse(n.value.func)), "%s:%d: an object of %s is unpacked" % (mod.rel, n.lineno, made.name))
            continue
        sizes = {result_size(t) for t, _ in targets}
        if len(sizes) != 1 or None in sizes:
            continue
        size = sizes.pop()
        num += 1
        ctx.check(size == len(elts), "unpacking", "%s:%s" % (name, ast.unparse(n.value.func)),
                  "%s:%d: %s has %d results, not %d" % (mod.rel, n.lineno, ast.unparse(n.value.func), size, len(elts)))
    return num


# ---------------------------------------------------------------- comparisons
def check_compare(ctx, world, mod, node, name):
    own = set()
    for names in world.own.values():
        own |= names
    for n in ast.walk(node):
        if isinstance(n, ast.Compare) and not any(isinstance(o, (ast.Is, ast.IsNot, ast.In, ast.NotIn)) for o in n.ops):
            for side in [n.left] + n.comparators:
                if isinstance(side, ast.Attribute) and side.attr in STR_METHODS and side.attr not in own and not isinstance(side.value, ast.Name):
                    ctx.bad("compare", "%s:%s" % (name, ast.unparse(side)), "%s:%d: the method %s is compared, not its result" % (mod.rel, n.lineno, ast.unparse(side)))
                elif isinstance(side, ast.Attribute) and side.attr in STR_METHODS and side.attr not in own:
                    target = world.project.resolve(mod, side.value.id)
                    if not isinstance(target, (ClassInfo, Module)) and not (isinstance(target, tuple) and target[0] == 'ext'):
                        ctx.bad("compare", "%s:%s" % (name, ast.unparse(side)), "%s:%d: the method %s is compared, not its result" % (mod.rel, n.lineno, ast.unparse(side)))


def check(ctx, project):
    for name, text in RULES.items():
        ctx.rule(name, text)
    world = World(project)
    calls = forms = unpack = 0
    for mod in sorted(project.modules.values(), key=lambda m: m.name):
        check_names(ctx, world, mod)
        owner, classes = {}, {}
        for fi in mod.all_funcs():
            owner[fi.node] = fi.qualname
            classes[fi.node] = fi.cls
        check_bound(ctx, mod, owner)
        for fi in mod.all_funcs():
            ctx.saw(fi)
            name = fi.ident
            check_attributes(ctx, world, mod, fi.cls, fi.node, name, made_objects(world, mod, fi))
            calls += check_calls(ctx, world, mod, fi.cls, fi.node, name)
            unpack += check_unpacking(ctx, world, mod, fi.cls, fi.node, name)
            check_compare(ctx, world, mod, fi.node, name)
            forms += check_formats(ctx, mod, fi, name)
            for sub in ast.walk(fi.node):
                if isinstance(sub, ast.FunctionDef) and sub is not fi.node:
                    forms += check_formats(ctx, mod, FuncInfo(mod, sub, outer=fi), name)
    ctx.count("calls resolved", calls)
    ctx.count("formats", forms)
    ctx.count("unpackings", unpack)
    ctx.at_least("bound", 300)
    ctx.at_least("attributes", 300)
    ctx.at_least("formats", 100)
