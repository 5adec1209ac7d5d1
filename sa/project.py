"""Loading and name resolution for the Python sources under /repo/scripts.

Everything here works on syntax trees; nothing from /repo is imported or run.
"""
import ast
import os

from . import inline

REPO = os.environ.get("VERIF_REPO", "/repo")


class AnalysisBroken(Exception):
    """An anchor of a rule could not be found: the analysis gives no answer."""


class FuncInfo:
    """One function or method."""
    def __init__(self, module, node, cls=None, outer=None):
        self.module = module
        self.node = node
        self.cls = cls
        self.outer = outer
        self.name = node.name
        if outer is not None:
            self.qualname = outer.qualname + ".<locals>." + node.name
        elif cls is not None:
            self.qualname = cls.name + "." + node.name
        else:
            self.qualname = node.name
        decs = [ast.unparse(d) for d in node.decorator_list]
        self.decorators = decs
        self.is_property = "property" in decs
        self.is_setter = any(d.endswith(".setter") for d in decs)
        self.is_classmethod = "classmethod" in decs
        self.is_static = "staticmethod" in decs

    @property
    def ident(self):
        return "%s:%s" % (self.module.name, self.qualname)

    @property
    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    def where(self, node=None):
        node = node or self.node
        return "%s:%d (%s)" % (self.module.rel, getattr(node, "lineno", 0),
                               self.qualname)

    def __repr__(self):
        return "<F %s>" % self.ident


class ClassInfo:
    """One class with its own members (use Project.mro for inheritance)."""
    def __init__(self, module, node):
        self.module = module
        self.node = node
        self.name = node.name
        self.methods = {}
        self.setters = {}
        self.consts = {}
        for item in node.body:
            if isinstance(item, (ast.FunctionDef, ast.AsyncFunctionDef)):
                fi = FuncInfo(module, item, cls=self)
                if fi.is_setter:
                    self.setters[item.name] = fi
                else:
                    self.methods[item.name] = fi
            elif isinstance(item, ast.Assign):
                for tgt in item.targets:
                    if isinstance(tgt, ast.Name):
                        self.consts[tgt.id] = item.value
            elif isinstance(item, ast.AnnAssign) and item.value is not None:
                if isinstance(item.target, ast.Name):
                    self.consts[item.target.id] = item.value
        self.bases = [ast.unparse(b) for b in node.bases]

    def __repr__(self):
        return "<C %s:%s>" % (self.module.name, self.name)


class Module:
    """One parsed source file."""
    def __init__(self, path, rel, name):
        self.path = path
        self.rel = rel
        self.name = name
        with open(path, encoding="utf-8") as src:
            self.src = src.read()
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            self.tree = inline.normalise(ast.parse(self.src, filename=path), rel, path[:-len(rel)])
        self.funcs = {}
        self.classes = {}
        self.imports = {}
        self.consts = {}
        self.const_nodes = {}
        for node in self._toplevel(self.tree.body):
            if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.funcs[node.name] = FuncInfo(self, node)
            elif isinstance(node, ast.ClassDef):
                self.classes[node.name] = ClassInfo(self, node)
            elif isinstance(node, ast.Import):
                for al in node.names:
                    self.imports[al.asname or al.name.split(".")[0]] = \
                        (al.name if al.asname else al.name.split(".")[0], None)
            elif isinstance(node, ast.ImportFrom):
                for al in node.names:
                    self.imports[al.asname or al.name] = \
                        (("." * node.level) + (node.module or ""), al.name)
            elif isinstance(node, ast.Assign):
                for tgt in node.targets:
                    if isinstance(tgt, ast.Name):
                        self.consts[tgt.id] = node.value
            elif isinstance(node, ast.AnnAssign):
                if isinstance(node.target, ast.Name) and node.value is not None:
                    self.consts[node.target.id] = node.value

    @staticmethod
    def _toplevel(body):
        for node in body:
            yield node
            if isinstance(node, (ast.If, ast.Try)):
                subs = list(node.body) + list(node.orelse)
                if isinstance(node, ast.Try):
                    for hnd in node.handlers:
                        subs += hnd.body
                    subs += node.finalbody
                for sub in Module._toplevel(subs):
                    yield sub

    def all_funcs(self):
        """Every function and method, nested ones excluded."""
        for func in self.funcs.values():
            yield func
        for cls in self.classes.values():
            for func in cls.methods.values():
                yield func
            for func in cls.setters.values():
                yield func


class Project:
    """The set of modules under scripts/ (subpackages included)."""
    SUBDIRS = ("", "parse_tools", "fortran_tools", "conversion_tools")

    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.modules = {}
        self.by_rel = {}
        root = os.path.join(self.repo, "scripts")
        for sub in self.SUBDIRS:
            adir = os.path.join(root, sub)
            if not os.path.isdir(adir):
                raise AnalysisBroken("missing source directory %s" % adir)
            for fname in sorted(os.listdir(adir)):
                if not fname.endswith(".py"):
                    continue
                stem = fname[:-3]
                if stem == "__init__":
                    name = sub
                else:
                    name = (sub + "." + stem) if sub else stem
                path = os.path.join(adir, fname)
                rel = os.path.relpath(path, self.repo)
                mod = Module(path, rel, name)
                self.modules[name] = mod
                self.by_rel[rel] = mod

    # -- lookup ----------------------------------------------------------
    def mod(self, name):
        if name not in self.modules:
            raise AnalysisBroken("module %s not found" % name)
        return self.modules[name]

    def func(self, modname, qual):
        """Find a function anchor; raise AnalysisBroken if it vanished."""
        mod = self.mod(modname)
        if "." in qual:
            cname, fname = qual.split(".", 1)
            cls = mod.classes.get(cname)
            if cls is None:
                # the class may have been moved and re-exported
                target = self.resolve(mod, cname)
                cls = target if isinstance(target, ClassInfo) else None
            if cls is None:
                raise AnalysisBroken("class %s not in %s" % (cname, modname))
            fi = self.find_method(cls, fname)
            if fi is None:
                raise AnalysisBroken("%s not in %s" % (qual, modname))
            return fi
        target = self.resolve(mod, qual)
        if isinstance(target, FuncInfo):
            return target
        raise AnalysisBroken("function %s not in %s" % (qual, modname))

    def cls(self, modname, name):
        target = self.resolve(self.mod(modname), name)
        if isinstance(target, ClassInfo):
            return target
        raise AnalysisBroken("class %s not in %s" % (name, modname))

    def _find_module(self, frommod, name):
        level = len(name) - len(name.lstrip("."))
        name = name.lstrip(".")
        cands = []
        pkg = frommod.name.split(".")[0] if "." in frommod.name else \
            (frommod.name if frommod.name in self.SUBDIRS else "")
        if level:
            cands.append((pkg + "." + name) if (pkg and name) else (pkg or name))
        else:
            cands.append(name)
            # scripts put their subdirectories on sys.path
            if pkg:
                cands.append(pkg + "." + name)
            for sub in self.SUBDIRS[1:]:
                cands.append(sub + "." + name)
        for cand in cands:
            if cand in self.modules:
                return self.modules[cand]
        return None

    def resolve(self, mod, name, _seen=None):
        """Resolve a module-level name to FuncInfo, ClassInfo, Module,
        ('const', module, node), ('ext', dotted) or None."""
        seen = _seen or set()
        if (mod.name, name) in seen:
            return None
        seen.add((mod.name, name))
        if name in mod.funcs:
            return mod.funcs[name]
        if name in mod.classes:
            return mod.classes[name]
        if name in mod.consts:
            return ("const", mod, mod.consts[name])
        if name in mod.imports:
            src, what = mod.imports[name]
            target = self._find_module(mod, src)
            if what is None:
                return target if target is not None else ("ext", src)
            if target is None:
                return ("ext", src + "." + what)
            res = self.resolve(target, what, seen)
            if res is None:
                sub = self._find_module(target, (target.name + "." + what))
                return sub
            return res
        return None

    # -- classes ---------------------------------------------------------
    def mro(self, cls):
        out = []
        todo = [cls]
        while todo:
            cur = todo.pop(0)
            if cur in out:
                continue
            out.append(cur)
            for base in cur.bases:
                target = self.resolve(cur.module, base.split(".")[-1])
                if isinstance(target, ClassInfo):
                    todo.append(target)
        return out

    def has_external_base(self, cls):
        """True if some base is not defined in the project (object aside)."""
        for cur in self.mro(cls):
            for base in cur.bases:
                if base == "object":
                    continue
                target = self.resolve(cur.module, base.split(".")[-1])
                if not isinstance(target, ClassInfo):
                    return True
        return False

    def find_method(self, cls, name, setter=False):
        for cur in self.mro(cls):
            table = cur.setters if setter else cur.methods
            if name in table:
                return table[name]
            if name.startswith("_" + cur.name + "__"):
                short = name[len(cur.name) + 1:]
                if short in table:
                    return table[short]
        return None

    def find_class_const(self, cls, name):
        for cur in self.mro(cls):
            if name in cur.consts:
                return cur, cur.consts[name]
            if name.startswith("_" + cur.name + "__") and name[len(cur.name) + 1:] in cur.consts:
                return cur, cur.consts[name[len(cur.name) + 1:]]
        return None, None

    def subclasses(self, cls):
        out = []
        for mod in self.modules.values():
            for cur in mod.classes.values():
                if cls in self.mro(cur):
                    out.append(cur)
        return out

    def all_funcs(self):
        for mod in self.modules.values():
            for func in mod.all_funcs():
                yield func
