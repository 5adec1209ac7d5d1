"""A name-resolved (over-approximate) call graph."""
import ast

from .project import FuncInfo, ClassInfo, Module


class CallGraph:
    def __init__(self, project):
        self.p = project
        self.by_name = {}
        for fi in project.all_funcs():
            if fi.cls is not None:
                self.by_name.setdefault(fi.name, []).append(fi)
        self.callees = {}
        for fi in project.all_funcs():
            self.callees[fi] = self._callees(fi)

    def resolve_call(self, fi, node):
        """Possible project targets of a call node inside FI."""
        func = node.func
        out = []
        if isinstance(func, ast.Name):
            tgt = self.p.resolve(fi.module, func.id)
            if isinstance(tgt, FuncInfo):
                out.append(tgt)
            elif isinstance(tgt, ClassInfo):
                init = self.p.find_method(tgt, "__init__")
                if init:
                    out.append(init)
        elif isinstance(func, ast.Attribute):
            attr = func.attr
            base = func.value
            if isinstance(base, ast.Name):
                if base.id in ("self", "cls") and fi.cls is not None:
                    name = attr
                    found = []
                    for cls in [fi.cls] + self.p.subclasses(fi.cls):
                        m = self.p.find_method(cls, name)
                        if m and m not in found:
                            found.append(m)
                    if found:
                        return found
                tgt = self.p.resolve(fi.module, base.id)
                if isinstance(tgt, Module):
                    sub = self.p.resolve(tgt, attr)
                    if isinstance(sub, FuncInfo):
                        return [sub]
                    return []
                if isinstance(tgt, ClassInfo):
                    m = self.p.find_method(tgt, attr)
                    return [m] if m else []
                if isinstance(tgt, tuple) and tgt[0] == "ext":
                    return []
            if isinstance(base, ast.Call) and isinstance(base.func, ast.Name) and \
                    base.func.id == "super" and fi.cls is not None:
                for cls in self.p.mro(fi.cls)[1:]:
                    if attr in cls.methods:
                        return [cls.methods[attr]]
                return []
            out += self.by_name.get(attr, [])
        return out

    def _callees(self, fi):
        out = set()
        for node in ast.walk(fi.node):
            if isinstance(node, ast.Call):
                out.update(self.resolve_call(fi, node))
            elif isinstance(node, ast.Attribute) and isinstance(node.ctx, ast.Load):
                for m in self.by_name.get(node.attr, []):
                    if m.is_property:
                        out.add(m)
        return out

    def reaching(self, pred):
        """Functions that contain, or may call a function containing, a call
        node satisfying PRED(fi, node)."""
        hit = set()
        for fi in self.callees:
            for node in ast.walk(fi.node):
                if isinstance(node, ast.Call) and pred(fi, node):
                    hit.add(fi)
                    break
        changed = True
        while changed:
            changed = False
            for fi, callees in self.callees.items():
                if fi not in hit and callees & hit:
                    hit.add(fi)
                    changed = True
        return hit

    def closure(self, roots):
        """Functions reachable from ROOTS."""
        seen = set()
        todo = list(roots)
        while todo:
            cur = todo.pop()
            if cur in seen:
                continue
            seen.add(cur)
            todo += list(self.callees.get(cur, ()))
        return seen
