"""C04: a step that fails makes the whole run fail."""
import ast

from sa.absint import Interp, Rule, K, TRUE, FALSE, NONE, show
from sa.callgraph import CallGraph
from sa.project import AnalysisBroken, FuncInfo

# command line programs and libraries of the two generators
# (preprocess: an #if that cannot be evaluated is by design not an error)
SCOPE_OUT = {"mkdoc", "metadata2html", "ccpp_track_variables", "parse_tools.preprocess"}
ERROR_LOG = {"error", "critical", "exception"}
EXITS = {"sys.exit", "exit", "os._exit", "quit"}
PROJECT_BASES = {"Exception", "BaseException", "ValueError"}
BUILTIN_NARROW = {"AttributeError", "IndexError", "KeyError", "TypeError", "OSError", "IOError",
                  "SyntaxError", "UnicodeDecodeError", "FileNotFoundError", "StopIteration",
                  "ImportError", "subprocess.CalledProcessError"}
# messages that are, by the documentation, advice and not errors
WARNINGS = (
    "Parsing suite definition file using legacy naming convention", "Filename ", "Suite name ",
    "Conditionally allocated host-model variable", "Unconditionally allocated host-model variable",
    "Encountered closing statement", "Warning, encountered closing statement",
    "Old metadata table found for table", "Unable to remove ",
    "WARNING: Ignoring duplicate ", "WARNING: Not reading ", "Error: Bad preproc list type",
    "xmllint not found", "CCPPFrameworkEnv: Using ndict, ignoring ", "WARNING: Invalid variable declaration",
)


def main_blocks(project):
    """The `if __name__ == "__main__"` bodies as pseudo functions."""
    out = []
    for mod in project.modules.values():
        for node in mod.tree.body:
            if isinstance(node, ast.If) and "__name__" in ast.unparse(node.test) and \
                    "__main__" in ast.unparse(node.test) and "__package__" not in ast.unparse(node.test):
                fn = ast.FunctionDef(name="__main__", args=ast.arguments(
                    posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]),
                    body=node.body, decorator_list=[], lineno=node.lineno, col_offset=0)
                out.append(FuncInfo(mod, fn))
    return out


def own_nodes(fi):
    """Nodes of FI that do not belong to a nested function."""
    todo = list(fi.node.body)
    while todo:
        cur = todo.pop()
        yield cur
        if isinstance(cur, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        todo += list(ast.iter_child_nodes(cur))


def is_log(node, which):
    """Is NODE a call of a logging method in WHICH?"""
    if not (isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr in which):
        return False
    base = ast.unparse(node.func.value).lower()
    return "log" in base.split(".")[-1]


class Flags:
    """Functions that return a success flag, and at which position."""
    def __init__(self, project, graph, mains):
        self.graph = graph
        self.pos = {}       # FuncInfo -> (position or None, arity)
        self.may_fail = set()
        cands = [fi for fi in project.all_funcs() if fi.module.name not in SCOPE_OUT]
        changed = True
        while changed:
            changed = False
            for fi in cands:
                if fi in self.pos:
                    continue
                got = self.flag_position(fi)
                if got is not None:
                    self.pos[fi] = got
                    changed = True
        changed = True
        while changed:
            changed = False
            for fi in self.pos:
                if fi not in self.may_fail and self.can_fail(fi):
                    self.may_fail.add(fi)
                    changed = True

    def targets(self, fi, call):
        return [t for t in self.graph.resolve_call(fi, call) if t in self.pos]

    def flag_names(self, fi):
        """Locals that only ever hold a success flag."""
        good, bad = set(), set()
        for node in own_nodes(fi):
            if isinstance(node, ast.Assign):
                for tgt in node.targets:
                    if isinstance(tgt, ast.Name):
                        if isinstance(node.value, ast.Constant) and isinstance(node.value.value, bool):
                            good.add(tgt.id)
                        elif isinstance(node.value, ast.Call) and any(
                                self.pos[t][0] is None for t in self.targets(fi, node.value)):
                            good.add(tgt.id)
                        else:
                            bad.add(tgt.id)
                    elif isinstance(tgt, ast.Tuple):
                        tpos = {self.pos[t][0] for t in self.targets(fi, node.value)} \
                            if isinstance(node.value, ast.Call) else set()
                        recursive = isinstance(node.value, ast.Call) and \
                            fi in self.graph.resolve_call(fi, node.value)
                        for num, elt in enumerate(tgt.elts):
                            if isinstance(elt, ast.Name) and not recursive:
                                (good if num in tpos else bad).add(elt.id)
            elif isinstance(node, (ast.AugAssign, ast.For)):
                for sub in ast.walk(node.target):
                    if isinstance(sub, ast.Name):
                        bad.add(sub.id)
        return good - bad

    def flag_position(self, fi):
        names = self.flag_names(fi)
        direct = any(is_log(n, ERROR_LOG) for n in own_nodes(fi))
        if not names and not direct:
            return None
        rets = [n for n in own_nodes(fi) if isinstance(n, ast.Return)]
        found = set()
        logs = direct or any(isinstance(n, ast.Call) and self.targets(fi, n) for n in own_nodes(fi))
        step = "success" in names
        if not (logs or step):
            return None
        whole = {}
        for node in own_nodes(fi):
            if isinstance(node, ast.Assign) and isinstance(node.value, ast.Tuple):
                for tgt in node.targets:
                    if isinstance(tgt, ast.Name):
                        whole[tgt.id] = node.value
        for ret in rets:
            val = ret.value
            if isinstance(val, ast.Name) and val.id in whole:
                val = whole[val.id]
            if isinstance(val, ast.Name) and val.id in names:
                found.add((None, 0))
            elif isinstance(val, ast.Tuple):
                for num, elt in enumerate(val.elts):
                    if isinstance(elt, ast.Name) and elt.id in names:
                        found.add((num, len(val.elts)))
            elif isinstance(val, ast.Constant) and isinstance(val.value, bool) and logs:
                found.add((None, 0))
        if len({f[0] for f in found}) != 1:
            return None
        return max(found)

    def can_fail(self, fi):
        names = self.flag_names(fi)
        for node in own_nodes(fi):
            if isinstance(node, ast.Assign) and isinstance(node.value, ast.Constant) and \
                    node.value.value is False and any(
                        isinstance(t, ast.Name) and t.id in names for t in node.targets):
                return True
            if isinstance(node, ast.Return) and node.value is not None and any(
                    isinstance(e, ast.Constant) and e.value is False for e in
                    (node.value.elts if isinstance(node.value, ast.Tuple) else [node.value])):
                return True
            if isinstance(node, ast.Call) and any(t in self.may_fail for t in self.targets(fi, node)):
                return True
        return False


class Fail(Rule):
    """ts: names of failures seen on this path and not yet discharged."""
    merge = True
    keep_none = True
    merge_over = 6
    liveness = True
    eager = True
    text = False
    max_depth = 3

    def __init__(self, top, flags, handlers, recorders, helpers=()):
        self.top = top
        self.flags = flags
        self.handlers = handlers   # id(first statement) -> handler node
        self.recorders = recorders
        self.helpers = helpers
        self.seen = set()
        self.bad_exits = []

    def inline(self, fi, depth):
        # helpers of the module that are not steps themselves
        return fi in self.helpers

    def mark(self, st, what):
        self.seen.add(what)
        return st.with_ts(st.ts | {what})

    def on_stmt(self, ip, st, node):
        hnd = self.handlers.get(id(node))
        if hnd is not None:
            return self.mark(st, ('caught', hnd.lineno))
        return st

    def on_call(self, ip, st, node, name, target, recv, args, kwargs):
        short = getattr(target, "name", name.split(".")[-1])
        if is_log(node, ERROR_LOG):
            return [(self.mark(st, ('logged', node.lineno)), NONE)]
        if name in EXITS or short in ("_exit",):
            code = args[0] if args else NONE
            if code[0] == 'k' and not code[2]:
                if st.ts:
                    self.bad_exits.append((st, node))
            return []
        if short in self.recorders:
            # the recorded message is tested and raised later (rule recorded)
            return [(st.with_ts(frozenset(e for e in st.ts if e[0] != 'caught')), NONE)]
        targets = [t for t in ([target] if isinstance(target, FuncInfo) else
                               self.flags.graph.resolve_call(ip.fi, node)) if t in self.flags.may_fail]
        if targets and not (targets[0] in self.helpers):
            pos, arity = self.flags.pos[targets[0]]

            def result(flag):
                if pos is None:
                    return flag
                return ('l', tuple(flag if i == pos else ('top', 'res', node.lineno, i)
                                   for i in range(arity)), 'tuple')
            return [(st, result(TRUE)), (self.mark(st, ('step', targets[0].name)), result(FALSE))]
        return None


def is_failure(val, pos):
    """Does the returned value say that the function failed?"""
    if pos is not None and val[0] == 'l' and val[2] == 'tuple' and len(val[1]) > pos:
        val = val[1][pos]
    return val[0] == 'k' and not val[2]


def raises_project(fi, body, graph, may_raise):
    """Can one of the statements raise an exception that the project defines?"""
    for stmt in body:
        for node in ast.walk(stmt):
            if isinstance(node, ast.Raise) and not (
                    node.exc is not None and ast.unparse(node.exc).startswith("ParseInternalError")):
                return True
            if isinstance(node, ast.Call) and any(t in may_raise for t in graph.resolve_call(fi, node)):
                return True
    return False


def handler_kinds(fi, graph, may_raise):
    """(handler, broad) for every exception handler of FI."""
    def parses_number(body):
        # the try/int() idiom: text that is not a number is handled otherwise
        first = body[0]
        return any(isinstance(n, ast.Call) and ast.unparse(n.func) in ("int", "float")
                   for n in ast.walk(first)) and not raises_project(fi, [first], graph, may_raise)

    out = []
    for node in own_nodes(fi):
        if not isinstance(node, ast.Try):
            continue
        for hnd in node.handlers:
            types = [] if hnd.type is None else \
                (hnd.type.elts if isinstance(hnd.type, ast.Tuple) else [hnd.type])
            names = [ast.unparse(t) for t in types]
            if names and all(n in BUILTIN_NARROW for n in names):
                broad = False
            elif names and all(n in BUILTIN_NARROW | {"ValueError"} for n in names):
                # the project's errors derive from ValueError
                broad = not parses_number(node.body) and raises_project(fi, node.body, graph, may_raise)
            else:
                broad = True
            out.append((hnd, broad))
    return out


def raising_functions(project, graph):
    """Functions that may raise a ValueError of the project."""
    hit = set()
    for fi in graph.callees:
        for node in own_nodes(fi):
            if isinstance(node, ast.Raise) and node.exc is not None and \
                    not ast.unparse(node.exc).startswith("ParseInternalError"):
                hit.add(fi)
    changed = True
    while changed:
        changed = False
        for fi, callees in graph.callees.items():
            if fi not in hit and callees & hit:
                hit.add(fi)
                changed = True
    return hit


def benign(fi, hnd):
    """Reviewed handlers that swallow an exception on purpose."""
    if fi.name == "__del__":
        return "an object being destroyed cannot report errors"
    return None


def soft_return(st, val):
    """A validation function called with error=False reports failure by None."""
    flag = [v for a, v in st.preds.items() if a[0] == 'truth' and a[1] == ('param', 'error')]
    return bool(flag) and flag[0] is False and val == NONE


def check_paths(ctx, project, graph, flags, mains):
    may_raise = raising_functions(project, graph)
    recorders = {"add_syntax_err"}
    helpers = small_helpers(project, graph, flags)
    num_logs = num_steps = num_handlers = 0
    funcs = [f for f in project.all_funcs() if f.module.name not in SCOPE_OUT] + \
        [m for m in mains if m.module.name not in SCOPE_OUT]
    for fi in funcs:
        nodes = list(own_nodes(fi))
        if fi in helpers:
            continue
        logs = [n for n in nodes if is_log(n, ERROR_LOG)]
        for node in nodes:
            if isinstance(node, ast.Call) and any(t in helpers for t in graph.resolve_call(fi, node)):
                logs += [n for t in graph.resolve_call(fi, node) if t in helpers
                         for n in own_nodes(t) if is_log(n, ERROR_LOG)]
        steps = [n for n in nodes if isinstance(n, ast.Call) and
                 any(t in flags.may_fail for t in graph.resolve_call(fi, n))]
        handlers = {}
        for hnd, broad in handler_kinds(fi, graph, may_raise):
            why = benign(fi, hnd)
            if broad and why:
                ctx.ok("handler", "%s:%s" % (fi.ident, why), fi.where(hnd))
            elif broad:
                handlers[id(hnd.body[0])] = hnd
        if not (logs or steps or handlers):
            continue
        if fi.name == "clean_capgen":
            continue      # nothing is generated
        rule = Fail(fi, flags, handlers, recorders, helpers)
        ip = Interp(project, rule)
        ip.step_limit = 3000000
        ex = ip.run(fi, ts=frozenset())
        ctx.saw(fi)
        pos = flags.pos.get(fi, (None, 0))[0]
        isflag = fi in flags.pos
        bad = {}
        for st, val, node in ex.ret:
            for mark in st.ts:
                if isflag and is_failure(val, pos):
                    continue
                if mark[0] == 'caught' and (soft_return(st, val) or val == FALSE):
                    continue
                if failing_status(st, val):
                    continue
                if mark[0] == 'logged' and excused_log(fi, mark, nodes):
                    continue
                bad.setdefault(mark, (st, node))
        for st, node in rule.bad_exits:
            for mark in st.ts:
                bad.setdefault(mark, (st, node))
        for mark in sorted(rule.seen, key=str):
            kind = {"logged": "error-logged", "step": "failed-step", "caught": "handler"}[mark[0]]
            what = fi.ident
            if mark[0] == 'step':
                what += ":" + mark[1]
                num_steps += 1
            elif mark[0] == 'caught':
                hnd = [h for h in handlers.values() if h.lineno == mark[1]][0]
                what += ":" + (ast.unparse(hnd.type) if hnd.type is not None else "bare")
                num_handlers += 1
            else:
                num_logs += 1
                what += ":" + message_key([n for n in logs if n.lineno == mark[1]], fi)
            if mark in bad:
                st, node = bad[mark]
                msg = {"logged": "an error is logged (line %s) and the function then completes normally",
                       "step": "the failure of %s does not make this function fail",
                       "caught": "the exception caught at line %s is swallowed"}[mark[0]] % mark[1]
                ctx.bad(kind, what, msg, fi.where(node))
            else:
                ctx.ok(kind, what, fi.where())
    ctx.count("steps", num_steps)
    ctx.at_least("error-logged", 12)
    ctx.at_least("failed-step", 8)
    ctx.at_least("handler", 8)


def failing_status(st, val):
    """Is (part of) the result a status known not to be zero?"""
    parts = val[1] if val[0] == 'l' else (val,)
    return any(a[0] == 'eq' and v is False and K(0) in a[1:] and
               any(p in a[1:] for p in parts) for a, v in st.preds.items())


def message_key(logs, fi):
    """A stable name for a logging call: the text it logs."""
    for node in logs:
        text = literal_of(node.args[0], fi) if node.args else ""
        return text[:40] if text else ast.unparse(node.args[0])[:30] if node.args else ""
    return ""


def literal_of(expr, fi, depth=0):
    """Leading literal text of a message expression."""
    if isinstance(expr, ast.Constant) and isinstance(expr.value, str):
        return expr.value
    if isinstance(expr, ast.JoinedStr):
        out = ""
        for part in expr.values:
            if not isinstance(part, ast.Constant):
                break
            out += part.value
        return out
    if isinstance(expr, ast.BinOp):
        text = literal_of(expr.left, fi, depth)
        if isinstance(expr.left, ast.Constant) and isinstance(expr.op, ast.Add):
            text += literal_of(expr.right, fi, depth)
        return text
    if isinstance(expr, ast.Call) and isinstance(expr.func, ast.Attribute) and expr.func.attr in (
            "format", "join", "rstrip", "strip"):
        return literal_of(expr.func.value, fi, depth)
    if isinstance(expr, ast.Name) and depth < 3:
        sets = [n for n in own_nodes(fi) if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == expr.id for t in n.targets)]
        before = [n for n in sets if n.lineno < expr.lineno]
        for node in sorted(before, key=lambda n: -n.lineno) + [n for n in sets if n not in before]:
            text = literal_of(node.value, fi, depth + 1)
            if text:
                return text
    return ""


def excused_log(fi, mark, nodes):
    """Dimension names that cannot be resolved are replaced by a name that
    matches nothing, which C03's comparison then reports."""
    return fi.name == "convert_dims_to_standard_names" and any(
        isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "unique_standard_name"
        for n in nodes)


def small_helpers(project, graph, flags):
    """Short module-private functions that log, raise or exit for their callers."""
    callers = {}
    for fi, callees in graph.callees.items():
        for callee in callees:
            callers.setdefault(callee, set()).add(fi)
    out = set()
    for fi in project.all_funcs():
        nodes = list(own_nodes(fi))
        if fi.name == "clean_capgen" or fi in flags.pos or fi.cls is not None or sum(isinstance(n, ast.stmt) for n in nodes) > 10:
            continue
        if not any(is_log(n, ERROR_LOG) or isinstance(n, ast.Raise) or
                   (isinstance(n, ast.Call) and ast.unparse(n.func) in EXITS) for n in nodes):
            continue
        mine = callers.get(fi, set())
        if mine and all(c.module is fi.module for c in mine):
            out.add(fi)
    return out


def check_shapes(ctx, flags):
    """All results of a flag function have the shape that is unpacked."""
    for fi in flags.pos:
        arities = set()
        for node in own_nodes(fi):
            if isinstance(node, ast.Return):
                if isinstance(node.value, ast.Name) and flags.pos[fi][0] is not None:
                    continue
                arities.add(len(node.value.elts) if isinstance(node.value, ast.Tuple) else 0)
        pos = flags.pos[fi][0]
        if pos is not None:
            ctx.check(len(arities) <= 1, "result-shape", fi.ident,
                      "returns results of different shapes %s: unpacking the failure crashes" % sorted(arities),
                      fi.where())
    ctx.at_least("result-shape", 4)


def check_warnings(ctx, project):
    """What is only warned about was reviewed as advice."""
    for fi in project.all_funcs():
        if fi.module.name in SCOPE_OUT:
            continue
        for node in own_nodes(fi):
            if is_log(node, {"warning", "warn"}):
                text = literal_of(node.args[0], fi) if node.args else ""
                what = "%s:%s" % (fi.ident, text[:50])
                ctx.check(text.startswith(WARNINGS), "advice", what,
                          "an error is only warned about: %r" % (text[:60] or ast.unparse(node)[:60]), fi.where(node))
            elif isinstance(node, ast.Expr) and isinstance(node.value, ast.Call):
                name = ast.unparse(node.value.func).split(".")[-1]
                if any(name in m.classes and (name.endswith("Error") or name.endswith("Exception"))
                       for m in project.modules.values()) or name in ("Exception", "ValueError"):
                    ctx.bad("advice", "%s:%s" % (fi.ident, name), "an exception is constructed but not raised",
                            fi.where(node))
    ctx.at_least("advice", 10)


class Accumulate(Rule):
    """ts: message variables that hold an error text."""
    merge = True
    keep_none = True
    merge_over = 6
    liveness = True
    eager = True
    text = False
    max_depth = 2

    def __init__(self, names):
        self.names = names
        self.seen = set()

    def inline(self, fi, depth):
        return False

    def oracle(self, ip, st, atom):
        # there is a logger
        if atom[0] in ('truth', 'isnone') and 'logger' in show(atom[1]).split(".")[-1]:
            return atom[0] == 'truth'
        return None

    def on_stmt(self, ip, st, node):
        if isinstance(node, ast.AugAssign) and isinstance(node.target, ast.Name) and \
                node.target.id in self.names:
            self.seen.add(node.target.id)
            return st.with_ts(st.ts | {node.target.id})
        if isinstance(node, ast.Assign) and any(
                isinstance(t, ast.Name) and t.id in st.ts for t in node.targets):
            mine = [t.id for t in node.targets if isinstance(t, ast.Name)]
            used = {n.id for n in ast.walk(node.value) if isinstance(n, ast.Name)}
            if not set(mine) & used:
                return st.with_ts(st.ts - set(mine))
        if isinstance(node, (ast.Expr, ast.Assign, ast.AugAssign)) and st.ts:
            # handed on: logged, recorded, written or part of another message
            used = {n.id for n in ast.walk(node.value) if isinstance(n, ast.Name)}
            gone = st.ts & used
            if gone:
                return st.with_ts(st.ts - gone)
        return st


def check_accumulated(ctx, project):
    """Error texts assembled piecewise are raised (or returned)."""
    for fi in project.all_funcs():
        if fi.module.name in SCOPE_OUT or fi.ident in (
                "ccpp_capgen:check_fortran_against_metadata",):      # decided by C03
            continue
        nodes = list(own_nodes(fi))
        grown = {n.target.id for n in nodes if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name)}
        raised = {m.id for n in nodes if isinstance(n, ast.Raise) and n.exc is not None
                  for m in ast.walk(n.exc) if isinstance(m, ast.Name)}
        names = grown & raised
        if not names:
            continue
        rule = Accumulate(names)
        ip = Interp(project, rule)
        ip.step_limit = 3000000
        ex = ip.run(fi, ts=frozenset())
        ctx.saw(fi)
        bad = {}
        for st, val, node in ex.ret:
            for name in st.ts & names:
                bad.setdefault(name, node)
        for name in sorted(rule.seen):
            ctx.check(name not in bad, "accumulated", "%s:%s" % (fi.ident, name),
                      "returns normally although an error text was assembled in %s" % name,
                      fi.where(bad.get(name)))


def check_finally(ctx, project, mains):
    """No return, break or continue in a finally block; no suppression."""
    num = 0
    for fi in list(project.all_funcs()) + mains:
        for node in own_nodes(fi):
            if isinstance(node, ast.Try) and node.finalbody:
                num += 1
                lost = [n for s in node.finalbody for n in ast.walk(s)
                        if isinstance(n, (ast.Return, ast.Break, ast.Continue)) or
                        (isinstance(n, ast.Call) and ast.unparse(n.func) in EXITS)]
                ctx.check(not lost, "finally", fi.ident,
                          "the finally block leaves the function and loses the exception", fi.where(node))
            if isinstance(node, ast.With):
                for item in node.items:
                    expr = item.context_expr
                    if isinstance(expr, ast.Call) and ast.unparse(expr.func).split(".")[-1] == "suppress":
                        names = [ast.unparse(a).split(".")[-1] for a in expr.args]
                        ctx.check(all(n in BUILTIN_NARROW for n in names), "finally", fi.ident,
                                  "suppresses %s" % ", ".join(names), fi.where(node))


def check(ctx, project):
    ctx.rule("error-logged", "every path on which an error is logged raises, exits non-zero or returns failure")
    ctx.rule("failed-step", "every path on which a step's success flag is false raises, exits non-zero or returns failure")
    ctx.rule("handler", "every path through a handler of the project's exceptions raises, exits non-zero, records "
             "the error in the parse object or returns failure")
    ctx.rule("result-shape", "all results of a step have the shape its callers unpack")
    ctx.rule("finally", "no finally block or suppress() discards an exception")
    ctx.rule("advice", "what is reported as a warning only is documented as advice; exceptions are not built and dropped")
    ctx.rule("accumulated", "every path on which an error text is assembled raises or returns it")
    graph = CallGraph(project)
    mains = main_blocks(project)
    for m in mains:
        graph.callees[m] = graph._callees(m)
    flags = Flags(project, graph, mains)
    ctx.notes.append("flag functions: " + ", ".join(sorted(
        "%s[%s]%s" % (f.ident, p[0], "" if f in flags.may_fail else " (never fails)")
        for f, p in flags.pos.items())))
    check_paths(ctx, project, graph, flags, mains)
    check_shapes(ctx, flags)
    check_warnings(ctx, project)
    check_accumulated(ctx, project)
    check_finally(ctx, project, mains)
