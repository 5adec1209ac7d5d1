"""C02: generated files do not depend on set iteration order, directory
listing order, the clock or object identity (see sa/taint.py)."""
import ast
import os

from sa.callgraph import CallGraph
from sa.project import AnalysisBroken, Module
from sa.taint import OrderTaint

WRITES = {"write", "writelines", "comment", "include", "write_line", "write_preamble", "blank_line"}


def sink(fi, node):
    """Arguments of a call that end up in generated output."""
    func = node.func
    if isinstance(func, ast.Attribute) and func.attr in WRITES:
        return list(node.args)
    if isinstance(func, ast.Name) and func.id == 'print':
        return list(node.args)
    if isinstance(func, ast.Attribute) and func.attr in ('SubElement', 'Element'):
        return list(node.args)[1:] + [k.value for k in node.keywords]
    return None


def check(ctx, project):
    ctx.rule("order", "a value whose iteration order is arbitrary (set, directory listing, clock, object "
             "identity) is never turned into a sequence, string or write sequence that leaves the function "
             "(return, attribute, argument, output), unless sorted or de-duplicated in order first")
    ctx.rule("order-source", "every construct that creates such a value is covered by the rule")
    here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "selftest", "order.py")
    extra = Module(here, "selftest/order.py", "selftest_order")
    project.modules["selftest_order"] = extra
    cgraph = CallGraph(project)
    taint = OrderTaint(project, cgraph, sink)
    own = [k for k in taint.findings if k[0].startswith("selftest_order:")]
    if sorted({k[0].split(":")[1] for k in own}) != ["emit", "listing"]:
        raise AnalysisBroken("the order rule misjudges its own examples: %s" % own)
    del project.modules["selftest_order"]
    for fi in project.all_funcs():
        ctx.saw(fi)
    badfuncs = set()
    for (ident, text), (what, where) in taint.findings.items():
        if ident.startswith("selftest_order:"):
            continue
        badfuncs.add(ident)
        ctx.bad("order", "%s:%s" % (ident, text), what, where)
    seen = {}
    for fi, node in taint.sources:
        if fi.module.name == "selftest_order":
            continue
        text = ast.unparse(node)[:60]
        seen[(fi.ident, text)] = fi.where(node)
    for (ident, text), where in sorted(seen.items()):
        if ident not in badfuncs:
            ctx.ok("order-source", "%s:%s" % (ident, text), where)
    loops = {(f.ident, it) for f, _, it in taint.loops if f.module.name != "selftest_order"}
    ctx.count("unordered sources", len(seen))
    ctx.count("loops over unordered values", len(loops))
    ctx.count("fixpoint rounds", taint.rounds)
    ctx.notes.append("loops over unordered values whose bodies are order-insensitive: " +
                     "; ".join(sorted("%s: %s" % x for x in loops)))
    if len(seen) < 25:
        raise AnalysisBroken("only %d unordered sources recognised" % len(seen))
