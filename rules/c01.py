"""C01: a generated file is replaced exactly when its contents changed.

Path rule over every function that installs a staged file (rename/replace/move
into place).  Terms for the staged and installed path are tracked through
assignments and helpers; the branch facts `exists(dst)` and
`contents_equal(dst, staged)` are the predicates.
"""
import ast

from sa.absint import Interp, Rule, K, show, NONE
from sa.callgraph import CallGraph
from sa.project import AnalysisBroken

MOVE = {"os.replace", "os.rename", "shutil.move", "shutil.copy", "shutil.copyfile", "shutil.copy2"}
REMOVE = {"os.remove", "os.unlink"}
EXISTS = {"os.path.exists", "os.path.isfile", "os.path.lexists"}
INTEREST = {"replace", "rename", "move", "copy", "copyfile", "copy2", "remove", "unlink",
            "cmp", "open", "exists", "isfile"}


def dotted(node):
    try:
        return ast.unparse(node.func)
    except Exception:
        return ""


def is_event(node):
    if isinstance(node, ast.Attribute):
        return node.attr.lstrip("_").startswith("update_")
    name = dotted(node)
    return name in MOVE | REMOVE | EXISTS | {"open", "filecmp.cmp"} or \
        name.split(".")[-1] in ("cmp", "files_unchanged")


class Install(Rule):
    """Typestate: frozenset of events on this path (since the innermost
    installing loop's iteration start)."""
    merge = True
    keep = ()
    max_depth = 4

    def __init__(self, ctx, top, sliced, reach):
        self.ctx = ctx
        self.top = top
        self.sliced = sliced
        self.reach = reach
        self.moves = {}       # staged term -> set(dst terms)
        self.loops = set()    # loops whose iterations install files
        self.phase = 1
        self.loop_stack = []
        self.reports = []
        self.removes = []
        self.opens = []
        self.iter_ends = []

    def slice_events(self, fi):
        return is_event if (self.sliced and fi is self.top) else None

    def inline(self, fi, depth):
        return fi in self.reach or fi.is_property or fi.is_setter

    def oracle(self, ip, st, atom):
        if atom[0] == 'eq' and ('ext', 'sys.stdout') in atom[1:] and any(
                a[0] == 'call' and a[1] == 'open' for a in atom[1:]):
            return False
        return None

    def on_call(self, ip, st, node, name, target, recv, args, kwargs):
        if name in MOVE and len(args) >= 2:
            src, dst = args[0], args[1]
            if ip.loops and self.phase == 1:
                self.loops.add(id(ip.loops[-1]))
            self.moves.setdefault(src, set()).add(dst)
            self.events_seen = True
            self.reports.append(("move", st, src, dst, ip.fi, node))
            return [(st.with_ts(st.ts | {("move", src, dst)}), NONE)]
        if name in REMOVE and args:
            self.removes.append((st, args[0], ip.fi, node))
            return [(st.with_ts(st.ts | {("remove", args[0])}), NONE)]
        if name == "open" and args:
            mode = args[1] if len(args) > 1 else kwargs.get("mode", K("r"))
            if mode[0] == 'k' and str(mode[2])[:1] in ("w", "a", "x"):
                self.opens.append((st, args[0], ip.fi, node))
                return [(st.with_ts(st.ts | {("open", args[0])}), ('call', 'open', None, tuple(args)))]
        return None

    def iter_start(self, ip, st, node):
        if self.phase == 2 and id(node) in self.loops:
            return st.with_ts(frozenset(e for e in st.ts if e[0] not in ("move", "remove")) |
                              {("iter",)})
        return st

    def iter_end(self, ip, st, node):
        if self.phase == 2 and id(node) in self.loops:
            self.iter_ends.append((st, ip.fi, node))
            return st.with_ts(frozenset(e for e in st.ts if e[0] != "iter"))
        return st


def equal_known(st, staged, dsts):
    """Value of the contents-equal predicate for (staged, some dst):
    True/False/None, plus whether a shallow comparison was used."""
    res = None
    shallow = False
    for atom, val in st.preds.items():
        pair = None
        if atom[0] == 'truth' and atom[1][0] == 'call' and atom[1][1].split(".")[-1] == 'cmp':
            args = atom[1][3]
            pair = [a for a in args if a[0] != 'kw'][:2]
            deep = any(a == ('kw', 'shallow', K(False)) for a in args) or \
                (len([a for a in args if a[0] != 'kw']) > 2 and args[2] == K(False))
        elif atom[0] == 'eq' and is_read(atom[1]) is not None and is_read(atom[2]) is not None:
            pair = [is_read(atom[1]), is_read(atom[2])]
            deep = True
        if pair and staged in pair and any(d in pair for d in dsts):
            res = val
            shallow = shallow or not deep
    return res, shallow


def is_read(v):
    """The path whose contents V is, if V reads a whole file."""
    if v[0] == 'call' and v[1] in ('read', 'readlines', 'read_text', 'read_bytes') and v[2]:
        inner = v[2]
        if inner[0] == 'call' and inner[1].split(".")[-1] in ('open', 'Path') and inner[3]:
            return inner[3][0]
    if v[0] == 'top' and v[1].startswith('call:read'):
        return None
    return None


def exists_known(st, dsts):
    for atom, val in st.preds.items():
        if atom[0] == 'truth' and atom[1][0] == 'call' and atom[1][1] in EXISTS:
            if atom[1][3] and atom[1][3][0] in dsts:
                return val
    return None


def analyse(ctx, project, fi, reach, sliced=False, args=None):
    """Apply the rule to one installing function."""
    results = []
    rule = Install(ctx, fi, sliced, reach)
    ip = Interp(project, rule)
    ip.run(fi, args=args, ts=frozenset())
    moves = dict(rule.moves)
    loops = set(rule.loops)
    rule.phase = 2
    rule.reports, rule.removes, rule.opens, rule.iter_ends = [], [], [], []
    ip2 = Interp(project, rule)
    ex = ip2.run(fi, args=args, ts=frozenset())
    for ident in ip2.visited:
        ctx.saw(ident)
    return rule, moves, loops, ex


def check_function(ctx, project, fi, reach, sliced=False, args=None):
    rule, moves, loops, ex = analyse(ctx, project, fi, reach, sliced, args)
    name = fi.ident
    if not moves:
        raise AnalysisBroken("no staged file is installed in %s" % name)
    dsts_of = moves
    # (a) a staged file is dropped only if it equals the installed one
    for st, path, where, node in rule.removes:
        if path not in dsts_of:
            # removal of an installed file: only in favour of its replacement
            continue
        if any(e[0] == "move" and e[1] == path for e in st.ts):
            continue
        same, shallow = equal_known(st, path, dsts_of[path])
        ctx.check(same is True, "drop-only-if-equal", "%s:%s" % (name, show(path)),
                  "newly generated file %s is deleted on a path where its contents were not "
                  "found equal to the installed file (%s)" % (show(path), path_text(st)),
                  where.where(node))
        ctx.check(not shallow, "content-comparison", "%s:%s" % (name, show(path)),
                  "equality of %s is judged from os.stat signatures (shallow comparison), "
                  "not contents" % show(path), where.where(node))
    # (b) an installed file is not replaced when equal (unless forced)
    for _, st, src, dst, where, node in rule.reports:
        same, _ = equal_known(st, src, {dst})
        group_equal = [equal_known(st, s, d)[0] for s, d in dsts_of.items()]
        ctx.check(same is not True, "keep-if-equal", "%s:%s" % (name, show(dst)),
                  "%s is replaced on a path where the new contents are equal to it (%s)" %
                  (show(dst), path_text(st)), where.where(node))
    # (c) every path disposes of the staged file
    ends = rule.iter_ends if loops else [(s, fi, n) for s, _, n in ex.ret]
    for st, where, node in ends:
        for src, dsts in dsts_of.items():
            staged_now = ("iter",) in st.ts if loops else ("open", src) in st.ts
            if not loops and not staged_now and not isinstance(src, str):
                # staged by a callee (writer object): require disposal as well
                staged_now = any(e[0] in ("move", "remove") for e in st.ts)
                if any(("open", d) in st.ts for d in dsts):
                    staged_now = False
            if not staged_now:
                continue
            done = any((e[0] == "move" and e[1] == src) or (e[0] == "remove" and e[1] == src)
                       for e in st.ts)
            same, _ = equal_known(st, src, dsts)
            ctx.check(done or same is True, "changed-is-installed", "%s:%s" % (name, show(src)),
                      "a path leaves the newly generated file %s neither installed nor found equal "
                      "to the installed one (%s)" % (show(src), path_text(st)), where.where(node))
            if same is False and not any(e[0] == "move" and e[1] == src for e in st.ts):
                ctx.bad("changed-is-installed", "%s:%s" % (name, show(src)),
                        "contents differ but %s is not installed (%s)" % (show(src), path_text(st)),
                        where.where(node))
    # (d) direct writes to an installed file only when it does not exist yet
    alld = set()
    for dsts in dsts_of.values():
        alld |= dsts
    for st, path, where, node in rule.opens:
        if path in alld:
            ctx.check(not_fresh_ok(st, path), "direct-write-only-if-new", "%s:%s" % (name, show(path)),
                      "the installed file %s is overwritten in place although it exists and nothing "
                      "it depends on was regenerated (%s)" % (show(path), path_text(st)),
                      where.where(node))
    return rule, moves, ex


def contexts(cgraph, fi):
    """Constant arguments at the call sites of FI (one analysis per context)."""
    out = []
    for caller, callees in cgraph.callees.items():
        if fi not in callees:
            continue
        for node in ast.walk(caller.node):
            if isinstance(node, ast.Call) and fi in cgraph.resolve_call(caller, node):
                off = 1 if fi.params[:1] == ["self"] else 0
                args = {}
                for i, a in enumerate(node.args):
                    if isinstance(a, ast.Constant) and i + off < len(fi.params):
                        args[fi.params[i + off]] = K(a.value)
                for kw in node.keywords:
                    if isinstance(kw.value, ast.Constant) and kw.arg in fi.params:
                        args[kw.arg] = K(kw.value.value)
                if args not in out:
                    out.append(args)
    out = [a for a in out if all(v[1] == 'str' for v in a.values())]
    return out or [None]


def not_fresh_ok(st, path):
    """In-place write: file known absent, or some update flag is known set."""
    if exists_known(st, {path}) is False:
        return True
    for atom, val in st.preds.items():
        if atom[0] == 'truth' and 'update_' in repr(atom[1]) and val:
            return True
    return False


def path_text(st):
    from sa.absint import show_atom
    return "path: " + "; ".join("line %d %s is %s" % (l, show_atom(a)[:90], v) for l, a, v in st.trace[-5:])


def flag_rule(ctx, fi, ex, flag):
    """The update flag reported to the callers: False only if nothing changed."""
    num = 0
    for st, _, node in ex.ret:
        val = st.heap.get((('param', 'self'), flag))
        wrote = any(e[0] == "move" for e in st.ts)
        removed = any(e[0] == "remove" for e in st.ts)
        opened = [e for e in st.ts if e[0] == "open"]
        if not opened:
            continue
        changed = wrote or not removed
        num += 1
        if changed:
            ctx.check(val is None or val == K(True), "update-flag", fi.ident,
                      "the cap file changed but its update flag is %s: files that depend on it are "
                      "not regenerated (%s)" % (show(val) if val else "unset", path_text(st)),
                      fi.where(node))
        else:
            ctx.check(val == K(False), "update-flag", fi.ident + ":unchanged",
                      "nothing changed but the update flag is %s, not cleared (%s)" % (show(val) if val else "unset", path_text(st)),
                      fi.where(node))
    if not num:
        raise AnalysisBroken("no writing path in %s" % fi.ident)


class MainOrder(Rule):
    """capgen: after output was generated, move_modified_files must follow."""
    merge = True
    max_depth = 3

    def inline(self, fi, depth):
        return fi.module.name == "ccpp_capgen" and fi.name not in (
            "parse_host_model_files", "parse_scheme_files", "create_kinds_file")

    def on_call(self, ip, st, node, name, target, recv, args, kwargs):
        short = name.split(".")[-1]
        tname = getattr(target, "name", short)
        if tname in ("write_host_cap", "create_kinds_file") or (
                short == "write" and recv is not None and recv[0] == 'new' and recv[1] == 'API'):
            outdir = [a for a in args if a[0] not in ('k',)]
            params = target.params if hasattr(target, 'params') else []
            val = kwargs.get("output_dir")
            if val is None and "output_dir" in params:
                idx = params.index("output_dir") - (1 if params[:1] == ["self"] else 0)
                if idx < len(args):
                    val = args[idx]
            return [(st.with_ts(st.ts | {("gen", tname, val)}), ('call', tname, None, ()))]
        if tname == "move_modified_files":
            amap = dict(zip(["src_dir", "dest_dir", "overwrite", "remove_src"], args))
            amap.update(kwargs)
            return [(st.with_ts(st.ts | {("install", amap.get("src_dir"), amap.get("dest_dir"))}), NONE)]
        if tname == "generate_ccpp_datatable":
            return [(st.with_ts(st.ts | {("table",)}), NONE)]
        return None


def check(ctx, project):
    ctx.rule("drop-only-if-equal", "a staged output file is deleted only on paths where a content "
             "comparison with the installed file came out equal")
    ctx.rule("content-comparison", "that comparison reads contents (filecmp.cmp(shallow=False) or an "
             "equivalent), not os.stat signatures")
    ctx.rule("keep-if-equal", "no path replaces an installed file after finding it equal")
    ctx.rule("changed-is-installed", "every path through an installing function (every iteration of an "
             "installing loop) installs the staged file or found it equal")
    ctx.rule("direct-write-only-if-new", "an installed file is opened for writing in place only when it "
             "does not exist or something it depends on was regenerated")
    ctx.rule("update-flag", "the flag that makes dependent files be regenerated is False only on paths "
             "where the file was found unchanged")
    ctx.rule("capgen-installs", "every path through capgen that generates output then installs the "
             "directory it generated into")
    cgraph = CallGraph(project)
    reach = cgraph.reaching(lambda _f, n: is_event(n))
    targets = [("file_utils", "move_modified_files", False, None),
               ("mkstatic", "API.write", True, "_update_api"),
               ("mkstatic", "API.write_includefile", False, None),
               ("mkstatic", "Suite.write", True, "_update_cap"),
               ("mkstatic", "Group.write", True, "_update_cap"),
               ("ccpp_prebuild", "generate_typedefs_makefile", False, None),
               ("ccpp_prebuild", "generate_schemes_makefile", False, None),
               ("ccpp_prebuild", "generate_caps_makefile", False, None)]
    for mod, qual, sliced, flag in targets:
        fi = project.func(mod, qual)
        for args in contexts(cgraph, fi):
            rule, moves, ex = check_function(ctx, project, fi, reach, sliced, args)
        if flag:
            flag_rule(ctx, fi, ex, flag)
    # completeness: every function that installs files is one of the above (or a helper of one)
    for fi in project.all_funcs():
        for node in ast.walk(fi.node):
            if isinstance(node, ast.Call) and dotted(node) in MOVE:
                ctx.check(fi.ident in ctx.functions, "installer-known", fi.ident,
                          "installs a file but is not reached from the analysed installers",
                          fi.where(node))
    ctx.rule("installer-known", "every call that renames/moves a file into place was analysed")
    # capgen
    fi = project.func("ccpp_capgen", "capgen")
    rule = MainOrder()
    ip = Interp(project, rule)
    ex = ip.run(fi, ts=frozenset())
    for ident in ip.visited:
        ctx.saw(ident)
    if not ex.ret:
        raise AnalysisBroken("capgen has no normal exit")
    gens = 0
    for st, _, node in ex.ret:
        dirs = {e[2] for e in st.ts if e[0] == "gen"}
        gens = max(gens, len([e for e in st.ts if e[0] == "gen"]))
        inst = {e[1] for e in st.ts if e[0] == "install"}
        for e in st.ts:
            if e[0] == "gen":
                ctx.check(e[2] in inst, "capgen-installs", "capgen:%s" % e[1],
                          "output of %s goes to %s but only %s is installed" %
                          (e[1], show(e[2]) if e[2] else "?", [show(i) for i in inst]), fi.where(node))
    if gens < 3:
        raise AnalysisBroken("capgen: only %d generating calls found" % gens)
    ctx.at_least("drop-only-if-equal", 10)
    ctx.at_least("changed-is-installed", 10)
    ctx.at_least("update-flag", 3)
