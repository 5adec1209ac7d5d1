"""C15: clean removes the files a run generated, and nothing else."""
import ast
import itertools
import fnmatch
import os
import re

from sa.absint import Interp, Rule, K, NONE, TRUE, FALSE, isk, show
from sa.project import AnalysisBroken
from rules.c10 import sub_terms, is_call, literal, class_text

WRITE_MODES = ("w", "a", "x")


# --------------------------------------------- parameters a function writes
def written_params(project, mods):
    """(function, parameter) whose value names a file (or directory) the function writes."""
    funcs = [f for f in project.all_funcs() if f.module.name in mods]
    by_name = {}
    for f in funcs:
        by_name.setdefault(f.name, []).append(f)
        if f.name == '__init__' and f.cls is not None:
            by_name.setdefault(f.cls.name, []).append(f)
    out = {f.ident: {} for f in funcs}
    changed = True
    while changed:
        changed = False
        for f in funcs:
            alias = aliases(f)
            for call in ast.walk(f.node):
                if not isinstance(call, ast.Call):
                    continue
                for arg, kind in targets(call, by_name, out):
                    for par in reach(arg, alias, set(f.params)):
                        if out[f.ident].get(par) is None:
                            out[f.ident][par] = kind
                            changed = True
            for stmt in ast.walk(f.node):
                # an object that writes what its filename attribute names
                if isinstance(stmt, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr in (
                        'filename', '_filename') for t in stmt.targets):
                    for par in reach(stmt.value, alias, set(f.params)):
                        if f.name not in ('filename',) and out[f.ident].get(par) is None:
                            out[f.ident][par] = 'file'
                            changed = True
    return out


def aliases(f):
    """Local name -> expressions it was bound to."""
    out = {}
    for n in ast.walk(f.node):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Name):
                    out.setdefault(t.id, []).append(n.value)
        elif isinstance(n, (ast.For, ast.comprehension)):
            for t, v in unzip(n.target, n.iter):
                out.setdefault(t, []).append(v)
    return out


def unzip(target, it):
    """Pairs (loop variable, expression it takes values from)."""
    if isinstance(target, ast.Name):
        return [(target.id, it)]
    if isinstance(target, (ast.Tuple, ast.List)) and isinstance(it, (ast.Tuple, ast.List)):
        res = []
        for i, t in enumerate(target.elts):
            for row in it.elts:
                if isinstance(t, ast.Name) and isinstance(row, (ast.Tuple, ast.List)) and i < len(row.elts):
                    res.append((t.id, row.elts[i]))
        return res
    if isinstance(target, (ast.Tuple, ast.List)):
        return [(t.id, it) for t in target.elts if isinstance(t, ast.Name)]
    return []


def reach(expr, alias, params, seen=()):
    """Parameters EXPR names directly (through plain aliases, containers and attributes of a name)."""
    if isinstance(expr, ast.Name):
        out = {expr.id} if expr.id in params else set()
        if expr.id not in seen:
            for src in alias.get(expr.id, []):
                out |= reach(src, alias, params, seen + (expr.id,))
        return out
    if isinstance(expr, (ast.Tuple, ast.List)):
        return set().union(*[reach(x, alias, params, seen) for x in expr.elts]) if expr.elts else set()
    if isinstance(expr, ast.IfExp):
        return reach(expr.body, alias, params, seen) | reach(expr.orelse, alias, params, seen)
    if isinstance(expr, ast.BinOp) and isinstance(expr.op, ast.Add):
        return reach(expr.left, alias, params, seen)
    return set()


def targets(call, by_name, known):
    """(expression, kind) for each file or directory CALL writes."""
    func = call.func
    short = func.attr if isinstance(func, ast.Attribute) else getattr(func, 'id', '')
    owner = func.value.id if isinstance(func, ast.Attribute) and isinstance(func.value, ast.Name) else ''
    out = []
    if short == 'open' and owner in ('', 'io', 'codecs') and call.args:
        mode = call.args[1] if len(call.args) > 1 else next((k.value for k in call.keywords if k.arg == 'mode'), None)
        if isinstance(mode, ast.Constant) and str(mode.value)[:1] in WRITE_MODES:
            out.append((call.args[0], 'file'))
    elif owner == 'os' and short in ('rename', 'replace') and len(call.args) == 2:
        out.append((call.args[1], 'file'))
    elif owner == 'shutil' and short in ('move', 'copy', 'copyfile', 'copy2') and len(call.args) == 2:
        out.append((call.args[1], 'file'))
    elif owner == 'os' and short in ('makedirs', 'mkdir', 'chdir') and call.args:
        # a function that creates a directory and works in it
        out.append((call.args[0], 'dir'))
    else:
        for f in by_name.get(short, []):
            pars = f.params[1:] if f.cls is not None and f.params and f.params[0] in ('self', 'cls') else f.params
            got = known[f.ident]
            for i, arg in enumerate(call.args):
                if i < len(pars) and pars[i] in got:
                    out.append((arg, got[pars[i]]))
            for kw in call.keywords:
                if kw.arg in got:
                    out.append((kw.value, got[kw.arg]))
    return out


# -------------------------------------------------------------- prebuild
class Clean(Rule):
    """What a function removes."""
    text = True
    max_depth = 4
    max_parts = 400

    def __init__(self, mods):
        self.mods = mods
        self.removed = []
        self.states = []

    def inline(self, fi, depth):
        return fi.module.name in self.mods and fi.name not in ('execute',)

    def on_call(self, ip, st, node, name, target, recv, args, kwargs):
        short = name.split(".")[-1]
        sink = None
        if short in ('remove', 'unlink', 'rmtree', 'removedirs') and (recv is None or recv == ('ext', 'os') or recv[0] in ('ext', 'm')
                                                                    or short == 'unlink'):
            sink = args[0] if args else recv
        elif short in ('execute', 'system', 'call', 'run', 'check_call') and args and re.search(
                r"\brm\b", show(args[0])):
            sink = args[0]
        if sink is not None:
            self.removed.append((st, sink, node))
            return [(st.with_ts(st.ts | {'removed'}), NONE)]
        return None


def config_keys(val):
    """Keys of the configuration in VAL: {key: [the joins with constant parts]}."""
    return [t for t in sub_terms(val, lambda t: t[0] == 'item' and isk(t[2]) and isinstance(t[2][2], str)
                                 and t[1][0] == 'param')]


def pieces(val):
    """Path expressions of what a removal sink names."""
    out = []

    def walk(v, sep=False):
        if not isinstance(v, tuple) or not v:
            return
        if v[0] == 'item' and isk(v[2]) and v[1][0] == 'param':
            out.append(v)
            return
        if is_call(v, 'join') and v[1].endswith('path.join') or (v[0] == 'call' and v[1] in ('os.path.join',)):
            out.append(v)
            return
        if v[0] == 'call' and v[1].split(".")[-1] == 'join' and v[2] is not None and v[2][0] in ('ext', 'm'):
            out.append(v)
            return
        for x in v:
            if isinstance(x, (tuple, frozenset)):
                walk(x)
    walk(val)
    return out


def check_prebuild(ctx, project):
    mods = {"ccpp_prebuild", "mkcap", "mkdoc", "mkstatic", "common"}
    main = project.func("ccpp_prebuild", "main")
    clean = project.func("ccpp_prebuild", "clean_files")
    if main is None or clean is None:
        raise AnalysisBroken("ccpp_prebuild.main / clean_files not found")
    written = written_params(project, mods)
    # configuration keys that are written
    keys = {}
    by_name = {}
    for f in project.all_funcs():
        if f.module.name in mods:
            by_name.setdefault(f.name, []).append(f)
    todo, seen = [main], set()
    while todo:
        f = todo.pop()
        if f.ident in seen or f.name == 'clean_files':
            continue
        seen.add(f.ident)
        ctx.saw(f)
        alias = aliases(f)

        def conf(expr, alias=alias, deep=()):
            if isinstance(expr, ast.Subscript) and isinstance(expr.slice, ast.Constant) and isinstance(
                    expr.value, ast.Name) and isinstance(expr.slice.value, str):
                return [expr.slice.value]
            if isinstance(expr, ast.Name) and expr.id not in deep:
                return [k for src in alias.get(expr.id, []) for k in conf(src, alias, deep + (expr.id,))]
            if isinstance(expr, (ast.Tuple, ast.List)):
                return [k for x in expr.elts for k in conf(x, alias, deep)]
            return []
        for call in ast.walk(f.node):
            if isinstance(call, ast.Call):
                for arg, kind in targets(call, by_name, written):
                    for key in conf(arg):
                        if f is main or 'config' in f.params:
                            keys.setdefault(key, (kind, f.where(call)))
                short = call.func.attr if isinstance(call.func, ast.Attribute) else getattr(call.func, 'id', '')
                # helpers that are handed the whole configuration
                for g in by_name.get(short, []):
                    if g.module.name == 'ccpp_prebuild' and 'config' in g.params:
                        todo.append(g)
    if len(keys) < 10:
        raise AnalysisBroken("only %d configured files are found to be written" % len(keys))
    rule = Clean({"ccpp_prebuild"})
    ip = Interp(project, rule)
    ex = ip.run(clean, ts=frozenset())
    ctx.saw(clean)
    if not rule.removed:
        raise AnalysisBroken("clean_files removes nothing this analysis knows")
    # per path: what has been removed
    removed = {}
    bare = {}
    for st, sink, node in rule.removed:
        for piece in pieces(sink):
            names = [t[2][2] for t in config_keys(piece)]
            for key in names:
                removed.setdefault(key, []).append((piece, node))
                if piece[0] == 'item':
                    bare[key] = node
    for key, (kind, where) in sorted(keys.items()):
        ctx.check(key in removed, "prebuild clean", "%s is removed" % key, "ccpp_prebuild --clean does not remove what it wrote "
                  "as configured by %s" % key, clean.where())
        if kind == 'dir':
            ctx.check(key not in bare, "prebuild clean", "%s is kept" % key, "ccpp_prebuild --clean removes the directory %s" % key,
                      clean.where(bare.get(key)))
    for key in sorted(removed):
        ctx.check(key in keys, "prebuild clean", "only generated: %s" % key, "ccpp_prebuild --clean removes %s, which it does not write" %
                  key, clean.where(removed[key][0][1]))
    # caps: the pattern covers the generated names
    group, suite = class_names(project)
    pats = {}
    for key, uses in removed.items():
        for piece, node in uses:
            if piece[0] == 'call':
                for arg in piece[3][1:]:
                    pats.setdefault(key, []).append((arg, node))
    globs = [a[2] for uses in pats.values() for a, _ in uses if isk(a) and isinstance(a[2], str) and
             re.search(r"[*?\[]", a[2])]
    for what, name in (("group", group), ("suite", suite)):
        ctx.check(any(fnmatch.fnmatchcase(name, g) for g in globs), "prebuild clean", "%s caps" % what, "ccpp_prebuild --clean does not "
                  "remove %s caps (files named like %s)" % (what, name), clean.where())
    for g in globs:
        core = re.sub(r"[*?\[\]]", "", g)
        ctx.check(core.startswith("ccpp_") and core.endswith("_cap.F90") and len(g) - len(core) <= 2, "prebuild clean", "pattern %s" % g,
                  "ccpp_prebuild --clean removes files it did not write (%s)" % g, clean.where())
    # static API: same name with and without a namespace
    want = api_names(ctx, project)
    got = {}
    for st, sink, node in rule.removed:
        space = None
        for atom, v in st.preds.items():
            if atom == ('truth', ('param', clean.params[-1])):
                space = v
        for piece in pieces(sink):
            if piece[0] == 'call' and any(t[2][2] == 'static_api_dir' for t in config_keys(piece)):
                for arg in piece[3][1:]:
                    got.setdefault(space, set()).add(plain(arg, clean.params[-1]))
    for space in (True, False):
        have = got.get(space, got.get(None, set()))
        ctx.check(want[space] in have, "prebuild clean", "static API %s namespace" % ("with" if space else "without"),
                  "ccpp_prebuild --clean does not remove the static API it writes (%s, not %s)" % (
                      want[space], ", ".join(sorted(have)) or "nothing"), clean.where())
    # main: clean excludes generation
    check_main(ctx, project, main, set(keys))


def plain(val, space):
    """File name with the namespace as NS."""
    if isk(val):
        return str(val[2])
    if val[0] == 's':
        return "".join(p if isinstance(p, str) else ("NS" if p == ('param', space) else str(p[2]) if isk(p) else "{%s}" % show(p))
                       for p in val[1])
    return show(val)


def sample_text(node, held, depth=0):
    """The text of an expression, an x in place of what is not a literal."""
    if isinstance(node, ast.Constant):
        return re.sub(r"\{\w*\}", "x", str(node.value))
    if isinstance(node, ast.JoinedStr):
        return "".join(sample_text(v, held, depth) for v in node.values)
    if isinstance(node, ast.BinOp) and isinstance(node.op, ast.Add):
        return sample_text(node.left, held, depth) + sample_text(node.right, held, depth)
    if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr == 'format':
        return sample_text(node.func.value, held, depth)
    if isinstance(node, ast.Name) and node.id in held and depth < 3:
        return sample_text(held[node.id], held, depth + 1)
    return "x"


def class_names(project):
    """Sample file names of the group and suite caps."""
    out = []
    for cname in ('Group', 'Suite'):
        cls = project.cls("mkstatic", cname)
        names = set()
        for f in cls.methods.values():
            held = {t.id: n.value for n in ast.walk(f.node) if isinstance(n, ast.Assign) for t in n.targets if isinstance(t, ast.Name)}
            for n in ast.walk(f.node):
                if isinstance(n, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr in (
                        '_module', '_filename', 'filename', 'module') for t in n.targets):
                    for c in ast.walk(n.value):
                        text = sample_text(c, held)
                        if re.fullmatch(r"[\w.]*x_cap(\.F90)?", text):
                            names.add(text)
        if len({re.sub(r"\.F90$", "", n) for n in names}) == 1:
            names = {min(names, key=len)}
        if len(names) != 1:
            raise AnalysisBroken("the names of mkstatic.%s caps are not found" % cname)
        name = names.pop()
        out.append(name if name.endswith(".F90") else name + ".F90")
    return out


def api_names(ctx, project):
    """Name of the static API file, with and without a namespace."""
    mod = project.mod("mkstatic")
    gen = project.func("ccpp_prebuild", "generate_static_api")
    if gen is None:
        raise AnalysisBroken("generate_static_api not found")
    ctx.saw(gen)
    api = project.cls("mkstatic", "API")
    base = None

    class Init(Rule):
        text = True

        def on_store(self, ip, st, node, kind, base_, key, val):
            if kind == 'attr' and key in ('_filename', 'filename'):
                firsts.append(val)
            return st
    firsts = []
    Interp(project, Init()).run(api.methods['__init__'])
    for val in firsts:
        if isk(val) and str(val[2]).endswith(".F90"):
            base = val[2]
    if base is None:
        raise AnalysisBroken("default name of the static API not found")
    named = []

    class Gen(Rule):
        max_depth = 2

        def inline(self, fi, depth):
            return fi.module.name == 'ccpp_prebuild'

        def on_attr(self, ip, st, node, base_, attr):
            if attr == 'filename' and (base_, attr) not in st.heap:
                return [(st, K(base))]
            return None

        def on_call(self, ip, st, node, name, target, recv, args, kwargs):
            short = name.split(".")[-1]
            if short == 'basename' and args and isk(args[0]):
                return [(st, K(os.path.basename(args[0][2])))]
            if short == 'splitext' and args and isk(args[0]):
                one, two = os.path.splitext(args[0][2])
                return [(st, ('l', (K(one), K(two)), 'tuple'))]
            if short == 'API':
                return [(st, ('api',))]
            return None

        def on_store(self, ip, st, node, kind, base_, key, val):
            if kind == 'attr' and key == 'filename':
                named.append(val)
            return st
    Interp(project, Gen()).run(gen)
    if not named:
        raise AnalysisBroken("generate_static_api does not name the API of a namespace")
    return {False: base, True: plain(named[0], gen.params[-1])}


def fmt(project, mod, node):
    """Text of a constant or '...'.format(name=<constant>) expression."""
    if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr == 'format' and isinstance(
            node.func.value, ast.Constant):
        text = node.func.value.value
        for kw in node.keywords:
            val = const_name(project, mod, kw.value)
            if val is None:
                return None
            text = text.replace("{%s}" % kw.arg, str(val))
        return text if "{" not in text else None
    if isinstance(node, ast.JoinedStr):
        out = ""
        for part in node.values:
            val = part.value if isinstance(part, ast.Constant) else const_name(project, mod, part.value)
            if val is None:
                return None
            out += str(val)
        return out
    return const_name(project, mod, node)


def const_name(project, mod, node):
    if isinstance(node, ast.Name):
        res = project.resolve(mod, node.id)
        for other in project.modules.values():
            for stmt in other.tree.body:
                if isinstance(stmt, ast.Assign) and any(isinstance(t, ast.Name) and t.id == node.id for t in stmt.targets) and res:
                    return literal(project, other, stmt.value)
        return None
    if isinstance(node, ast.Attribute):
        for cls in mod.classes.values():
            if node.attr in cls.consts:
                return fmt(project, mod, cls.consts[node.attr])
    return literal(project, mod, node)


def check_main(ctx, project, main, keys):
    del keys

    parse = project.func("ccpp_prebuild", "parse_arguments")
    pos, width = None, 12
    held = {t.id: ast.unparse(a.value) for a in ast.walk(parse.node) if isinstance(a, ast.Assign) for t in a.targets if isinstance(t, ast.Name)}
    for n in ast.walk(parse.node):
        if isinstance(n, ast.Return) and isinstance(n.value, ast.Tuple):
            for i, e in enumerate(n.value.elts):
                if (held.get(e.id, '') if isinstance(e, ast.Name) else ast.unparse(e)).endswith('.clean'):
                    pos, width = i, len(n.value.elts)

    class Main(Rule):
        merge = True
        max_depth = 1

        def __init__(self):
            self.bad = []
            self.flags = []

        def inline(self, fi, depth):
            return False

        def on_call(self, ip, st, node, name, target, recv, args, kwargs):
            short = name.split(".")[-1]
            if short == 'parse_arguments':
                return [(st, ('l', tuple(('arg', i) for i in range(width)), 'tuple'))]
            if short == 'clean_files':
                self.flags.append((True, st.preds.get(('truth', ('arg', pos))), node))
                return [(st.with_ts(st.ts | {'clean'}), TRUE)]
            if short in ('generate_typedefs_makefile', 'generate_schemes_makefile', 'generate_suite_and_group_caps',
                         'generate_static_api', 'generate_caps_makefile', 'metadata_to_html', 'metadata_to_latex'):
                if 'clean' in st.ts:
                    self.bad.append(node)
                self.flags.append((False, st.preds.get(('truth', ('arg', pos))), node))
                return [(st.with_ts(st.ts | {'generate'}), None or ('call', short, None, ()))]
            if short == 'exit':
                return []
            return None
    rule = Main()
    ip = Interp(project, rule)
    ex = ip.run(main, ts=frozenset())
    ctx.saw(main)
    ctx.check(not rule.bad, "clean only", "prebuild", "ccpp_prebuild --clean generates files after it cleaned",
              main.where(rule.bad[0] if rule.bad else None))
    # without --clean nothing is cleaned: the call is guarded by the flag
    wrong = [n for want, have, n in rule.flags if have is not want]
    guarded = not wrong
    unguarded = wrong[0] if wrong else None
    for st, val, node in ex.ret:
        if 'clean' in st.ts and pos is not None and st.preds.get(('truth', ('arg', pos))) is False:
            guarded, unguarded = False, node
        if 'generate' not in st.ts and pos is not None and st.preds.get(('truth', ('arg', pos))) is False:
            guarded, unguarded = False, node
    ctx.check(guarded, "clean only", "prebuild flag", "ccpp_prebuild cleans although --clean was not given, or generates nothing",
              main.where(unguarded))
    cleaned = [c for c in ast.walk(main.node) if isinstance(c, ast.Call) and getattr(c.func, 'id', '') == 'clean_files']
    ctx.check(bool(cleaned), "clean only", "prebuild called", "ccpp_prebuild --clean cleans nothing", main.where())


# ---------------------------------------------------------------- capgen
def check_capgen(ctx, project):
    mod = project.mod("ccpp_capgen")
    entry = project.func("ccpp_capgen", "clean_capgen")
    mainf = project.func("ccpp_capgen", "_main_func")
    gen = project.func("ccpp_capgen", "capgen")
    if entry is None or mainf is None or gen is None:
        raise AnalysisBroken("ccpp_capgen.clean_capgen / _main_func / capgen not found")
    capfile = ('param', entry.params[0])

    class Del(Clean):
        merge = False

        def on_call(self, ip, st, node, name, target, recv, args, kwargs):
            short = name.split(".")[-1]
            if short == 'DatatableReport' and args:
                return [(st, ('report', args[0]))]
            if short == 'datatable_report' and len(args) >= 2:
                if args[0] != capfile:
                    return None
                return [(st, ('files', args[1][1] if args[1][0] == 'report' else NONE))]
            if short in ('split', 'splitlines') and recv is not None and recv[0] == 'files':
                return [(st, ('filelist', recv[1]))]
            if short in ('normpath', 'abspath', 'realpath') and args:
                return [(st, args[0])]
            if short == 'basename' and args:
                return [(st, ('call', 'basename', None, (args[0],)))]
            if short in ('append', 'add', 'insert') and args:
                for t in sub_terms(args[-1], lambda t: t[0] == 'filelist'):
                    if isk(t[1]):
                        self.appended.setdefault(t[1][2], []).append(kinds_pred(st))
                return None
            if short == 'join' and len(args) == 2 and recv is not None and recv[0] in ('ext', 'm'):
                return [(st, args[1])]
            return super().on_call(ip, st, node, name, target, recv, args, kwargs)
    rule = Del({"ccpp_capgen"})
    rule.appended = {}
    ip = Interp(project, rule)
    ex = ip.run(entry, ts=frozenset())
    ctx.saw(entry)
    for f in ip.visited:
        ctx.saw(f)
    covered = set()
    table = False
    other = []
    for st, sink, node in rule.removed:
        lists = sub_terms(sink, lambda t: t[0] == 'filelist')
        if sink == capfile:
            table = True
        elif lists:
            for t in lists:
                what = t[1]
                if not isk(what):
                    other.append((node, "files of an unknown report"))
                    continue
                covered.add(what[2])
                if what[2] in ('utility_files', 'ccpp_files'):
                    okay = kinds_pred(st) or kinds_filter(ip, ctx, project) or (
                        bool(rule.appended.get(what[2])) and all(rule.appended[what[2]]))
                    if not okay:
                        other.append((node, "framework sources (the utility files of the datatable)"))
        else:
            other.append((node, show(sink)[:80]))
    if not rule.removed:
        raise AnalysisBroken("clean_capgen removes nothing this analysis knows")
    need = {"host_files": "the host cap", "suite_files": "the suite caps", "utility_files": "the kinds module"}
    for rep, what in need.items():
        ctx.check(rep in covered or 'ccpp_files' in covered, "capgen clean", what, "ccpp_capgen --clean does not remove %s listed in the datatable"
                  % what, entry.where())
    extra = sorted(covered - set(need) - {'ccpp_files'})
    ctx.check(not extra, "capgen clean", "reports", "ccpp_capgen --clean removes the %s of the datatable, which it did not write" %
              ", ".join(extra), entry.where())
    ctx.check(table, "capgen clean", "datatable", "ccpp_capgen --clean does not remove the datatable", entry.where())
    ctx.check(not other, "capgen clean", "nothing else", "ccpp_capgen --clean removes %s" % (other[0][1] if other else ""),
              entry.where(other[0][0] if other else None))
    # main: clean and generate exclude each other
    seen = {}

    class Main(Rule):
        max_depth = 2

        def inline(self, fi, depth):
            return fi.module.name == 'ccpp_capgen' and fi.name not in ('clean_capgen', 'capgen')

        def on_call(self, ip, st, node, name, target, recv, args, kwargs):
            short = name.split(".")[-1]
            if short in ('clean_capgen', 'capgen'):
                flag = [v for a, v in st.preds.items() if a[0] == 'truth' and a[1][0] == 'attr' and a[1][2] == 'clean']
                seen.setdefault(short, []).append((flag, node))
                return [(st, NONE)]
            if short == 'parse_command_line':
                return [(st, ('env',))]
            return None
    Interp(project, Main()).run(mainf)
    ctx.saw(mainf)
    for what, flag in (("clean_capgen", True), ("capgen", False)):
        uses = seen.get(what, [])
        ctx.check(bool(uses) and all(f == [flag] for f, _ in uses), "clean only", "ccpp_capgen %s" % what, "ccpp_capgen %s" % (
            "cleans without being asked to" if flag else "generates files although it was asked to clean"),
            mainf.where(uses[0][1] if uses else None))


def kinds_pred(st):
    """Has the base name been compared equal to the name of the kinds file?"""
    return any(v is True and a[0] == 'eq' and any('basename' in show(x) for x in a[1:]) and any(
        'KINDS' in show(x) or 'ccpp_kinds.F90' in show(x) for x in a[1:]) for a, v in st.preds.items())


def only_kinds(conds):
    """Do the conditions CONDS, for a utility file, hold for the kinds file only?"""
    atoms = {}

    def atom(node):
        """(key, value of the atom that makes NODE true)"""
        text = ast.unparse(node)
        if isinstance(node, ast.Compare) and len(node.ops) == 1 and isinstance(node.ops[0], (ast.Eq, ast.NotEq)):
            key = text
            if 'basename' in text and ('KINDS' in text or 'ccpp_kinds' in text):
                key = 'kinds'
            elif re.search(r"['\"](utility_files|ccpp_files)['\"]", text):
                key = 'utility'
            elif isinstance(node.ops[0], ast.NotEq):
                return text, True
            return key, isinstance(node.ops[0], ast.Eq)
        return text, True

    def holds(node, vals):
        if isinstance(node, ast.BoolOp):
            return (all if isinstance(node.op, ast.And) else any)([holds(v, vals) for v in node.values])
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            return not holds(node.operand, vals)
        key, want = atom(node)
        atoms.setdefault(key, None)
        return vals.get(key, False) is want
    for c in conds:
        holds(c, {})
    if 'kinds' not in atoms or len(atoms) > 8:
        return False
    free = sorted(set(atoms) - {'utility', 'kinds'})
    return not any(all(holds(c, dict(zip(free, more), utility=True, kinds=False)) for c in conds)
                   for more in itertools.product((True, False), repeat=len(free)))


def kinds_filter(ip, ctx, project):
    """Does a comprehension of an analysed function keep only the kinds file of the utility files?"""
    for ident in ip.visited:
        name = ident if isinstance(ident, str) else ident.ident
        for f in project.all_funcs():
            if f.ident != name:
                continue
            for n in ast.walk(f.node):
                if isinstance(n, ast.comprehension) and only_kinds(n.ifs):
                    return True
    return False


def check_listed(ctx, project):
    """What ccpp_capgen writes is what the datatable lists."""
    gen = project.func("ccpp_capgen", "capgen")
    table = project.func("ccpp_datafile", "generate_ccpp_datatable")
    files = project.func("ccpp_datafile", "_add_generated_files")
    got = []

    class Flow(Rule):
        merge = True
        merge_over = 1
        keep_none = False
        liveness = False
        max_depth = 1

        def inline(self, fi, depth):
            return False

        def on_call(self, ip, st, node, name, target, recv, args, kwargs):
            short = name.split(".")[-1]
            if short == 'write_host_cap':
                return [(st, ('made', 'host'))]
            if short == 'create_kinds_file':
                return [(st, ('made', 'kinds'))]
            if short == 'write' and recv is not None:
                return [(st, ('made', 'suite'))]
            if short == 'API':
                return [(st, ('api',))]
            if short == 'replace' and recv is not None and recv[0] == 'made':
                return [(st, recv)]
            if short == 'replace_paths':
                return [(st, NONE)]
            if short == 'generate_ccpp_datatable':
                got.append((dict(zip(table.params, args), **kwargs), node))
                return [(st, NONE)]
            return None
    Interp(project, Flow()).run(gen)
    ctx.saw(gen)
    if not got:
        raise AnalysisBroken("capgen writes no datatable")
    roles = {}
    for vals, node in got:
        for par, val in vals.items():
            for t in sub_terms(val, lambda t: t[0] == 'made'):
                roles.setdefault(t[1], set()).add(par)
    for what in ('host', 'suite', 'kinds'):
        ctx.check(len(roles.get(what, ())) == 1, "listed", "%s file to the datatable" % what, "capgen does not hand the %s file it wrote to "
                  "the datatable" % what, gen.where(got[0][1]))
    # the table lists them under the right heading
    entries = []

    class Tab(Rule):
        max_depth = 3
        merge = True

        def inline(self, fi, depth):
            return fi.module.name == 'ccpp_datafile' and (fi is table or fi is files or depth > 0) and fi.name not in (
                '_new_scheme_entry', '_new_variable_dictionary', '_add_suite_object', '_add_suite_object_dictionaries')

        def on_call(self, ip, st, node, name, target, recv, args, kwargs):
            if name.split(".")[-1] == 'SubElement' and len(args) >= 2:
                return [(st, ('el', args[0], args[1], node.lineno))]
            return None

        def on_store(self, ip, st, node, kind, base, key, val):
            if kind == 'attr' and key == 'text' and base[0] == 'el':
                entries.append((base, val, node))
            return st
    Interp(project, Tab()).run(files)
    ctx.saw(files)
    ctx.saw(table)
    under = {}
    for base, val, node in entries:
        head = base[1]
        if head[0] == 'el' and isk(head[2]):
            under.setdefault(head[2][2], []).append((val, base[2]))
    params = files.params
    want = {'host_files': params[1], 'suite_files': params[2]}
    for head, par in want.items():
        vals = under.get(head, [])
        ctx.check(any(v == ('elem', ('param', par)) and tag == K('file') for v, tag in vals), "listed", head,
                  "the datatable does not list every file of %s under %s" % (par, head), files.where())
    vals = under.get('utilities', [])
    ctx.check(any(v == ('param', params[3]) and tag == K('file') for v, tag in vals), "listed", "kinds", "the datatable does not list the kinds "
              "module", files.where())
    # hand-over between the two functions
    calls = [n for n in ast.walk(table.node) if isinstance(n, ast.Call) and getattr(n.func, 'id', '') == files.name]
    ok = bool(calls)
    for call in calls:
        vals = dict(zip(params, call.args))
        vals.update({k.arg: k.value for k in call.keywords})
        for i, what in ((1, 'host'), (2, 'suite'), (3, 'kinds')):
            arg = vals.get(params[i])
            ok = ok and isinstance(arg, ast.Name) and {arg.id} == roles.get(what)
    ctx.check(ok, "listed", "hand-over", "the datatable confuses the lists of generated files", table.where())


def check(ctx, project):
    ctx.rule("prebuild clean", "configuration keys that reach a write (open, rename, makedirs, .filename) interprocedurally are the ones "
             "clean_files removes; patterns match the names given to caps; the static API name is the same")
    ctx.rule("capgen clean", "what clean_capgen removes is what the datatable lists as host, suite and (kinds only) utility files, and the table")
    ctx.rule("clean only", "cleaning and generating exclude each other in both main programs")
    ctx.rule("listed", "every file capgen writes is handed to the datatable and listed under its heading")
    check_prebuild(ctx, project)
    check_capgen(ctx, project)
    check_listed(ctx, project)
    ctx.at_least("prebuild clean", 20)
