#!/usr/bin/env python3
"""mut.py PROP FILE.py: apply each (name, path, old, new, expect) of MUTANTS in
FILE to a scratch copy of /repo and report the verdict of PROP's check."""
import importlib.util
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(args):
    prop, mut = args
    name, path, old, new, expect = mut[:5]
    tmp = tempfile.mkdtemp(prefix="mut_")
    try:
        for sub in ("scripts", "src", "schema", "doc", "test", "examples", "test_prebuild", "cmake"):
            src = os.path.join("/repo", sub)
            if os.path.isdir(src):
                shutil.copytree(src, os.path.join(tmp, sub), symlinks=True)
        edits = [(path, old, new)] + list(mut[5:])
        for fpath, fold, fnew in edits:
            full = os.path.join(tmp, fpath)
            text = open(full).read()
            if text.count(fold) < 1:
                return (name, "NOMATCH " + fpath, "")
            open(full, "w").write(text.replace(fold, fnew, 1))
            if full.endswith(".py"):
                compile(open(full).read(), full, "exec")
        env = dict(os.environ, VERIF_REPO=tmp, VERIF_EVIDENCE=os.path.join(tmp, "evidence"))
        res = subprocess.run([sys.executable, os.path.join(HERE, "check.py"), prop], env=env,
                             capture_output=True, text=True, timeout=900)
        verdict = {0: "quiet", 1: "caught"}.get(res.returncode, "BROKEN")
        good = verdict == expect
        return (name, ("ok   " if good else "BAD  ") + verdict, "" if good else res.stdout[:900])
    finally:
        shutil.rmtree(tmp)


def main():
    spec = importlib.util.spec_from_file_location("m", sys.argv[2])
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    muts = [m for m in mod.MUTANTS if len(sys.argv) < 4 or sys.argv[3] in m[0]]
    with ThreadPoolExecutor(7) as pool:
        for name, verdict, text in pool.map(one, [(sys.argv[1], m) for m in muts]):
            print("%-34s %s" % (name, verdict))
            if text:
                print("      " + text.replace("\n", "\n      ")[:300])


main()
