import filecmp
import glob
import os
import re
import shutil
import subprocess
import sys
import tempfile

REPO = os.getcwd()
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
TMP = tempfile.mkdtemp(prefix="demo_")


def fail(msg):
    print("FAIL:", msg)
    shutil.rmtree(TMP)
    sys.exit(1)


def done():
    print("ok")
    shutil.rmtree(TMP)
    sys.exit(0)


def env(seed="0"):
    e = dict(os.environ, PYTHONHASHSEED=seed, PYTHONDONTWRITEBYTECODE="1")
    e["PYTHONPATH"] = REPO + "/scripts:" + REPO + "/scripts/parse_tools"
    e["PATH"] = "/opt/venv/bin:" + e["PATH"]
    return e


def run(cmd, cwd, seed="0"):
    return subprocess.run(cmd, cwd=cwd, env=env(seed), capture_output=True, text=True, timeout=250)


def case(name, base="test"):
    """A copy of a test case, at the same place relative to scripts and src."""
    top = tempfile.mkdtemp(dir=TMP)
    for sub in ("scripts", "src", "schema"):
        os.symlink(os.path.join(REPO, sub), os.path.join(top, sub))
    shutil.copytree(os.path.join(REPO, base, name), os.path.join(top, base, name))
    return os.path.join(top, base, name)


def edit(path, old, new):
    text = open(path).read()
    assert old in text, (path, old)
    open(path, "w").write(text.replace(old, new, 1))


CASES = {
    "capgen_test": ("test_host_data.meta,test_host_mod.meta,test_host.meta",
                    "temp_scheme_files.txt,ddt_suite_files.txt", "ddt_suite.xml,temp_suite.xml"),
    "advection_test": ("test_host_data.meta,test_host_mod.meta,test_host.meta", "cld_suite_files.txt", "cld_suite.xml"),
    "ddthost_test": ("test_host_data.meta,test_host_mod.meta,host_ccpp_ddt.meta,test_host.meta",
                     "temp_scheme_files.txt,ddt_suite_files.txt", "ddt_suite.xml,temp_suite.xml"),
    "var_compatibility_test": ("test_host_data.meta,test_host_mod.meta,test_host.meta",
                               "var_compatibility_files.txt", "var_compatibility_suite.xml"),
}


def capgen(cwd, name, out, seed="0", host=None, schemes=None, suites=None):
    h, s, x = CASES[name]
    os.makedirs(out, exist_ok=True)
    return run([PY, REPO + "/scripts/ccpp_capgen.py", "--host-files", host or h, "--scheme-files", schemes or s,
                "--suites", suites or x, "--host-name", "test_host", "--output-root", out, "--debug"], cwd, seed)


def prebuild(cwd, *more, seed="0"):
    os.makedirs(os.path.join(cwd, "build"), exist_ok=True)
    return run([PY, REPO + "/scripts/ccpp_prebuild.py", "--config=ccpp_prebuild_config.py", "--builddir=build"]
               + list(more), cwd, seed)



KINDS = """module ccpp_kinds
 use iso_fortran_env, only: kind_phys => real64
end module
"""


def fortran(name, driver):
    d = tempfile.mkdtemp(dir=TMP)
    open(d + "/kinds.F90", "w").write(KINDS)
    open(d + "/driver.F90", "w").write(driver)
    src = REPO + "/src/"
    r = run(["gfortran", "-g", "-fcheck=all", "-ffree-line-length-none", "-o", "driver", "kinds.F90", src + "ccpp_hashable.F90", src + "ccpp_hash_table.F90",
             src + "ccpp_constituent_prop_mod.F90", "driver.F90"], d)
    if r.returncode:
        fail(r.stderr[-1000:])
    r = run(["timeout", "20", "./driver"], d)
    print(name, r.stdout, r.stderr)
    if r.returncode:
        fail("%s: the driver stops with %d" % (name, r.returncode))
    return r.stdout.split()


out = fortran("copy", """program d
 use ccpp_kinds, only: kind_phys
 use ccpp_constituent_prop_mod
 type(ccpp_constituent_properties_t), target :: a, b
 integer :: e
 real(kind_phys) :: v
 character(len=512) :: msg
 call a%instantiate('aa', 'aa', 'kg kg-1', 'vertical_layer_dimension', molar_mass=18._kind_phys, errcode=e, errmsg=msg)
 b = a
 call b%molar_mass(v, e, msg)
 print *, nint(min(v, 1000._kind_phys))
end program
""")
if out != ["18"]:
    fail("molar mass of the copy: %s" % out)
done()
