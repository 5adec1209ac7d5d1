import filecmp
import glob
import os
import re
import shutil
import subprocess
import sys
import tempfile

REPO = os.getcwd()
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
TMP = tempfile.mkdtemp(prefix="demo_")


def fail(msg):
    print("FAIL:", msg)
    shutil.rmtree(TMP)
    sys.exit(1)


def done():
    print("ok")
    shutil.rmtree(TMP)
    sys.exit(0)


def env(seed="0"):
    e = dict(os.environ, PYTHONHASHSEED=seed, PYTHONDONTWRITEBYTECODE="1")
    e["PYTHONPATH"] = REPO + "/scripts:" + REPO + "/scripts/parse_tools"
    e["PATH"] = "/opt/venv/bin:" + e["PATH"]
    return e


def run(cmd, cwd, seed="0"):
    return subprocess.run(cmd, cwd=cwd, env=env(seed), capture_output=True, text=True, timeout=250)


def case(name, base="test"):
    """A copy of a test case, at the same place relative to scripts and src."""
    top = tempfile.mkdtemp(dir=TMP)
    for sub in ("scripts", "src", "schema"):
        os.symlink(os.path.join(REPO, sub), os.path.join(top, sub))
    shutil.copytree(os.path.join(REPO, base, name), os.path.join(top, base, name))
    return os.path.join(top, base, name)


def edit(path, old, new):
    text = open(path).read()
    assert old in text, (path, old)
    open(path, "w").write(text.replace(old, new, 1))


CASES = {
    "capgen_test": ("test_host_data.meta,test_host_mod.meta,test_host.meta",
                    "temp_scheme_files.txt,ddt_suite_files.txt", "ddt_suite.xml,temp_suite.xml"),
    "advection_test": ("test_host_data.meta,test_host_mod.meta,test_host.meta", "cld_suite_files.txt", "cld_suite.xml"),
    "ddthost_test": ("test_host_data.meta,test_host_mod.meta,host_ccpp_ddt.meta,test_host.meta",
                     "temp_scheme_files.txt,ddt_suite_files.txt", "ddt_suite.xml,temp_suite.xml"),
    "var_compatibility_test": ("test_host_data.meta,test_host_mod.meta,test_host.meta",
                               "var_compatibility_files.txt", "var_compatibility_suite.xml"),
}


def capgen(cwd, name, out, seed="0", host=None, schemes=None, suites=None):
    h, s, x = CASES[name]
    os.makedirs(out, exist_ok=True)
    return run([PY, REPO + "/scripts/ccpp_capgen.py", "--host-files", host or h, "--scheme-files", schemes or s,
                "--suites", suites or x, "--host-name", "test_host", "--output-root", out, "--debug"], cwd, seed)


def prebuild(cwd, *more, seed="0"):
    os.makedirs(os.path.join(cwd, "build"), exist_ok=True)
    return run([PY, REPO + "/scripts/ccpp_prebuild.py", "--config=ccpp_prebuild_config.py", "--builddir=build"]
               + list(more), cwd, seed)



KINDS = """module ccpp_kinds
 use iso_fortran_env, only: kind_phys => real64
end module
"""


def fortran(name, driver):
    d = tempfile.mkdtemp(dir=TMP)
    open(d + "/kinds.F90", "w").write(KINDS)
    open(d + "/driver.F90", "w").write(driver)
    src = REPO + "/src/"
    r = run(["gfortran", "-g", "-fcheck=all", "-ffree-line-length-none", "-o", "driver", "kinds.F90", src + "ccpp_hashable.F90", src + "ccpp_hash_table.F90",
             src + "ccpp_constituent_prop_mod.F90", "driver.F90"], d)
    if r.returncode:
        fail(r.stderr[-1000:])
    r = run(["timeout", "20", "./driver"], d)
    print(name, r.stdout, r.stderr)
    if r.returncode:
        fail("%s: the driver stops with %d" % (name, r.returncode))
    return r.stdout.split()


DRIVER = """module km
 use ccpp_hashable, only: ccpp_hashable_t
 type, extends(ccpp_hashable_t) :: h_t
  character(len=8) :: n
 contains
  procedure :: key => kk
 end type
contains
 function kk(hashable) result(k)
  class(h_t), intent(in) :: hashable
  character(len=:), allocatable :: k
  k = trim(hashable%n)
 end function
end module
program d
 use km
 use ccpp_hashable, only: ccpp_hashable_t
 use ccpp_hash_table
 type(ccpp_hash_table_t), target :: t
 type(ccpp_hash_iterator_t) :: it
 type(h_t), target :: a(40)
 class(ccpp_hashable_t), pointer :: p
 character(len=200) :: msg
 integer :: i, found, seen
 call t%initialize(2)
 do i = 1, 40
  write(a(i)%n, '(a,i0)') 'x', i
  call t%add_hash_key(a(i), errmsg=msg)
  if (len_trim(msg) > 0) stop 2
 end do
 found = 0
 do i = 1, 40
  p => t%table_value(trim(a(i)%n), errmsg=msg)
  if (associated(p)) found = found + 1
 end do
 seen = 0
 call it%initialize(t)
 do i = 1, 100
  if (.not. it%valid()) exit
  seen = seen + 1
  call it%next()
 end do
 print *, found, seen, t%num_values()
end program
"""
out = fortran("table", DRIVER)
if out != ["40"] * 3:
    fail("40 entries: found, visited, counted: %s" % out)
done()
