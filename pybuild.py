"""Builds the Python extension from /repo's working tree and what is needed to import and judge it."""
import fcntl, os, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))

# The cpython crate of this era references _PyUnicode_Ready, which Python 3.12 no longer exports.
# Strings are always "ready" there, so the stand-in is what newer crate versions do.
STUB = "int _PyUnicode_Ready(void *o) { return 0; }\n"


def run(cmd, env, log, err, what, cwd=None):
    r = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800)
    if r.returncode != 0:
        log(r.stdout[-6000:])
        raise err("building %s failed" % what)


def build(td, env, log, err):
    """returns the argv prefix of the Python workload"""
    os.makedirs(td, exist_ok=True)
    env = dict(env, PYTHON_SYS_EXECUTABLE="/usr/bin/python3",
               CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS="true", CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS="true")
    t0 = time.time()
    with open(os.path.join(td, ".gv-lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        d = os.path.join(td, "mod")
        os.makedirs(d, exist_ok=True)
        run(["cargo", "build", "--release", "-p", "granne-py", "--manifest-path", "/repo/Cargo.toml", "--target-dir", td, "--offline"], env, log, err, "the Python module")
        shutil.copy2(os.path.join(td, "release/libgranne.so"), os.path.join(d, "granne.so.new"))
        os.replace(os.path.join(d, "granne.so.new"), os.path.join(d, "granne.so"))
        c = os.path.join(d, "stub.c")
        open(c, "w").write(STUB)
        run(["gcc", "-shared", "-fPIC", "-O1", "-o", os.path.join(d, "stub.so"), c], env, log, err, "the import stub")
    m = os.path.join(HERE, "target", "mon")
    os.makedirs(m, exist_ok=True)
    with open(os.path.join(m, ".gv-lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        run(["cargo", "build", "--profile", "mon", "--offline", "--target-dir", m, "--no-default-features", "--features", "c20"], env, log, err, "the reference", os.path.join(HERE, "harness"))
        shutil.copy2(os.path.join(m, "mon/gv"), os.path.join(d, "ref.new"))
        os.replace(os.path.join(d, "ref.new"), os.path.join(d, "ref"))
    log("built the Python module and the reference in %.1f s" % (time.time() - t0))
    return [sys.executable, os.path.join(HERE, "pymon.py"), "--mod", d]
