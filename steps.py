"""Which builds exist and which of them each check runs."""

G = 1 << 30

VARIANTS = {
    "mon": dict(
        name="optimised build with debug assertions, overflow checks and std precondition checks",
        crate="harness",
        cargo=["build", "--profile", "mon"],
        bin="mon/gv",
        as_limit=16 * G,
    ),
    "single": dict(
        name="as `mon`, with the crate feature `singlethreaded`",
        crate="harness",
        cargo=["build", "--profile", "mon"],
        bin="mon/gv",
        features=["singlethreaded"],
        as_limit=16 * G,
    ),
    "plain": dict(
        name="release build as shipped, without any assertions for debugging",
        crate="harness",
        cargo=["build", "--release"],
        bin="release/gv",
        as_limit=16 * G,
    ),
    "asan": dict(
        name="release build as shipped, with AddressSanitizer and std precondition checks",
        crate="harness",
        toolchain=["+nightly"],
        cargo=["build", "--release", "--target", "x86_64-unknown-linux-gnu"],
        bin="x86_64-unknown-linux-gnu/release/gv",
        build_env={"RUSTFLAGS": "-Zsanitizer=address -Zub-checks=yes -Cdebuginfo=1"},
        run_env={"ASAN_OPTIONS": "detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=16000:log_path={out}/san"},
    ),
    "shim": dict(
        name="as `mon`, with the stand-in lock library that delays lock operations at random",
        crate="harness_mon",
        cargo=["build", "--profile", "mon"],
        bin="mon/gv",
        features=["shim"],
        as_limit=16 * G,
    ),
    "tsan": dict(
        name="ThreadSanitizer (std rebuilt with it; stand-in lock library with precise edges and random delays)",
        crate="harness_mon",
        toolchain=["+nightly"],
        cargo=["build", "--release", "-Zbuild-std", "--target", "x86_64-unknown-linux-gnu"],
        bin="x86_64-unknown-linux-gnu/release/gv",
        features=["shim"],
        build_env={"RUSTFLAGS": "-Zsanitizer=thread --cfg crossbeam_sanitize_thread -Cdebuginfo=1"},
        run_env={"TSAN_OPTIONS": "halt_on_error=1:history_size=4:second_deadlock_stack=0:suppressions={verif}/tsan.supp:report_signal_unsafe=0:log_path={out}/san"},
    ),
    "miri": dict(
        name="Miri (tree borrows, data race detection, random schedules)",
        crate="harness_mon",
        features=["shim"],
        toolchain=["+nightly"],
        cargo=["miri", "run"],
        miri=True,
        build_env={"MIRIFLAGS": "-Zmiri-tree-borrows -Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-seed={seed}", "RAYON_NUM_THREADS": "2"},
    ),
    "miri-rw": dict(
        name="Miri without the aliasing model (data race detection, random schedules)",
        crate="harness_mon",
        features=["shim"],
        toolchain=["+nightly"],
        cargo=["miri", "run"],
        miri=True,
        build_env={"MIRIFLAGS": "-Zmiri-disable-stacked-borrows -Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-preemption-rate=0.03 -Zmiri-seed={seed}", "RAYON_NUM_THREADS": "2"},
    ),
    "python": dict(
        name="the Python module, optimised with debug assertions and overflow checks, in the system Python",
        python=True,
    ),
}

SETUP = ["mon"]


def step(variant, check, budget=(150, 500), **kw):
    return dict(variant=variant, check=check, budget=budget, **kw)


CHECKS = {p: dict(steps=[step("mon", p)]) for p in
          ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C09", "C10", "C11", "C12", "C13", "C14", "C16", "C17", "C18", "C19", "C21", "C22", "C23", "C24", "C25", "C26", "C27", "C28"]}

CHECKS["C06"]["steps"][0]["maps_large_files"] = True

CHECKS["C08"] = dict(steps=[
    step("mon", "C08", alloc_ok=True),
    step("asan", "C08", alloc_ok=True, budget=(100, 250), scale=(0.7, 1.0)),
    step("miri", "C08", budget=(90, 330), scale=(0.01, 0.15), procs=8),
])

CHECKS["C15"] = dict(steps=[
    step("tsan", "C15", budget=(90, 330), scale=(2.0, 4.0)),
    step("asan", "C15", budget=(40, 120)),
    step("miri-rw", "C15", budget=(70, 250), scale=(0.2, 2.0), procs=8),
])

CHECKS["C01"]["steps"].append(step("shim", "C01", scale=(0.3, 1.0)))
for _p in ("C11", "C12", "C13"):
    CHECKS[_p]["steps"].append(step("shim", _p, scale=(0.5, 0.5)))

# the documented feature: builds on any pool are sequential ones
CHECKS["C22"]["steps"].append(step("single", "C22", scale=(0.4, 1.0)))
for _p in ("C01", "C10", "C21"):
    CHECKS[_p]["steps"].append(step("single", _p, scale=(0.5, 0.5), thorough_only=True))

# where a debug assertion would stop what a release build does silently
CHECKS["C04"]["steps"].append(step("plain", "C04", scale=(0.5, 0.5)))
CHECKS["C27"]["steps"].append(step("plain", "C27"))

CHECKS["C20"] = dict(steps=[step("python", "C20", budget=(120, 500))])
