#!/usr/bin/env python3
"""Runs the check of one property against /repo's working tree.

  check.py C05 [--tier quick|thorough] [--seed N]    exit 0 held, 1 violated, 2 inconclusive
  check.py --replay replays/C05/1.json               runs the recorded case again
  check.py --setup                                   builds what the quick checks share
"""
import fcntl, json, os, re, resource, shutil, signal, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import steps as S

TARGET = os.path.join(HERE, "target")
REPO = "/repo"


class Inconclusive(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ---------------------------------------------------------------- builds
def build(variant, check):
    """returns (argv prefix, variant) of the workload binary built from /repo's current tree"""
    v = S.VARIANTS[variant]
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
    env.pop("RUSTFLAGS", None)
    env.update({k: x.replace("{seed}", "0") for k, x in v.get("build_env", {}).items()})
    td = os.path.join(TARGET, variant)
    if v.get("python"):
        import pybuild
        return pybuild.build(td, env, log, Inconclusive), v
    cmd = ["cargo"] + v.get("toolchain", []) + v["cargo"] + ["--offline", "--target-dir", td, "--no-default-features", "--features", ",".join([check.lower()] + v.get("features", []))]
    crate = os.path.join(HERE, v["crate"])
    t0 = time.time()
    if v.get("miri"):
        # building happens in the run itself; build once here to tell build failures apart
        cmd += ["--", "BUILD"]
    os.makedirs(td, exist_ok=True)
    with open(os.path.join(td, ".gv-lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = subprocess.run(cmd, cwd=crate, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800)
        if r.returncode != 0 and not (v.get("miri") and r.returncode == 64):
            log(r.stdout[-6000:])
            raise Inconclusive("building %s failed" % variant)
        log("built %s in %.1f s" % (variant, time.time() - t0))
        if v.get("miri"):
            return cmd[:-1], v
        out = os.path.join(td, v["bin"])
        own = out + "-" + check
        shutil.copy2(out, own + ".new")
        os.replace(own + ".new", own)
    return [own], v


# ---------------------------------------------------------------- runs
REPORT = re.compile(r"(AddressSanitizer|ThreadSanitizer|LeakSanitizer|UndefinedBehaviorSanitizer|Undefined Behavior|Data race detected|unsafe precondition\(s\) violated|misaligned pointer dereference|stack overflow|free\(\): |malloc\(\): |corrupted|double free|munmap_chunk|heap buffer|panicked at)")


def report_of(text):
    """the interesting part of a crash or sanitizer report"""
    lines = text.splitlines()
    for i, l in enumerate(lines):
        if "AddressSanitizer" in l or "ThreadSanitizer" in l or "error: Undefined Behavior" in l or "Data race" in l or "precondition" in l:
            return "\n".join(lines[i:i + 45])
    return "\n".join(lines[-25:])


def run_step(prop, st, tier, seed, work, only=None):
    """builds, then runs one process, or `procs` of them side by side with seeds of their own"""
    prefix, v = build(st["variant"], st["check"])
    n = 1 if only else st.get("procs", 1)
    if isinstance(n, (list, tuple)):
        n = n[tier == "thorough"]
    outs = [os.path.join(work, "%s-%s%s" % (st["variant"], st["check"], "-%d" % k if k else "")) for k in range(n)]
    seeds = [seed + 1000003 * k for k in range(n)]
    if n == 1:
        rs = [run_one(prop, st, tier, seed, outs[0], only, prefix, v)]
    else:
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(n) as ex:
            rs = list(ex.map(lambda x: run_one(prop, st, tier, x[0], x[1], only, prefix, v), zip(seeds, outs)))
    for r, s in zip(rs, seeds):
        for x in r["violations"]:
            x["seed"] = s
    if n == 1:
        return rs[0]
    res = None
    for r in rs:
        q = r["res"]
        if not q:
            continue
        if res is None:
            res = dict(q)
            continue
        for k in ("evaluations", "distinct_nontrivial"):
            res[k] += q[k]
        for k, f in (("counters", lambda a, b: a + b), ("maxima", max), ("minima", min)):
            for c, x in q.get(k, {}).items():
                res[k][c] = f(res[k][c], x) if c in res[k] else x
        res["cut_by_budget"] = res.get("cut_by_budget") or q.get("cut_by_budget")
    info = dict(rs[0]["info"], processes=n, wall_s=max(r["info"]["wall_s"] for r in rs), returncode=[r["info"]["returncode"] for r in rs])
    viol, seen = [], set()
    for r in rs:
        for x in r["violations"]:
            key = re.sub(r"0x[0-9a-f]+|[0-9]+", "", x["what"])[:400]
            if key not in seen:
                seen.add(key)
                viol.append(x)
    return dict(info=info, res=res, violations=viol, why=next((r["why"] for r in rs if r["why"]), None))


def run_one(prop, st, tier, seed, out, only, prefix, v):
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    args = prefix + [st["check"], "--seed", str(seed), "--tier", tier, "--out", out]
    budget = st["budget"][tier == "thorough"]
    args += ["--budget", str(budget)]
    for k in ("workers", "scale", "cpu-limit", "quiet", "variant-opts"):
        if k in st:
            x = st[k]
            args += ["--" + k, str(x[tier == "thorough"] if isinstance(x, (list, tuple)) else x)]
    if only:
        args += ["--only", only]
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
    env.pop("RUSTFLAGS", None)
    env.update(v.get("build_env", {}) if v.get("miri") else {})
    env.update(v.get("run_env", {}))
    env.update(st.get("env", {}))
    env["GV_VARIANT"] = st["variant"]
    for k in env:
        if k in ("MIRIFLAGS", "TSAN_OPTIONS", "ASAN_OPTIONS"):
            env[k] = env[k].replace("{seed}", str(seed)).replace("{out}", out).replace("{verif}", HERE)
    limit = st.get("timeout", (420, 800))[tier == "thorough"]

    def pre():
        os.setsid()
        if v.get("as_limit"):
            # (mapped files do not count as data)
            what = resource.RLIMIT_DATA if st.get("maps_large_files") else resource.RLIMIT_AS
            resource.setrlimit(what, (v["as_limit"], v["as_limit"]))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

    so = open(os.path.join(out, "stdout"), "wb")
    se = open(os.path.join(out, "stderr"), "wb")
    t0 = time.time()
    p = subprocess.Popen(args, cwd=os.path.join(HERE, v.get("crate", ".")) if v.get("miri") else out, env=env, stdin=subprocess.DEVNULL, stdout=so, stderr=se, preexec_fn=pre)
    timed_out = False
    try:
        rc = p.wait(timeout=limit)
    except subprocess.TimeoutExpired:
        timed_out = True
        rc = None
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.wait()
    wall = time.time() - t0
    so.close(), se.close()
    err = open(os.path.join(out, "stderr"), errors="replace").read()
    crumbs = ""
    try:
        crumbs = open(os.path.join(out, "crumbs")).read().strip()
    except OSError:
        pass
    res = None
    try:
        res = json.load(open(os.path.join(out, "result.json")))
    except (OSError, ValueError):
        pass
    info = dict(variant=st["variant"], check=st["check"], wall_s=round(wall, 1), returncode=rc)
    viol, why = [], None
    if res:
        viol = list(res.get("violations", []))
    reports = sanitizer_reports(out, err)
    if timed_out:
        why = "no verdict within %d s (running: %s)" % (limit, crumbs[:400])
    elif rc == 0 and res is not None:
        if res.get("harness_errors"):
            # the workload itself never fails on results the properties allow, unless the machine lets it down
            for h in res["harness_errors"][:10]:
                if re.search(r"Os \{|os error|No space|WouldBlock|spawn", h):
                    why = "the workload failed: %s" % h[:1500]
                    continue
                viol.append(dict(case=h.split(" [")[0].split(": ")[0], what="the library's answers made the workload fail: " + h[:1500]))
        elif res["evaluations"] == 0 and not only and not viol:
            why = "nothing was observed"
    elif rc in (-signal.SIGKILL, 137):
        why = "the workload was killed from outside (memory?); running: %s" % crumbs[:400]
    elif rc == 64 and not REPORT.search(err):
        why = "unknown check"
    elif v.get("python") and rc not in (0,) and rc > 0:
        why = "driver failed: %s" % err[-1500:]
    else:
        if not reports:
            if "memory allocation of" in err and st.get("alloc_ok"):
                why = "out of memory on hostile input: %s" % err[-300:]
            elif rc is not None and rc > 0 and not REPORT.search(err):
                why = "the workload ended with exit code %s: %s" % (rc, err[-1200:])
            else:
                reports = [report_of(err)]
    for r in reports:
        viol.append(dict(case=crumbs.splitlines()[0] if crumbs else "", what="%s (exit %s) while running [%s]:\n%s" % (v.get("name", st["variant"]), rc, crumbs[:600], r[:3500])))
    # keep what the reports refer to, drop bulky leftovers
    for f in os.listdir(out):
        q = os.path.join(out, f)
        if os.path.isdir(q):
            shutil.rmtree(q, ignore_errors=True)
        elif f not in ("result.json", "crumbs", "stdout", "stderr") and not f.startswith("san"):
            os.remove(q)
    return dict(info=info, res=res, violations=viol, why=why)


def sanitizer_reports(out, err):
    """one entry per distinct sanitizer or interpreter report"""
    text = err
    for f in sorted(os.listdir(out)):
        if f.startswith("san"):
            text += "\n" + open(os.path.join(out, f), errors="replace").read()
    blocks, cur = [], None
    for l in text.splitlines():
        if re.search(r"(WARNING: ThreadSanitizer|ERROR: AddressSanitizer|ERROR: LeakSanitizer|error: Undefined Behavior|error: memory leaked|error: deadlock|error: the evaluated program)", l):
            cur = [l]
            blocks.append(cur)
        elif cur is not None and len(cur) < 60:
            cur.append(l)
            if l.startswith("SUMMARY:"):
                cur = None
    seen, outb = set(), []
    for b in blocks:
        fr = [re.sub(r"^\s*#\d+ |0x[0-9a-f]+|:\d+(:\d+)?", "", l).strip() for l in b if re.match(r"\s*#\d+ ", l)]
        fr = [f for f in fr if "granne" in f][:6] or fr[:6]
        key = (b[0].split("(pid")[0], tuple(fr)) if fr else (b[0],)
        if key not in seen:
            seen.add(key)
            outb.append("\n".join(b))
    return outb[:8]


# ---------------------------------------------------------------- known findings
def known_findings(prop):
    """lines `finding: property=<id> group=<case group> match=<regex>  # text`"""
    out = []
    try:
        for l in open(os.path.join(HERE, "known-findings.txt")):
            m = re.match(r"finding: property=(\S+) group=(\S+) match=(.+?)\s+# (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), re.compile(m.group(3)), m.group(4)))
    except OSError:
        pass
    return out


# ---------------------------------------------------------------- main
def main():
    a = sys.argv[1:]
    if "--setup" in a:
        for v in S.SETUP:
            build(v, "C01")
        return 0
    if "--replay" in a:
        return replay(a[a.index("--replay") + 1])
    prop = a[0]
    tier = a[a.index("--tier") + 1] if "--tier" in a else os.environ.get("VERIF_TIER", "quick")
    seed = int(a[a.index("--seed") + 1] if "--seed" in a else os.environ.get("VERIF_SEED", "1"))
    spec = S.CHECKS[prop]
    t0 = time.time()
    work = os.path.join(HERE, "work", prop)
    os.makedirs(work, exist_ok=True)
    only_variant = a[a.index("--variant") + 1] if "--variant" in a else None
    runs, why = [], []
    for st in spec["steps"]:
        if only_variant and st["variant"] != only_variant:
            continue
        if tier == "quick" and st.get("thorough_only"):
            continue
        try:
            r = run_step(prop, st, tier, seed, work)
        except Inconclusive as e:
            why.append(str(e))
            continue
        except subprocess.TimeoutExpired as e:
            why.append("building %s timed out" % st["variant"])
            continue
        runs.append((st, r))
        if r["why"]:
            why.append("%s/%s: %s" % (st["variant"], st["check"], r["why"]))
        log("%s %s: %s cases, %d violations, %.1f s%s" % (st["variant"], st["check"], (r["res"] or {}).get("evaluations", "no"), len(r["violations"]), r["info"]["wall_s"], " INCONCLUSIVE " + r["why"] if r["why"] else ""))
        if r["violations"]:
            break
    known = known_findings(prop)
    new, old = [], {}
    for st, r in runs:
        for x in r["violations"]:
            hit = next((k for k in known if x["case"].split("#")[0] == k[0] and k[1].search(x["what"])), None)
            if hit:
                old[hit[2]] = old.get(hit[2], 0) + 1
            else:
                new.append((st, x))
    wall = round(time.time() - t0, 2)
    evidence(prop, spec, tier, seed, runs, wall, len(new), old, why)
    for text in old:
        print("KNOWN-FINDING: property=%s %s" % (prop, text))
    if new:
        rd = os.path.join(HERE, "replays", prop)
        shutil.rmtree(rd, ignore_errors=True)
        os.makedirs(rd)
        for i, (st, x) in enumerate(new[:10]):
            p = os.path.join(rd, "%d.json" % (i + 1))
            json.dump(dict(property=prop, variant=st["variant"], check=st["check"], seed=x.get("seed", seed), tier=tier, case=x["case"], what=x["what"]), open(p, "w"), indent=1)
            if i == 0:
                first = p
            log("violation %d: %s\n    %s" % (i + 1, x["case"][:400], x["what"][:700].replace("\n", "\n    ")))
        print("VIOLATION property=%s replay=%s" % (prop, first))
        return 1
    if why:
        print("INCONCLUSIVE property=%s: %s" % (prop, " | ".join(why)[:3000]))
        return 2
    print("held: property=%s tier=%s seed=%d wall=%.1fs" % (prop, tier, seed, wall))
    return 0


def evidence(prop, spec, tier, seed, runs, wall, nviol, old, why):
    cov = dict(evaluations=0, distinct_nontrivial=0, rule="", samples=[], steps=[])
    rules = []
    for st, r in runs:
        res = r["res"] or {}
        cov["evaluations"] += res.get("evaluations", 0)
        cov["distinct_nontrivial"] += res.get("distinct_nontrivial", 0)
        if res.get("rule"):
            rules.append(res["rule"])
        for g, xs in (res.get("samples") or {}).items():
            cov["samples"] += [("%s: %s" % (st["variant"], s))[:420] for s in xs[:2]]
        cov["steps"].append(dict(r["info"], build=S.VARIANTS[st["variant"]].get("name", st["variant"]), evaluations=res.get("evaluations", 0),
                                 distinct_nontrivial=res.get("distinct_nontrivial", 0), observed=res.get("counters", {}),
                                 maxima=res.get("maxima", {}), minima=res.get("minima", {}), cut_by_budget=res.get("cut_by_budget", False)))
    cov["samples"] = cov["samples"][:40]
    cov["rule"] = " ".join(dict.fromkeys(rules))
    if why:
        cov["inconclusive"] = why
    if old:
        cov["known_findings_seen"] = old
    d = dict(property=prop, tier=tier, seed=seed, level=spec.get("level", "exploration"), coverage=cov,
             assumptions=spec.get("assumptions", []), wall_s=wall, violations=nviol)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(d, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)


def replay(path):
    d = json.load(open(path))
    m = re.match(r"([^#\s\[]+)#(\d+)", d["case"])
    only = "%s#%s" % (m.group(1), m.group(2)) if m else None
    st = next(s for s in S.CHECKS[d["property"]]["steps"] if s["variant"] == d["variant"] and s["check"] == d["check"])
    work = os.path.join(HERE, "work", "replay")
    os.makedirs(work, exist_ok=True)
    r = run_step(d["property"], st, d["tier"], d["seed"], work, only)
    for x in r["violations"]:
        print(x["case"], "\n   ", x["what"])
    print("violations on replay:", len(r["violations"]), r["why"] or "")
    return 1 if r["violations"] else 0


if __name__ == "__main__":
    try:
        rc = main()
    except Inconclusive as e:
        print("INCONCLUSIVE: %s" % e)
        rc = 2
    sys.exit(rc)
