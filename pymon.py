#!/usr/bin/env python3
"""C20: drives the compiled Python module and judges every answer.

Oracles: 64-bit arithmetic on what was appended, plain lists and dictionaries as models,
and the library itself (`gv REF`) on the files Python saved.
Cases run in worker processes, so that a crash or hang of the module is seen and named.
"""
import array, gzip, hashlib, json, math, os, random, resource, shutil, signal, struct, subprocess, sys, time, unicodedata, zlib

WORKERS = 8
SINGLE = 5  # workers 0..4 have one library thread: there builds are compared byte for byte


class Bad(Exception):
    pass


def f32(x):
    return struct.unpack("<f", struct.pack("<f", x))[0]


def bits(x):
    return struct.unpack("<I", struct.pack("<f", x))[0]


def unbits(b):
    return struct.unpack("<f", struct.pack("<I", b))[0]


def ensure(ok, what, *a):
    if not ok:
        raise Bad(what % a if a else what)


STALE = b"what was in the file before " * 8000
SAVES = ("save", "save_index", "save_elements", "save_embeddings", "save_words", "parse", "compute")


def call(what, f, *a, **k):
    """the module must not fail here"""
    old = []
    if what in SAVES:
        # sometimes there is a longer file already
        for p in [x for x in list(a) + list(k.values()) if isinstance(x, str) and not os.path.exists(x)]:
            if zlib.crc32(p.encode()) % 2 and os.path.isdir(os.path.dirname(p)):
                with open(p, "wb") as o:
                    o.write(STALE)
                old.append(p)
    try:
        x = f(*a, **k)
    except Exception as e:
        raise Bad("%s failed: %s: %s" % (what, type(e).__name__, e))
    for p in old:
        with open(p, "rb") as o:
            ensure(not o.read().endswith(STALE[-1000:]), "%s leaves the end of the file that was there before", what)
    return x


def fails(what, f, *a, **k):
    try:
        r = f(*a, **k)
    except Exception:
        return
    raise Bad("%s did not fail but returned %r" % (what, r))


class Ref:
    def __init__(self, path):
        env = dict(os.environ, RAYON_NUM_THREADS="1", RUST_BACKTRACE="0")
        env.pop("LD_PRELOAD", None)
        self.p = subprocess.Popen([path, "REF"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env)

    def __call__(self, **q):
        self.p.stdin.write(json.dumps(q) + "\n")
        self.p.stdin.flush()
        l = self.p.stdout.readline()
        ensure(l, "the library died on what Python saved: %s", json.dumps(q)[:300])
        a = json.loads(l)
        ensure("error" not in a, "the library cannot use what Python saved: %s (%s)", a.get("error"), json.dumps(q)[:300])
        return a


class Case:
    def __init__(self, w, group, idx, seed):
        self.w, self.group, self.idx = w, group, idx
        self.rng = random.Random("%d/%s/%d" % (seed, group, idx))
        self.dir = os.path.join(w.dir, "case")
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.single = w.single
        self.ref = w.ref
        self.desc = ""
        self.n = 0

    def path(self, stem="f"):
        self.n += 1
        return os.path.join(self.dir, "%s-%d" % (stem, self.n))

    def note(self, d):
        self.desc = d
        open(self.w.crumbs, "w").write("%s#%d [%s]" % (self.group, self.idx, d))

    def count(self, k, n=1):
        self.w.counters[k] = self.w.counters.get(k, 0) + n

    def min(self, k, x):
        self.w.minima[k] = min(self.w.minima.get(k, x), x)

    def nontrivial(self, *key):
        self.w.distinct.add(hashlib.sha1(repr(key).encode()).hexdigest()[:16])


def captured(c, f):
    """(result, what was written to file descriptor 1 meanwhile)"""
    p = c.path("out")
    sys.stdout.flush()
    old = os.dup(1)
    fd = os.open(p, os.O_RDWR | os.O_CREAT | os.O_TRUNC)
    os.dup2(fd, 1)
    try:
        r = f()
    finally:
        sys.stdout.flush()
        os.dup2(old, 1)
        os.close(old)
        os.close(fd)
    return r, open(p, "rb").read()


# ------------------------------------------------------------------ data
def vector(r, dim, flavor, centers):
    if flavor == "clusters":
        v = [x + 0.1 * r.gauss(0, 1) for x in r.choice(centers)]
    elif flavor == "ints":
        v = [float(r.randint(-5, 5)) for _ in range(dim)]
    elif flavor == "scaled":
        s = 10.0 ** r.uniform(-3, 3)
        v = [s * r.gauss(0, 1) for _ in range(dim)]
    else:
        v = [r.uniform(-1, 1) for _ in range(dim)]
    if not any(v):
        v[r.randrange(dim)] = 1.0
    return [f32(x) for x in v]


def vectors(r, n, dim):
    fl = r.choice(["uniform", "uniform", "clusters", "ints", "scaled"])
    cs = [[r.gauss(0, 1) for _ in range(dim)] for _ in range(r.randint(2, 8))]
    vs = [vector(r, dim, fl, cs) for _ in range(n)]
    if r.random() < 0.1 and n > 3:
        vs[r.randrange(n)] = [0.0] * dim
    qs = [vector(r, dim, fl, cs) for _ in range(6)]
    return fl, vs, qs


def given(r, v):
    """the same numbers in one of the containers Python users pass"""
    k = r.randrange(6)
    if k == 0:
        return tuple(v)
    if k == 1:
        return array.array("f", v)
    if k == 2:
        return array.array("d", v)
    if k == 3 and all(float(x).is_integer() for x in v):
        return [int(x) for x in v]
    return list(v)


def cosdist(a, b):
    na, nb = math.sqrt(math.fsum(x * x for x in a)), math.sqrt(math.fsum(x * x for x in b))
    if na == 0 or nb == 0:
        return None
    return max(0.0, 1.0 - math.fsum(x * y for x, y in zip(a, b)) / (na * nb))


def stored(ty, got, v, what):
    """got is what is stored for v"""
    ensure(len(got) == len(v), "%s has dimension %d, appended with %d", what, len(got), len(v))
    if not any(v):
        ensure(not any(got), "%s: a zero vector became %r", what, got)
        return
    if ty == "angular":
        n = math.sqrt(math.fsum(x * x for x in v))
        for g, x in zip(got, v):
            ensure(abs(g - x / n) < 1e-5, "%s is %r, appended %r", what, got, v)
    else:
        m = max(abs(x) for x in v)
        for g, x in zip(got, v):
            y = x / m * 127.0
            ensure(isinstance(g, int) and -127 <= g <= 127, "%s holds %r", what, g)
            ensure(abs(y) - abs(g) > -0.01 and abs(y) - abs(g) < 1.001, "%s is %r, appended %r", what, got, v)


def typed(r, ty):
    return r.choice([ty, ty, ty.upper(), ty.capitalize()])


ARGS = ["elements_path", "embeddings_path", "words_path", "index_path", "layer_multiplier", "expected_num_elements",
        "num_neighbors", "max_search", "reinsert_elements", "show_progress"]
DEFAULT = dict(reinsert_elements=True, show_progress=True)


def make_builder(c, ty, opts):
    """passes the options positionally or by keyword"""
    g, r = c.w.granne, c.rng
    if r.random() < 0.3:
        last = max([ARGS.index(k) for k in opts] or [-1])
        cut = r.randint(0, last + 1)
        pos = [opts.get(k, DEFAULT.get(k)) for k in ARGS[:cut]]
        kw = {k: v for k, v in opts.items() if ARGS.index(k) >= cut}
        if r.random() < 0.2:
            kw = dict(sorted(kw.items(), key=lambda _: r.random()))
        return call("GranneBuilder(%r, *%r, **%r)" % (ty, pos, kw), g.GranneBuilder, typed(r, ty), *pos, **kw)
    kw = dict(opts)
    if r.random() < 0.1:
        kw["element_type"] = typed(r, ty)
        return call("GranneBuilder(**%r)" % kw, g.GranneBuilder, **kw)
    return call("GranneBuilder(%r, **%r)" % (ty, kw), g.GranneBuilder, typed(r, ty), **kw)


def random_options(c, n):
    r, o = c.rng, {}
    if r.random() < 0.4:
        o["layer_multiplier"] = r.choice([2.0, 3.0, 5.0, 10.0, 14.5, 20.0])
    if r.random() < 0.4:
        o["num_neighbors"] = r.choice([3, 5, 10, 20, 25, 40])
    if r.random() < 0.4:
        o["max_search"] = r.choice([1, 2, 5, 10, 30, 60])
    if r.random() < 0.3:
        o["reinsert_elements"] = r.random() < 0.4
    if r.random() < 0.3:
        o["expected_num_elements"] = r.choice([n, n + 5, 2 * n + 1, 10 * n + 1])
    if r.random() < 0.6:
        o["show_progress"] = False
    return o


def ref_config(o):
    q = {}
    if "layer_multiplier" in o:
        q["lm"] = bits(o["layer_multiplier"])
    for a, b in (("num_neighbors", "nn"), ("max_search", "ms"), ("expected_num_elements", "exp"), ("reinsert_elements", "re")):
        if o.get(a) is not None:
            q[b] = o[a]
    return q


def do_build(c, b, steps, o, todo):
    """builds in steps; returns whether progress was shown as asked. todo: will there be work"""
    r = c.rng

    def go():
        for s in steps:
            if s is None:
                k = r.randrange(2)
                if k == 0:
                    call("build()", b.build)
                else:
                    call("build(all)", b.build, num_elements=sys.maxsize * 2 + 1)
            elif r.random() < 0.5:
                call("build(%d)" % s, b.build, s)
            else:
                call("build(num_elements=%d)" % s, b.build, num_elements=s)

    _, out = captured(c, go)
    shown = o.get("show_progress", True)
    if not shown:
        ensure(not out, "show_progress=False, yet building printed %r", out[:200])
        c.count("silent_builds")
    elif todo:
        ensure(out, "show_progress is on, yet building %r printed nothing", steps)
        c.count("builds_with_progress")


def check_graph(c, x, n, what):
    """neighbors as lists per layer, and the contents of all accessors, for a builder or an index"""
    r = c.rng
    nl = call("num_layers", x.num_layers)
    lens = [call("layer_len", x.layer_len, l) if r.random() < 0.7 else call("layer_len", x.layer_len, layer=l) for l in range(nl)]
    ensure(len(x) == n and (lens[-1] if lens else 0) == n, "%s: len %d, layers %r, expected %d elements", what, len(x), lens, n)
    ensure(lens == sorted(lens), "%s: layers shrink: %r", what, lens)
    nb = []
    for l in range(nl):
        row = []
        for i in range(lens[l]):
            k = r.randrange(3)
            v = call("get_neighbors(%d, %d)" % (i, l), lambda: x.get_neighbors(i, l) if k == 0 else x.get_neighbors(i, layer=l) if k == 1 else x.get_neighbors(idx=i, layer=l))
            ensure(isinstance(v, list) and all(type(j) is int and 0 <= j < lens[l] for j in v), "%s: neighbors of %d in layer %d: %r", what, i, l, v)
            ensure(len(set(v)) == len(v) and i not in v, "%s: neighbors of %d in layer %d: %r", what, i, l, v)
            row.append(sorted(v))
        nb.append(row)
    for i in ([r.randrange(n) for _ in range(3)] if n else []):
        v = call("get_neighbors(%d)" % i, x.get_neighbors, i)
        ensure(sorted(v) == nb[-1][i], "%s: get_neighbors(%d) is %r, in the last layer %r", what, i, v, nb[-1][i])
        v = call("get_neighbors(%d, None)" % i, x.get_neighbors, i, None)
        ensure(sorted(v) == nb[-1][i], "%s: get_neighbors(%d, None) is %r, in the last layer %r", what, i, v, nb[-1][i])
    return lens, nb


def reach(rows, s, rev):
    out = rows
    if rev:
        out = [[] for _ in rows]
        for i, v in enumerate(rows):
            for j in v:
                out[j].append(i)
    seen, st = {s}, [s]
    while st:
        for j in out[st.pop()]:
            if j not in seen:
                seen.add(j)
                st.append(j)
    return len(seen)


def connected(nb):
    return not nb or not nb[-1] or all(reach(nb[-1], 0, x) == len(nb[-1]) for x in (False, True))


def do_search(c, ix, q, ms, k):
    """ms/k None: left out"""
    r = c.rng
    if ms is None and k is None:
        return call("search", ix.search, q)
    if ms is None:
        return call("search", ix.search, q, num_elements=k)
    if k is None:
        return call("search", ix.search, q, ms) if r.random() < 0.5 else call("search", ix.search, q, max_search=ms)
    return r.choice([lambda: call("search", ix.search, q, ms, k), lambda: call("search", ix.search, q, num_elements=k, max_search=ms),
                     lambda: call("search", ix.search, element=q, max_search=ms, num_elements=k), lambda: call("search", ix.search, q, ms, num_elements=k)])()


def check_searches(c, ix, nb, els, queries, what, tol):
    """queries: (argument, vector, ms, k). els: what is stored, as numbers. Returns the results as (id, bits)"""
    res, strong, n = [], connected(nb), len(els)
    for (arg, q, ms, k), tol in zip(queries, tol if isinstance(tol, list) else [tol] * len(queries)):
        a = do_search(c, ix, arg, ms, k)
        ms, k = 200 if ms is None else ms, 10 if k is None else k
        ensure(isinstance(a, list) and all(type(t) is tuple and len(t) == 2 and type(t[0]) is int and type(t[1]) is float for t in a), "%s: search returned %r", what, a)
        ids = [t[0] for t in a]
        ensure(len(set(ids)) == len(ids) and all(0 <= i < n for i in ids), "%s: search returned ids %r of %d", what, ids, n)
        ensure(len(a) <= min(k, ms), "%s: %d results, asked for %d with width %d", what, len(a), k, ms)
        ensure(all(x[1] <= y[1] for x, y in zip(a, a[1:])), "%s: results not nearest first: %r", what, a)
        for i, d in a:
            w = cosdist(els[i], q)
            ensure(d == d, "%s: distance NaN", what)
            if w is not None:
                ensure(abs(d - w) < tol, "%s: element %d at distance %r, brute force %r", what, i, d, w)
        if strong and n:
            ensure(len(a) == min(k, ms, n), "%s: %d results of %d connected elements (max_search %d, num_elements %d)", what, len(a), n, ms, k)
            if ms >= n and all(any(e) for e in els) and any(q):
                best = sorted(cosdist(e, q) for e in els)[: len(a)]
                ensure(all(abs(x - d) < tol for x, (_, d) in zip(best, a)), "%s: an exhaustive search found %r, brute force %r", what, a, best)
                c.count("exhaustive_searches")
        c.count("searches")
        res.append([[i, bits(d)] for i, d in a])
    return res


def widths(r, n):
    return r.choice([None, None, 1, 2, 7, 50, n + 1]), r.choice([None, None, 0, 1, 3, 10, 60, n + 3])


def ambiguous(q):
    """whether rounding in single precision may quantize a component to the neighboring value"""
    m = max((abs(x) for x in q), default=0)
    return m > 0 and any(abs(y - round(y)) < 2e-3 for y in (abs(x) / m * 127.0 for x in q) if 0 < y < 126.999)


def quantized(q):
    m = max((abs(x) for x in q), default=0)
    return [int(x / m * 127.0) for x in q] if m else q


def compare_ref(c, ty, a, lens, nb, els, res, what):
    ensure(a["lens"] == lens and a["nb"] == nb, "%s: the library reads other layers or neighbors than Python saw", what)
    ensure(a["els"] == [[bits(x) for x in e] if ty != "angular_int" else e for e in els], "%s: the library reads other elements", what)
    ensure(a["res"] == res, "%s: the library's searches return %r, Python's %r", what, a["res"], res)
    c.count("files_read_by_the_library")


def rd(p):
    return open(p, "rb").read()


# ------------------------------------------------------------------ dense vectors
def dense(c):
    r, g = c.rng, c.w.granne
    ty = r.choice(["angular", "angular_int"])
    dim = r.choice([1, 2, 3, 8, 16, 25])
    n = r.choice([0, 1, 2, 5, 30, 90, 150, 260, 260]) + r.randrange(4)
    fl, vs, qs = vectors(r, n, dim)
    if dim == 1:
        vs = [v if v != [0.0] else [1.0] for v in vs]
    o = random_options(c, n)
    c.note("%s n=%d dim=%d %s %r" % (ty, n, dim, fl, o))
    b = make_builder(c, ty, o)
    ensure(len(b) == 0 and b.num_elements() == 0 and b.num_layers() == 0, "a new builder is not empty")
    steps = sorted(r.randrange(n + 1) for _ in range(r.choice([0, 0, 1, 2]))) + [None]
    done, real, todo = 0, [], False
    # appended as needed by the steps
    script = []
    for s in steps:
        upto = n if s is None else r.randint(s, n)
        script.append((upto, s))
    outs = []
    for upto, s in script:
        while done < upto:
            x = given(r, vs[done])
            call("append", b.append, x) if r.random() < 0.8 else call("append", b.append, element=x)
            done += 1
        if r.random() < 0.15 and done:
            bad = r.choice(["word", None, 3, [1.0, "x"], {}, object()])
            fails("append(%r)" % (bad,), b.append, bad)
            fails("append of a vector of another dimension", b.append, [1.0] * (dim + 1))
            c.count("refused_appends")
        ensure(call("num_elements", b.num_elements) == done, "num_elements %d after %d appends", b.num_elements(), done)
        before = len(b)
        do_build(c, b, [s], o, max(before, done if s is None else s) - before > 2 and before == 0)
        now = done if s is None else max(before, s)
        ensure(len(b) == now, "len %d after build(%r) with %d elements", len(b), s, done)
    lens, nb = check_graph(c, b, n, "builder")
    maxn = o.get("num_neighbors", 30)
    ensure(all(len(v) <= maxn for row in nb for v in row), "more than num_neighbors=%d neighbors: %d", maxn, max([len(v) for row in nb for v in row] or [0]))
    pi, pe = c.path("index"), c.path("elements")
    call("save_index", b.save_index, pi) if r.random() < 0.7 else call("save_index", b.save_index, path=pi)
    call("save_elements", b.save_elements, pe) if r.random() < 0.7 else call("save_elements", b.save_elements, path=pe)
    # a single-threaded build must be the library's with exactly these settings
    if c.single:
        pr = c.path("ref")
        # the library builds from all elements at once, so that only fully announced schedules compare
        if len(steps) == 1 or "expected_num_elements" in o:
            c.ref(op="build", type=ty, elements=pe, out=pr, steps=[x if x is not None else n for x in [s for _, s in script]], **ref_config(o))
            ensure(rd(pr) == rd(pi), "the index built from Python differs from the library's with the same settings %r", o)
            c.count("identical_builds")
    # load
    how = r.randrange(3)
    t = typed(r, ty)
    if how == 0:
        ix = call("Granne", g.Granne, pi, t, pe)
    elif how == 1:
        ix = call("Granne", g.Granne, index_path=pi, element_type=t, elements_path=pe)
    else:
        ix = call("Granne", g.Granne, pi, t, elements_path=pe, embeddings_path=None, words_path=None)
    lens2, nb2 = check_graph(c, ix, n, "loaded index")
    ensure(lens2 == lens and nb2 == nb, "loaded index has other layers or neighbors than the builder saved")
    els = [call("get_element", ix.get_element, i) if r.random() < 0.7 else call("get_element", ix.get_element, idx=i) for i in range(n)]
    for i in range(n):
        stored(ty, els[i], vs[i], "element %d" % i)
        if r.random() < 0.1:
            ensure(call("get_internal_element", ix.get_internal_element, i) == els[i], "get_internal_element(%d) differs from get_element", i)
    queries, tols = [], []
    for q in qs + ([vs[r.randrange(n)]] if n else []):
        ms, k = widths(r, n)
        queries.append((given(r, q), quantized(q) if ty == "angular_int" else q, ms, k))
        tols.append(2e-5 if ty == "angular" else 5e-2 if ambiguous(q) else 1e-4)
    if n:
        res = check_searches(c, ix, nb, els, queries, "loaded index", tols)
        a = c.ref(op="load", type=ty, index=pi, elements=pe, queries=[dict(v=[bits(float(x)) for x in q[0]], ms=q[2] or 200, k=10 if q[3] is None else q[3]) for q in queries])
        compare_ref(c, ty, a, lens, nb, els, res, "dense")
        # quality: the default search on a default build finds nearly everything
        if n >= 90 and fl in ("uniform", "clusters") and o.get("max_search", 200) >= 30 and o.get("num_neighbors", 30) >= 20 and dim >= 8 and connected(nb):
            hits = 0
            for q in qs:
                qq = quantized(q) if ty == "angular_int" else q
                best = sorted(range(n), key=lambda i: cosdist(els[i], qq) if any(els[i]) else 9)[:10]
                hits += len(set(best) & {i for i, _ in ix.search(q)})
            c.min("recall", hits / (10.0 * len(qs)))
            ensure(hits >= 0.8 * 10 * len(qs), "default searches found %d of %d true neighbors", hits, 10 * len(qs))
    else:
        for q, _, ms, k in queries:
            ensure(do_search(c, ix, q, ms, k) == [], "results from an index of no elements")
    # saved again
    p2, e2 = c.path("index"), c.path("elements")
    call("save_index", ix.save_index, p2)
    call("save_elements", ix.save_elements, e2)
    ensure(rd(p2) == rd(pi) and rd(e2) == rd(pe), "saving a loaded index changed the files")
    for bad in (n, n + 7, 2 ** 40):
        fails("get_element(%d)" % bad, ix.get_element, bad)
    if n:
        fails("get_neighbors(%d)" % n, ix.get_neighbors, n)
        fails("search for a word", ix.search, "word")
        ensure(len(ix) == n and ix.get_element(n - 1) == els[n - 1], "the index changed after refused requests")
    if r.random() < 0.6:
        extend(c, ty, n, dim, vs, pi, pe, o, nb, els)
    if n > 5:
        c.nontrivial(ty, rd(pi))


def extend(c, ty, n, dim, vs, pi, pe, o, nb, els):
    r, g = c.rng, c.w.granne
    m = r.choice([0, 1, 10, 60])
    _, more, _ = vectors(r, m, dim)
    kind = r.randrange(3)
    o = {k: v for k, v in o.items() if k != "expected_num_elements"}
    if kind == 0:  # elements only: an index built anew
        b = make_builder(c, ty, dict(o, elements_path=pe))
        ensure(len(b) == 0 and b.num_elements() == n, "builder with elements_path: len %d, num_elements %d", len(b), b.num_elements())
    else:
        b = make_builder(c, ty, dict(o, elements_path=pe, index_path=pi))
        ensure(len(b) == n and b.num_elements() == n, "builder with index_path: len %d, num_elements %d of %d", len(b), b.num_elements(), n)
        _, x = check_graph(c, b, n, "builder with index_path")
        ensure(x == nb, "builder with index_path shows other neighbors than the index")
    for v in more:
        call("append", b.append, given(r, v))
    do_build(c, b, [None], o, False)
    lens, x = check_graph(c, b, n + m, "extended builder")
    p2, e2 = c.path("index"), c.path("elements")
    call("save_index", b.save_index, p2)
    call("save_elements", b.save_elements, e2)
    ix = call("Granne", g.Granne, p2, ty, e2)
    for i in range(n + m):
        e = call("get_element", ix.get_element, i)
        if i < n:
            ensure(e == els[i], "extending changed element %d", i)
        else:
            stored(ty, e, more[i - n], "appended element %d" % i)
    if c.single:
        pr = c.path("ref")
        q = dict(op="build", type=ty, elements=e2, out=pr, steps=[n + m], **ref_config(o))
        if kind:
            q["index"] = pi
        c.ref(**q)
        ensure(rd(pr) == rd(p2), "the index extended from Python differs from the library's with the same settings %r", o)
        c.count("identical_builds")
    c.count("extended")


# ------------------------------------------------------------------ embeddings and words
ALPHA = ["a", "b", "c", "x", "y", "A", "X", "É", "7", "0", "-", "_", ".", "\"", "\\", "/", "é", "ß", "λ", "Ж", "中", "文", "🦀", "😀", "\u0301", "\u200d", "'", ":", "\x01", "\x7f", "\u2028x"]


def word(r):
    # no whitespace inside: such words can be looked up
    return "".join(r.choice(ALPHA) for _ in range(r.choice([1, 1, 2, 3, 5, 9]))).replace("\u2028", "L")


def variant(r, w):
    """another word that a careless comparison takes for the same"""
    return r.choice([w.upper(), w.lower(), w.title(), w.swapcase(), unicodedata.normalize("NFD", w), unicodedata.normalize("NFC", w), w + w[-1], w[:-1] or w, w.strip(".-_'") or w])


def odd_word(r):
    return r.choice(["", " ", "two words", "tab\there", "line\nbreak", "\r", "nb\u00a0sp", "\u2028", "trailing "])


def fsum(rows, ids, dim):
    v = [0.0] * dim
    for i in ids:
        v = [a + b for a, b in zip(v, rows[i])]
    return v


def close(a, b, scale, what):
    ensure(len(a) == len(b) and all(abs(x - y) <= 1e-5 * scale for x, y in zip(a, b)), "%s is %r, expected %r", what, a, b)


def table(c, odd=True):
    """an Embeddings object and its model: words, rows"""
    r, g = c.rng, c.w.granne
    dim = r.choice([1, 2, 5, 12])
    e = call("Embeddings()", g.Embeddings)
    ensure(len(e) == 0, "new Embeddings are not empty")
    words, rows, ids = [], [], {}
    k = r.choice([0, 1, 3, 20, 60])
    scale = 1.0 if r.random() < 0.8 else 10.0 ** r.uniform(-9, 9)
    for _ in range(k):
        w = odd_word(r) if odd and r.random() < 0.1 else word(r)
        if words and r.random() < 0.1:
            w0 = r.choice(words)
            w = variant(r, w0) if w0.split() == [w0] else w
        v = [f32(x * scale) for x in vector(r, dim, r.choice(["uniform", "ints"]), None)]
        if r.random() < 0.05:
            v = [0.0] * dim
        a = call("append", e.append, given(r, v), w) if r.random() < 0.7 else call("append", e.append, embedding=given(r, v), word=w)
        ensure(a is (w not in ids), "append of the word %r returned %r, %s", w, a, "already there" if w in ids else "a new word")
        if w not in ids:
            ids[w] = len(words)
            words.append(w)
            rows.append(v)
        if r.random() < 0.1 and words:
            # refused: an existing word, another dimension, not a vector
            w2 = r.choice(words)
            ensure(call("append", e.append, [9.0] * dim, w2) is False, "appending the existing word %r was not refused", w2)
            nw = word(r) + "new"
            if nw not in ids:
                fails("append of dimension %d to %d" % (dim + 1, dim), e.append, [1.0] * (dim + 1), nw)
                fails("append of no vector", e.append, r.choice(["abc", None, 5]), nw)
            fails("append of no word", e.append, [1.0] * dim, r.choice([None, 5, b"x"]))
            c.count("refused_appends")
        ensure(len(e) == len(words), "len %d after %d different words", len(e), len(words))
    return e, words, rows, ids, dim


def sentence(r, words, n=None):
    """text and the words in it that are known"""
    usable = [w for w in words if w and w.split() == [w]]
    ws = []
    for _ in range(r.choice([0, 1, 2, 3, 6]) if n is None else n):
        ws.append(r.choice(usable) if usable and r.random() < 0.85 else "unknown" + word(r).replace(":", ";"))
    sep = lambda: r.choice([" ", " ", " ", "  ", "\t", "\n", "\u00a0", " \u2003"])
    s = "".join((sep() if i else "") + w for i, w in enumerate(ws))
    if r.random() < 0.15:
        s = " " + s + "  "
    kn = set(words)
    return s, [w for w in ws if w in kn]


def check_table(c, e, words, rows, ids, dim, what):
    r = c.rng
    ensure(len(e) == len(words), "%s: %d embeddings of %d", what, len(e), len(words))
    for i in range(len(words)):
        ensure(call("get_embedding", e.get_embedding, i) == rows[i], "%s: embedding %d is %r, appended %r", what, i, e.get_embedding(i), rows[i])
        w = words[i]
        if w and w.split() == [w]:
            ensure(call("get_embedding", e.get_embedding, w) == rows[i], "%s: embedding of %r (id %d) is %r, appended %r", what, w, i, e.get_embedding(w), rows[i])
    for _ in range(6 if words else 0):
        s, ws = sentence(r, words)
        want = fsum(rows, [ids[w] for w in ws], dim)
        sc = 1.0 + max([abs(x) for v in rows for x in v] or [0]) * max(1, len(ws))
        close(call("get_embedding", e.get_embedding, s), want, sc, "%s: embedding of %r" % (what, s))
        l = [r.randrange(len(words)) for _ in range(r.randrange(5))]
        close(call("get_embedding", e.get_embedding, r.choice([list, tuple])(l)), fsum(rows, l, dim), 1.0 + max([abs(x) for v in rows for x in v] or [0]) * max(1, len(l)), "%s: embedding of ids %r" % (what, l))
        # distances
        others = []
        for _ in range(r.randrange(1, 4)):
            k = r.randrange(3)
            if k == 0:
                i = r.randrange(len(words))
                others.append((i, rows[i]))
            elif k == 1:
                l = [r.randrange(len(words)) for _ in range(r.randrange(1, 4))]
                others.append((l, fsum(rows, l, dim)))
            else:
                s2, w2 = sentence(r, words)
                others.append((s2, fsum(rows, [ids[w] for w in w2], dim)))
        ds = call("dists", e.dists, s, [x for x, _ in others]) if r.random() < 0.7 else call("dists", e.dists, left_input=s, right_inputs=[x for x, _ in others])
        ensure(len(ds) == len(others), "%s: %d distances to %d inputs", what, len(ds), len(others))
        for (x, v), d in zip(others, ds):
            d1 = call("dist", e.dist, s, x)
            ensure(d == d1, "%s: dists(%r, [%r]) is %r, dist %r", what, s, x, d, d1)
            w = cosdist(want, v)
            m = max([abs(y) for y in v] + [0])
            if w is not None and m > 1e-3 * sc and max(abs(y) for y in want) > 1e-3 * sc:
                ensure(abs(w - d) < 3e-4, "%s: dist(%r, %r) is %r, brute force %r", what, s, x, d, w)
            ensure(call("dist", e.dist, left_input=x, right_input=s) == d, "%s: dist(%r, %r) is not symmetric", what, s, x)
            c.count("word_distances")
    fails("get_embedding(%d) of %d" % (len(words), len(words)), e.get_embedding, len(words))
    fails("get_embedding(None)", e.get_embedding, None)


def word_file(p):
    return [json.loads(l) for l in open(p, "rb").read().decode().split("\n")[:-1]]


def embeddings(c):
    r, g = c.rng, c.w.granne
    e, words, rows, ids, dim = table(c)
    c.note("words=%d dim=%d" % (len(words), dim))
    check_table(c, e, words, rows, ids, dim, "fresh")
    for rnd in range(2):
        pe, pw = c.path("embeddings"), c.path("words")
        k = r.randrange(3)
        if k == 0:
            call("save", e.save, pe, pw)
        elif k == 1:
            call("save", e.save, embeddings_path=pe, words_path=pw)
        else:
            call("save_embeddings", e.save_embeddings, pe)
            call("save_words", e.save_words, path=pw)
        ensure(word_file(pw) == words, "saved words are %r, appended %r", word_file(pw), words)
        a = c.ref(op="table", type="embeddings", embeddings=pe)
        ensure(a["rows"] == [[bits(x) for x in v] for v in rows], "the library reads other embeddings than were appended")
        if rnd:
            ensure((rd(pe), rd(pw)) == saved, "saving loaded embeddings changed the files")
        saved = (rd(pe), rd(pw))
        e = call("Embeddings", g.Embeddings, pe, pw) if r.random() < 0.5 else call("Embeddings", g.Embeddings, embeddings_path=pe, words_path=pw)
        check_table(c, e, words, rows, ids, dim, "loaded")
        c.count("tables_saved_and_loaded")
    # go on appending to what was loaded
    for _ in range(4):
        w, v = word(r), vector(r, dim, "uniform", None)
        ensure(call("append", e.append, v, w) is (w not in ids), "append to loaded embeddings of the word %r", w)
        if w not in ids:
            ids[w] = len(words)
            words.append(w)
            rows.append(v)
    check_table(c, e, words, rows, ids, dim, "extended")
    fails("Embeddings without words", g.Embeddings, pe)
    fails("Embeddings without embeddings", g.Embeddings, words_path=pw)
    fails("Embeddings of a missing file", g.Embeddings, pe + "x", pw)
    if len(words) > 1:
        c.nontrivial(words, rows)


def sentences(c):
    r, g = c.rng, c.w.granne
    e, words, rows, ids, dim = table(c, odd=False)
    while len(words) < 2:
        e, words, rows, ids, dim = table(c, odd=False)
    pe, pw = c.path("embeddings"), c.path("words")
    call("save", e.save, pe, pw)
    n = r.choice([0, 1, 3, 20, 80, 150])
    ss = [sentence(r, words, r.choice([17, 33, 70, 150, 260]) if r.random() < 0.04 else None) for _ in range(n)]
    o = random_options(c, n)
    o["show_progress"] = r.random() < 0.3
    c.note("words=%d dim=%d sentences=%d %r" % (len(words), dim, n, o))
    b = make_builder(c, "embeddings", dict(o, embeddings_path=pe, words_path=pw))
    for s, _ in ss:
        call("append", b.append, s)
    if r.random() < 0.3:
        fails("append of no text", b.append, r.choice([None, 5, [1.0] * dim]))
    ensure(b.num_elements() == n and len(b) == 0, "%d elements after %d sentences", b.num_elements(), n)
    do_build(c, b, [None], o, n > 2)
    lens, nb = check_graph(c, b, n, "builder")
    pi, ps = c.path("index"), c.path("sentences")
    call("save_index", b.save_index, pi)
    call("save_elements", b.save_elements, ps)
    if c.single:
        pr = c.path("ref")
        c.ref(op="build", type="embeddings", elements=ps, embeddings=pe, out=pr, steps=[n], **ref_config(o))
        ensure(rd(pr) == rd(pi), "the index built from Python differs from the library's with the same settings %r", o)
        c.count("identical_builds")
    load = lambda i, s: call("Granne", g.Granne, i, typed(r, "embeddings"), s, pe, pw) if r.random() < 0.5 else call("Granne", g.Granne, i, "embeddings", s, words_path=pw, embeddings_path=pe)
    ix = load(pi, ps)
    l2, n2 = check_graph(c, ix, n, "loaded index")
    ensure((l2, n2) == (lens, nb), "loaded index has other layers or neighbors than the builder saved")
    els = check_sentences(c, ix, ss, rows, ids, dim, "loaded")
    qs = []
    for _ in range(6):
        s, ws = sentence(r, words)
        v = fsum(rows, [ids[w] for w in ws], dim)
        arg = s if r.random() < 0.6 else call("get_embedding", e.get_embedding, s)
        v32 = call("get_embedding", e.get_embedding, s)
        if r.random() < 0.2:
            arg = given(r, v32)
        ms, k = widths(r, n)
        sc = max([abs(x) for x in v] + [0])
        qs.append((arg, v32 if sc > 1e-3 else [0.0] * dim, ms, k))
    res = check_searches(c, ix, nb, [x if ok else [0.0] * dim for x, ok in els], qs, "sentences", 3e-4)
    if n:
        a = c.ref(op="load", type="embeddings", index=pi, elements=ps, embeddings=pe,
                  queries=[dict(v=[bits(x) for x in (call("get_embedding", e.get_embedding, q[0]) if isinstance(q[0], str) else q[0])], ms=q[2] or 200, k=10 if q[3] is None else q[3]) for q in qs])
        compare_ref(c, "embeddings", a, lens, nb, [x for x, _ in els], res, "sentences")
        ensure(a["terms"] == [[ids[w] for w in ws] for _, ws in ss], "the library reads other terms than were appended")
    p2, s2 = c.path("index"), c.path("sentences")
    call("save_index", ix.save_index, p2)
    call("save_elements", ix.save_elements, s2)
    ensure(rd(p2) == rd(pi) and rd(s2) == rd(ps), "saving a loaded index changed the files")
    # extended by more sentences
    if r.random() < 0.5:
        more = [sentence(r, words) for _ in range(r.choice([1, 20]))]
        b = make_builder(c, "embeddings", dict({k: v for k, v in o.items() if k != "expected_num_elements"}, embeddings_path=pe, words_path=pw, elements_path=ps, index_path=pi))
        ensure(len(b) == n and b.num_elements() == n, "builder with index_path: len %d, num_elements %d of %d", len(b), b.num_elements(), n)
        for s, _ in more:
            call("append", b.append, s)
        do_build(c, b, [None], o, False)
        p3, s3 = c.path("index"), c.path("sentences")
        call("save_index", b.save_index, p3)
        call("save_elements", b.save_elements, s3)
        ix3 = load(p3, s3)
        check_graph(c, ix3, n + len(more), "extended index")
        check_sentences(c, ix3, ss + more, rows, ids, dim, "extended")
        if c.single:
            pr = c.path("ref")
            c.ref(op="build", type="embeddings", elements=s3, embeddings=pe, out=pr, steps=[n + len(more)], index=pi, **ref_config({k: v for k, v in o.items() if k != "expected_num_elements"}))
            ensure(rd(pr) == rd(p3), "the index of sentences extended from Python differs from the library's with the same settings %r", o)
            c.count("identical_builds")
        c.count("extended")
    fails("GranneBuilder without words", g.GranneBuilder, "embeddings", embeddings_path=pe)
    fails("GranneBuilder without embeddings", g.GranneBuilder, "embeddings", words_path=pw)
    fails("Granne without words", g.Granne, pi, "embeddings", ps, pe)
    if n > 2:
        c.nontrivial(rd(pi), words)


def check_sentences(c, ix, ss, rows, ids, dim, what, order=None):
    """returns [(element as stored, direction well defined)]"""
    els = []
    ensure(len(ix) == len(ss), "%s: %d elements of %d", what, len(ix), len(ss))
    for i in range(len(ss)):
        _, ws = ss[order[i] if order else i]
        t = call("get_internal_element", ix.get_internal_element, i)
        ensure(t == " ".join(ws), "%s: sentence %d reads %r, appended %r", what, i, t, " ".join(ws))
        got = call("get_element", ix.get_element, i)
        v = fsum(rows, [ids[w] for w in ws], dim)
        n = math.sqrt(math.fsum(x * x for x in v))
        big = max([abs(x) for w in ws for x in rows[ids[w]]] or [0]) * max(1, len(ws))
        ok = n > 1e-3 * big and n > 0
        if ok:
            ensure(len(got) == dim and all(abs(x - y / n) < 1e-4 + 2e-6 * big / n for x, y in zip(got, v)), "%s: element %d is %r, expected the direction of %r", what, i, got, v)
        elif not ws:
            ensure(got == [0.0] * dim, "%s: element %d has no words but is %r", what, i, got)
        els.append((got, ok and n > 1e-2 * big))
    c.count("sentences_read_back", len(ss))
    return els


# ------------------------------------------------------------------ reordering
def check_renamed(c, order, n, before, after, lb, la, what):
    ensure(sorted(order) == list(range(n)), "%s: reorder returned %r, which is no permutation", what, order)
    ensure(lb == la, "%s: layer sizes %r became %r", what, lb, la)
    new = [0] * n
    for i, j in enumerate(order):
        new[j] = i
    for l in range(len(lb)):
        ensure(sorted(order[: lb[l]]) == list(range(lb[l])), "%s: reorder moved elements between layers", what)
        for i in range(lb[l]):
            ensure(after[l][i] == sorted(new[j] for j in before[l][order[i]]), "%s: neighbors of %d in layer %d are not those of %d renamed", what, i, l, order[i])


def reorder(c):
    r, g = c.rng, c.w.granne
    ty = r.choice(["angular", "angular_int", "embeddings", "embeddings"])
    n = r.choice([0, 1, 2, 40, 120, 200])
    o = random_options(c, n)
    o.pop("expected_num_elements", None)
    o["show_progress"] = False
    if ty == "embeddings":
        e, words, rows, ids, dim = table(c, odd=False)
        while len(words) < 2:
            e, words, rows, ids, dim = table(c, odd=False)
        pe, pw = c.path("embeddings"), c.path("words")
        call("save", e.save, pe, pw)
        ss = [sentence(r, words) for _ in range(n)]
        b = make_builder(c, ty, dict(o, embeddings_path=pe, words_path=pw))
        items = [s for s, _ in ss]
        more = (pe, pw)
    else:
        dim = r.choice([2, 8])
        _, vs, qs = vectors(r, n, dim)
        b = make_builder(c, ty, o)
        items, more = vs, ()
    c.note("%s n=%d %r" % (ty, n, o))
    for x in items:
        call("append", b.append, x)
    call("build", b.build)
    pi, ps = c.path("index"), c.path("elements")
    call("save_index", b.save_index, pi)
    call("save_elements", b.save_elements, ps)
    ix = call("Granne", g.Granne, pi, ty, ps, *more)
    lb, nb = check_graph(c, ix, n, "before reordering")
    els = [ix.get_element(i) for i in range(n)]
    total = list(range(n))
    for rnd in range(r.choice([1, 1, 2])):
        k = r.randrange(4)
        order, out = captured(c, lambda: call("reorder", ix.reorder) if k == 0 else call("reorder", ix.reorder, True) if k == 1 else call("reorder", ix.reorder, show_progress=False) if k == 2 else call("reorder", ix.reorder, False))
        ensure(bool(out) or n == 0 if k < 2 else not out, "reorder with progress %s printed %r", k < 2, out[:100])
        la, na = check_graph(c, ix, n, "after reordering")
        check_renamed(c, order, n, nb, na, lb, la, ty)
        if rnd == 0 and c.single and ty == "embeddings" and n:
            want = c.ref(op="reorder", type=ty, index=pi, elements=ps, embeddings=pe)["order"]
            ensure(order == want, "reorder returned %r, the library's keys give %r", order, want)
            c.count("identical_reorderings")
        after = [ix.get_element(i) for i in range(n)]
        for i in range(n):
            if ty == "embeddings":
                ensure(all(abs(x - y) < 1e-5 for x, y in zip(after[i], els[order[i]])), "element %d is %r after reordering, element %d was %r", i, after[i], order[i], els[order[i]])
            else:
                ensure(after[i] == els[order[i]], "element %d is %r after reordering, element %d was %r", i, after[i], order[i], els[order[i]])
        total = [total[j] for j in order]
        nb, els = na, after
        if ty == "embeddings":
            check_sentences(c, ix, ss, rows, ids, dim, "reordered", total)
    p2, s2 = c.path("index"), c.path("elements")
    call("save_index", ix.save_index, p2)
    call("save_elements", ix.save_elements, s2)
    iy = call("Granne", g.Granne, p2, ty, s2, *more)
    ensure(check_graph(c, iy, n, "reordered and loaded") == (lb, nb), "the reordered index changed by saving and loading")
    ensure([iy.get_element(i) for i in range(n)] == els, "the reordered elements changed by saving and loading")
    for q in ([x for x in items[:3]] if n else []):
        ensure(ix.search(q) == iy.search(q), "the reordered index answers differently once saved and loaded")
    c.count("reordered")
    if n > 2:
        c.nontrivial(total, nb)


# ------------------------------------------------------------------ text tools
def text(c):
    r, g = c.rng, c.w.granne
    e, words, rows, ids, dim = table(c, odd=False)
    while len(words) < 2:
        e, words, rows, ids, dim = table(c, odd=False)
    pe, pw = c.path("embeddings"), c.path("words")
    call("save", e.save, pe, pw)
    nparts = r.choice([1, 1, 2, 4])
    parts, total = {}, []
    used = words if r.random() < 0.5 else [w for w in words if ":" not in w]
    used = [w for w in used if ":" not in w]
    for k in range(nparts):
        lines = [sentence(r, used) for _ in range(r.choice([0, 1, 5, 40]))]
        parts["part-%02d%s" % (r.randrange(50) * 2 + (k % 2), r.choice(["", ".gz"]) if nparts > 1 else "")] = lines
    body = lambda ls: "".join(json.dumps((r.choice(["", "17:", "a b:c:"]) + s), ensure_ascii=r.random() < 0.5) + "\n" for s, _ in ls).encode()
    if nparts == 1:
        name = c.path("text") + r.choice(["", ".gz", ".txt"])
        (name_, lines), = parts.items()
        data = body(lines)
        (gzip.open if name.endswith(".gz") else open)(name, "wb").write(data) if not name.endswith(".gz") else write_gz(name, data)
        total = lines
    else:
        name = c.path("dir")
        os.mkdir(name)
        for f in sorted(parts):
            total += parts[f]
        fs = list(parts)
        r.shuffle(fs)
        for f in fs:
            d = body(parts[f])
            write_gz(os.path.join(name, f), d) if f.endswith(".gz") else open(os.path.join(name, f), "wb").write(d)
    c.note("parts=%r words=%d" % (sorted(parts), len(words)))
    out = c.path("elements")
    k = r.randrange(4)
    f = g.parse_elements_and_save_to_disk
    _, shown = captured(c, lambda: call("parse", f, name, pw, out) if k == 0 else call("parse", f, elements_path=name, words_path=pw, output_path=out, show_progress=True) if k == 1
                        else call("parse", f, name, pw, out, False) if k == 2 else call("parse", f, name, pw, output_path=out, show_progress=False))
    ensure(bool(shown) == (k < 2), "parsing with progress %s printed %r", k < 2, shown[:100])
    # read back by indexing
    b = call("GranneBuilder", g.GranneBuilder, "embeddings", elements_path=out, embeddings_path=pe, words_path=pw, show_progress=False)
    n = len(total)
    ensure(b.num_elements() == n, "%d elements from %d lines", b.num_elements(), n)
    call("build", b.build)
    pi = c.path("index")
    call("save_index", b.save_index, pi)
    ix = call("Granne", g.Granne, pi, "embeddings", out, pe, pw)
    check_sentences(c, ix, total, rows, ids, dim, "parsed")
    # vectors computed ahead of time
    ov = c.path("vectors")
    f = g.compute_embeddings_and_save_to_disk
    k = r.randrange(4)
    _, shown = captured(c, lambda: call("compute", f, out, pe, ov) if k == 0 else call("compute", f, elements_path=out, embeddings_path=pe, output_path=ov, show_progress=True) if k == 1
                        else call("compute", f, out, pe, ov, False) if k == 2 else call("compute", f, out, pe, output_path=ov, show_progress=False))
    ensure(not shown if k >= 2 else True, "computing without progress printed %r", shown[:100])
    if n:
        got = c.ref(op="vectors", type="angular_int", elements=ov)["rows"]
        ensure(len(got) == n, "%d vectors from %d elements", len(got), n)
        for i, (_, ws) in enumerate(total):
            v = fsum(rows, [ids[w] for w in ws], dim)
            m = max(abs(x) for x in v)
            if m > 1e-3:
                ensure(all(abs(x / m * 127.0 - q) < 1.01 for x, q in zip(v, got[i])), "vector %d is %r, the sum is %r", i, got[i], v)
        b = call("GranneBuilder", g.GranneBuilder, "angular_int", elements_path=ov, show_progress=False)
        ensure(b.num_elements() == n, "a builder over the computed vectors has %d elements of %d", b.num_elements(), n)
    c.count("lines_parsed", n)
    if n > 1:
        c.nontrivial(total)


def write_gz(p, data):
    with gzip.open(p, "wb") as f:
        f.write(data)


# ------------------------------------------------------------------ distances and the rest
def distance(c):
    r, g = c.rng, c.w.granne
    ty = r.choice(["angular", "angular_int"])
    dim = r.choice([1, 2, 3, 7, 16, 33, 100])
    _, vs, qs = vectors(r, 8, dim)
    c.note("%s dim=%d" % (ty, dim))
    pairs = [(a, b) for a in vs for b in qs[:3]] + [(v, v) for v in vs[:3]]
    ref = c.ref(op="dist", type=ty, pairs=[[[bits(x) for x in a], [bits(x) for x in b]] for a, b in pairs])["bits"]
    for (a, b), w in zip(pairs, ref):
        d = call("compute_distance", g.compute_distance, ty, given(r, a), given(r, b)) if r.random() < 0.7 else call("compute_distance", g.compute_distance, element_type=ty, a=a, b=b)
        ensure(bits(d) == w, "compute_distance(%r, %r, %r) is %r, the library's is %r", ty, a, b, d, unbits(w))
        e = cosdist(quantized(a), quantized(b)) if ty == "angular_int" else cosdist(a, b)
        if e is not None:
            ensure(abs(d - e) < (2e-5 if ty == "angular" else 2e-2 if dim > 1 else 1e-5), "compute_distance(%r, %r, %r) is %r, brute force %r", ty, a, b, d, e)
        ensure(call("compute_distance", g.compute_distance, ty, b, a) == d, "compute_distance is not symmetric")
        c.count("distances")
    fails("compute_distance of an unknown type", g.compute_distance, "euclidean", [1.0], [1.0])
    c.nontrivial(ty, ref)


DOCS = {
    "Granne": {"search": ["element", "max_search", "num_elements"], "get_element": ["idx"], "get_internal_element": ["idx"], "get_neighbors": ["idx", "layer"], "num_layers": [],
               "layer_len": ["layer"], "reorder": ["show_progress"], "save_index": ["path"], "save_elements": ["path"]},
    "GranneBuilder": {"append": ["element"], "build": ["num_elements"], "save_index": ["path"], "save_elements": ["path"], "get_neighbors": ["idx", "layer"],
                      "num_elements": [], "num_layers": [], "layer_len": ["layer"]},
    "Embeddings": {"get_embedding": [], "dist": [], "dists": [], "append": ["embedding", "word"], "save": [], "save_embeddings": [], "save_words": []},
}


def surface(c):
    """everything documented is there, and misuse is refused without harm"""
    import pydoc
    g, r = c.w.granne, c.rng
    c.note("documentation")
    t = pydoc.render_doc(g)
    for cl, ms in DOCS.items():
        k = getattr(g, cl, None)
        ensure(k is not None and cl in t, "%s is not in the module or its help", cl)
        for m, ps in ms.items():
            d = getattr(getattr(k, m, None), "__doc__", None)
            ensure(d and d.strip(), "%s.%s is missing or has no documentation", cl, m)
            for p in ps:
                ensure(p in d, "the documentation of %s.%s does not name %s", cl, m, p)
    p = c.path("missing")
    fails("GranneBuilder of an unknown type", g.GranneBuilder, "euclidean")
    fails("GranneBuilder of no type", g.GranneBuilder)
    fails("Granne of no files", g.Granne, p, "angular", p)
    fails("Granne of an unknown type", g.Granne, "/dev/null", "euclidean", "/dev/null")
    fails("GranneBuilder with a missing file", g.GranneBuilder, "angular", elements_path=p)
    fails("GranneBuilder with an unknown option", g.GranneBuilder, "angular", neighbors=3)
    b = call("GranneBuilder", g.GranneBuilder, "angular", show_progress=False)
    fails("layer_len of no layer", b.layer_len, 0)
    fails("get_neighbors of nothing", b.get_neighbors, 0)
    fails("build(3) of nothing", b.build, 3)
    fails("saving to a directory that is missing", b.save_index, os.path.join(p, "x"))
    for v in ([1, 0], (0, 1), array.array("f", [1, 1])):
        call("append", b.append, v)
    call("build", b.build)
    ensure(len(b) == 3 and b.num_elements() == 3, "the builder was not usable after refused requests")
    pi, pe = c.path("i"), c.path("e")
    call("save_index", b.save_index, pi)
    call("save_elements", b.save_elements, pe)
    ix = call("Granne", g.Granne, pi, "angular", pe)
    a = call("search", ix.search, [2, 0.1])
    ensure([i for i, _ in a] == [0, 2, 1], "search returned %r", a)
    fails("search with a negative width", ix.search, [1, 0], max_search=-1)
    fails("get_element(-1)", ix.get_element, -1)
    fails("layer_len(9)", ix.layer_len, 9)
    ensure(call("search", ix.search, [2, 0.1]) == a, "search changed after refused requests")
    # the files are the documented ones: another type of element does not silently work on an index of other size
    c.nontrivial("surface", a)
    c.count("surface")


def documented_defaults(c):
    """leaving an option out is the same as giving the value the documentation calls its default"""
    import ast, re
    g, r = c.w.granne, c.rng
    c.note("documented defaults")
    if not c.single:
        return
    doc = "\n\n".join(d for d in (getattr(getattr(g.GranneBuilder, k, None), "__doc__", None) for k in ("__doc__", "__init__", "__new__")) if isinstance(d, str))
    doc = (g.GranneBuilder.__doc__ or "") + "\n" + doc
    found = {}
    for m in re.finditer(r"^[ \t]*(\w+)[ \t]*:[^\n]*\n(.*?)(?=^[ \t]*\w+[ \t]*:[^\n]*$|\Z)", doc, re.M | re.S):
        d = re.search(r"\(?Default:\s*([\w.]+?)\s*[.)\n]", m.group(2) + "\n")
        if d and m.group(1) in ARGS:
            try:
                found[m.group(1)] = ast.literal_eval(d.group(1))
            except (ValueError, SyntaxError):
                pass
    c.count("documented_defaults", len(found))
    vs = [[f32(r.gauss(0, 1)) for _ in range(12)] for _ in range(900)]

    def graph(**kw):
        b = call("GranneBuilder", g.GranneBuilder, "angular", **kw)
        for v in vs:
            b.append(v)
        captured(c, b.build)
        nl = b.num_layers()
        return [[sorted(b.get_neighbors(i, l)) for i in range(b.layer_len(l))] for l in range(nl)]

    plain = graph()
    for k, v in sorted(found.items()):
        ensure(graph(**{k: v}) == plain, "the documentation gives %s: %r as default, but with it another graph is built", k, v)
        c.nontrivial("default", k, v)


def threads(c):
    """several Python threads share one index and one builder"""
    import threading
    r, g = c.rng, c.w.granne
    ty = r.choice(["angular", "angular_int"])
    n, dim = 200, 8
    _, vs, qs = vectors(r, n, dim)
    c.note("%s shared by threads" % ty)
    b = call("GranneBuilder", g.GranneBuilder, ty, show_progress=False)
    bad = []

    def guard(f):
        try:
            f()
        except Exception as e:
            bad.append("%s: %s" % (type(e).__name__, e))

    ts = [threading.Thread(target=guard, args=(lambda k=k: [b.append(v) for v in vs[k::4]],)) for k in range(4)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    ensure(not bad and b.num_elements() == n, "appending from 4 threads: %r, %d elements of %d", bad[:2], b.num_elements(), n)
    call("build", b.build)
    pi, pe = c.path("i"), c.path("e")
    call("save_index", b.save_index, pi)
    call("save_elements", b.save_elements, pe)
    ix = call("Granne", g.Granne, pi, ty, pe)
    want = [ix.search(q) for q in qs]

    def look():
        for _ in range(20):
            for q, w in zip(qs, want):
                if ix.search(q) != w:
                    bad.append("another answer: %r" % (w,))

    ts = [threading.Thread(target=guard, args=(look,)) for _ in range(4)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    ensure(not bad, "searching from 4 threads: %r", bad[:2])
    got = sorted(tuple(ix.get_element(i)) for i in range(n))
    c.count("threaded_searches", 4 * 20 * len(qs))
    c.nontrivial(got)


def large(c):
    """thousands of elements through Python"""
    r, g = c.rng, c.w.granne
    ty = r.choice(["angular", "angular_int"])
    n, dim = r.randint(4200, 7000) if c.idx % 20 != 19 else r.randint(65600, 67000), 8
    vs = [[r.gauss(0, 1) for _ in range(dim)] for _ in range(n)]
    k = r.randint(n * 3 // 5, n - 1)
    c.note("%s n=%d, first %d" % (ty, n, k))
    b = call("GranneBuilder", g.GranneBuilder, ty, num_neighbors=6, max_search=10, show_progress=False, reinsert_elements=False)
    for v in vs:
        call("append", b.append, v)
    ensure(b.num_elements() == n and len(b) == 0, "%d of %d elements before building, %d indexed", b.num_elements(), n, len(b))
    call("build", b.build, k)
    ensure(len(b) == k and b.num_elements() == n and b.layer_len(b.num_layers() - 1) == k, "build(%d) indexed %d of %d elements, the last layer has %d", k, len(b), n, b.layer_len(b.num_layers() - 1))
    call("build", b.build)
    pi, pe = c.path("i"), c.path("e")
    call("save_index", b.save_index, pi)
    call("save_elements", b.save_elements, pe)
    ix = call("Granne", g.Granne, pi, ty, pe)
    for x, what in (b, "builder"), (ix, "loaded"):
        ensure(len(x) == n and x.layer_len(x.num_layers() - 1) == n, "%s: %d elements after building %d", what, len(x), n)
    for i in range(n):
        nb = ix.get_neighbors(i)
        ensure(nb and len(set(nb)) == len(nb) <= 6 and i not in nb and 0 <= min(nb) <= max(nb) < n, "neighbors of %d of %d are %r", i, n, nb)
        ensure(sorted(b.get_neighbors(i)) == sorted(nb), "neighbors of %d of %d are %r in the builder, %r saved", i, n, b.get_neighbors(i), nb)
        if i % 7 == 0 or i > n - 50:
            stored(ty, ix.get_element(i), vs[i], "element %d of %d" % (i, n))
    ids = [r.randrange(n) for _ in range(100)] + list(range(n - 20, n))
    own = 0
    for i in ids:
        got = call("search", ix.search, ix.get_element(i), 100, 60)
        ensure(len(got) == 60 and len(set(x for x, _ in got)) == 60 and [d for _, d in got] == sorted(d for _, d in got), "search(100, 60) among %d returned %d elements", n, len(got))
        own += got[0][1] < 1e-4
    c.min("large_found_of_120", own)
    ensure(own >= 100, "only %d of 120 elements find themselves with max_search 100 among %d", own, n)
    c.count("large_elements", n)
    c.nontrivial(ty, n, k)


def twice(c):
    """a word file with a word more than once: everything that reads it means the same by it"""
    r, g = c.rng, c.w.granne
    n = r.randint(2, 40)
    names = ["w%d" % i for i in range(max(1, n * 2 // 3))]
    words = [r.choice(names) for _ in range(n)]
    e = call("Embeddings", g.Embeddings)
    for i in range(n):
        e.append([r.gauss(0, 1) for _ in range(4)], "x%d" % i)
    pe, pw, pt, pp, pa = c.path("embeddings"), c.path("words"), c.path("text"), c.path("parsed"), c.path("appended")
    call("save_embeddings", e.save_embeddings, pe)
    open(pw, "w").write("".join('"%s"\n' % w for w in words))
    ss = [" ".join(r.choice(words) for _ in range(r.randint(1, 6))) for _ in range(r.randint(1, 12))]
    open(pt, "w").write("".join('"%s"\n' % x for x in ss))
    c.note("words %r, sentences %r" % (words, ss))
    call("parse", g.parse_elements_and_save_to_disk, pt, pw, pp, False)
    b = call("GranneBuilder", g.GranneBuilder, "embeddings", embeddings_path=pe, words_path=pw, show_progress=False)
    for x in ss:
        call("append", b.append, x)
    call("save_elements", b.save_elements, pa)
    ensure(open(pp, "rb").read() == open(pa, "rb").read(), "sentences are other elements when they are parsed than when they are appended")
    o = call("Embeddings", g.Embeddings, pe, pw)
    for w in set(words):
        v = o.get_embedding(w)
        ensure(any(v == o.get_embedding(i) for i in range(n) if words[i] == w), "the embedding of %r is none of those given for it", w)
    if len(set(words)) < n:
        c.nontrivial(words, ss)


def vocabulary(c):
    """more words than 16 bits count, long sentences over them"""
    r, g = c.rng, c.w.granne
    n = r.randint(66000, 70000)
    c.note("%d words" % n)
    e = call("Embeddings", g.Embeddings)
    rows = [[f32(r.gauss(0, 1)) for _ in range(3)] for _ in range(n)]
    for i, v in enumerate(rows):
        ensure(call("append", e.append, v, "w%d" % i) is True, "append of word %d refused", i)
    pe, pw, pi, ps = c.path("embeddings"), c.path("words"), c.path("i"), c.path("s")
    call("save", e.save, pe, pw)
    o = call("Embeddings", g.Embeddings, pe, pw)
    ensure(len(e) == len(o) == n, "%d words, %d saved, appended %d", len(e), len(o), n)
    for i in [0, 255, 256, 65535, 65536, n - 1] + [r.randrange(n) for _ in range(100)]:
        for x, what in (e, "built"), (o, "loaded"):
            ensure(x.get_embedding("w%d" % i) == rows[i] == x.get_embedding(i), "%s: the embedding of word %d is %r, not %r", what, i, x.get_embedding("w%d" % i), rows[i])
    b = call("GranneBuilder", g.GranneBuilder, "embeddings", embeddings_path=pe, words_path=pw, show_progress=False, max_search=20)
    ss = [" ".join("w%d" % (n - 1 - r.randrange(9000) if r.random() < 0.5 else r.randrange(n)) for _ in range(r.choice([1, 3, 80, 300]))) for _ in range(60)]
    for x in ss:
        call("append", b.append, x)
    call("build", b.build)
    call("save_index", b.save_index, pi)
    call("save_elements", b.save_elements, ps)
    ix = call("Granne", g.Granne, pi, "embeddings", ps, pe, pw)
    ensure(len(ix) == len(ss), "%d of %d sentences", len(ix), len(ss))
    for i, x in enumerate(ss):
        ensure(ix.get_internal_element(i) == x, "sentence %d reads %r, appended %r", i, ix.get_internal_element(i)[:300], x[:300])
    c.count("vocabulary_words", n)
    c.nontrivial(n, ss)


#            name         quick thorough
GROUPS = [("dense", dense, 2000, 30000), ("embeddings", embeddings, 960, 30000), ("sentences", sentences, 960, 30000), ("reorder", reorder, 720, 24000),
          ("text", text, 720, 24000), ("distance", distance, 480, 24000), ("surface", surface, 4, 8),
          ("defaults", documented_defaults, 2, 8), ("threads", threads, 120, 3600), ("twice", twice, 80, 4000), ("large", large, 8, 240), ("vocabulary", vocabulary, 8, 80)]


# ------------------------------------------------------------------ workers
class Worker:
    pass


def work(k, a):
    w = Worker()
    w.dir = os.path.join(a["out"], "w%d" % k)
    os.makedirs(w.dir)
    w.single = k < SINGLE
    w.crumbs = os.path.join(a["out"], "crumbs-%d" % k)
    w.counters, w.minima, w.distinct = {}, {}, set()
    os.environ["RAYON_NUM_THREADS"] = "1" if w.single else "4"
    sys.path.insert(0, a["mod"])
    import granne
    w.granne = granne
    w.ref = Ref(os.path.join(a["mod"], "ref"))
    res = dict(evaluations=0, violations=[], samples={}, harness_errors=[], cut_by_budget=False)
    t0 = time.time()
    for name, f, quick, thorough in GROUPS:
        n = max(1, round((thorough if a["thorough"] else quick) * a["scale"]))
        for i in range(n):
            if a["only"] and a["only"] != "%s#%d" % (name, i) or i % WORKERS != k:
                continue
            if time.time() - t0 > a["budget"]:
                res["cut_by_budget"] = True
                break
            c = Case(w, name, i, a["seed"])
            c.note("starting")
            try:
                f(c)
            except Bad as e:
                res["violations"].append(dict(case="%s#%d" % (name, i), what="%s [%s]" % (str(e)[:3000], c.desc)))
            except Exception as e:
                import traceback
                res["harness_errors"].append("%s#%d: %s: %s [%s] %s" % (name, i, type(e).__name__, e, c.desc, traceback.format_exc()[-600:]))
                if w.ref.p.poll() is not None:
                    w.ref = Ref(os.path.join(a["mod"], "ref"))
            res["evaluations"] += 1
            if len(res["samples"].setdefault(name, [])) < 2 and k < 2:
                res["samples"][name].append("#%d %s" % (i, c.desc))
    res.update(counters=w.counters, minima=w.minima, distinct=sorted(w.distinct))
    json.dump(res, open(os.path.join(a["out"], "part-%d.json" % k), "w"))
    shutil.rmtree(w.dir, ignore_errors=True)


def main():
    v = sys.argv
    get = lambda k, d=None: v[v.index(k) + 1] if k in v else d
    a = dict(mod=get("--mod"), seed=int(get("--seed", "1")), thorough=get("--tier") == "thorough", out=get("--out"), only=get("--only"),
             budget=float(get("--budget", "1e9")), scale=float(get("--scale", "1")))
    if "--worker" in v:
        work(int(get("--worker")), a)
        return 0
    os.makedirs(a["out"], exist_ok=True)
    limit = a["budget"] + 120
    env = dict(os.environ, LD_PRELOAD=os.path.join(a["mod"], "stub.so"), RUST_BACKTRACE="0", PYTHONDONTWRITEBYTECODE="1")
    ps = []
    for k in range(WORKERS):
        if a["only"] and int(a["only"].split("#")[1]) % WORKERS != k:
            continue
        e = open(os.path.join(a["out"], "err-%d" % k), "wb")
        ps.append((k, subprocess.Popen([sys.executable] + v + ["--worker", str(k)], env=dict(env, RAYON_NUM_THREADS="1" if k < SINGLE else "4"), stdin=subprocess.DEVNULL, stdout=e, stderr=e, preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30)))))
    end = time.time() + limit
    r = dict(evaluations=0, distinct_nontrivial=0, counters={}, maxima={}, minima={}, samples={}, violations=[], harness_errors=[], cut_by_budget=False,
             rule="Random histories through the compiled Python module (three element types, positional and keyword arguments, word lists with unicode and quotes, text files and directories, plain and gzip), judged by 64-bit arithmetic and plain Python models of what was appended, and by the library itself reading every saved file; single-threaded builds compared byte for byte with the library's under the same settings. Non-trivial: more than a couple of elements, words or lines; distinct: different saved contents.")
    distinct = set()
    for k, p in ps:
        crumb = lambda: open(os.path.join(a["out"], "crumbs-%d" % k)).read() if os.path.exists(os.path.join(a["out"], "crumbs-%d" % k)) else ""
        hung = False
        try:
            p.wait(max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            ticks = lambda: sum(int(x) for x in open("/proc/%d/stat" % p.pid).read().rsplit(") ", 1)[1].split()[11:13])
            try:
                t1 = ticks()
                time.sleep(10)
                idle = ticks() - t1 < 5
            except (OSError, ValueError):
                idle = False
            p.kill()
            p.wait()
            hung = True
            cr = crumb()
            if idle:
                r["violations"].append(dict(case=cr.split(" [")[0], what="the module blocks forever while running %s" % cr))
            else:
                r["harness_errors"].append("%s: os error: no answer within %d s" % (cr, limit))
        err = open(os.path.join(a["out"], "err-%d" % k), errors="replace").read()
        if p.returncode != 0 and not hung:
            cr = crumb()
            if p.returncode < 0 and p.returncode != -signal.SIGKILL:
                r["violations"].append(dict(case=cr.split(" [")[0], what="the Python process died of signal %d while running %s\n%s" % (-p.returncode, cr, err[-1500:])))
            elif p.returncode > 0:
                if "ImportError" in err:
                    r["violations"].append(dict(case="import#0", what="the module cannot be imported: %s" % err[-600:]))
                else:
                    r["harness_errors"].append("%s: os error: worker ended with %d: %s" % (cr, p.returncode, err[-900:]))
            else:
                r["harness_errors"].append("%s: os error: worker was killed" % cr)
        try:
            q = json.load(open(os.path.join(a["out"], "part-%d.json" % k)))
        except (OSError, ValueError):
            continue
        r["evaluations"] += q["evaluations"]
        r["violations"] += q["violations"]
        r["harness_errors"] += q["harness_errors"]
        r["cut_by_budget"] |= q["cut_by_budget"]
        distinct |= set(q["distinct"])
        for c, n in q["counters"].items():
            r["counters"][c] = r["counters"].get(c, 0) + n
        for c, x in q["minima"].items():
            r["minima"][c] = min(r["minima"].get(c, x), x)
        for g, s in q["samples"].items():
            r["samples"].setdefault(g, []).extend(s)
    r["distinct_nontrivial"] = len(distinct)
    r["violations"] = r["violations"][:30]
    json.dump(r, open(os.path.join(a["out"], "result.json"), "w"), indent=1)
    return 0


if __name__ == "__main__":
    sys.exit(main())
