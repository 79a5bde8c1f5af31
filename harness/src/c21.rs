//! C21: zero vectors, duplicates and tiny data sets.
use crate::ensure;
use crate::gen::*;
use crate::graph::*;
use crate::kinds::*;
use crate::util::*;
use granne::*;
use std::collections::HashMap;
use std::sync::atomic::Ordering::*;
use std::sync::Arc;

/// where the degenerate elements are
#[derive(Clone, Copy, Debug, PartialEq)]
enum Place {
    Random,
    First,
    Last,
    Alternating,
}

#[derive(Clone, Debug)]
struct Data {
    n: usize,
    dim: usize,
    zeros: usize,
    groups: usize,
    dups: usize,
    place: Place,
}

impl Data {
    fn random(rng: &mut Rng, max: usize) -> Data {
        let n = match rng.below(8) {
            0 => rng.below(5),
            1 => rng.range(1, 60),
            2 => rng.range(60, 200),
            _ => rng.range(max / 4, max),
        };
        let share = |rng: &mut Rng| *rng.pick(&[0.0, 0.01, 0.1, 0.3, 0.6, 0.9, 1.0]);
        let zeros = (share(rng) * n as f64) as usize;
        let rest = n - zeros;
        let dups = (share(rng) * rest as f64) as usize;
        let groups = match rng.below(4) {
            0 => 1,
            1 => rng.range(1, 4),
            2 => (dups / rng.range(2, 5)).max(1),
            _ => rng.range(1, 20),
        };
        Data { n, dim: *rng.pick(&[2, 3, 5, 8, 16, 32]), zeros, groups, dups, place: *rng.pick(&[Place::Random, Place::First, Place::Last, Place::Alternating]) }
    }
    fn plain(n: usize, dim: usize) -> Data {
        Data { n, dim, zeros: 0, groups: 1, dups: 0, place: Place::Random }
    }
    fn items<K: Kind>(&self, rng: &mut Rng, empty: &K::C) -> Vec<K::I> {
        let spec = Spec::new(rng, self.dim, Flavor::Uniform);
        let zero = Spec::new(rng, self.dim, Flavor::AllZero);
        let centers: Vec<K::I> = (0..self.groups).map(|_| K::item(rng, &spec, empty)).collect();
        let mut odd: Vec<K::I> = (0..self.zeros).map(|_| K::item(rng, &zero, empty)).collect();
        odd.extend((0..self.dups).map(|_| rng.pick(&centers).clone()));
        rng.shuffle(&mut odd);
        let mut rest: Vec<K::I> = (0..self.n - odd.len()).map(|_| K::item(rng, &spec, empty)).collect();
        let mut v = Vec::new();
        match self.place {
            Place::First => {
                v.extend(odd);
                v.extend(rest);
            }
            Place::Last => {
                v.extend(rest);
                v.extend(odd);
            }
            Place::Random => {
                v.extend(odd);
                v.extend(rest);
                rng.shuffle(&mut v);
            }
            Place::Alternating => {
                while !odd.is_empty() || !rest.is_empty() {
                    v.extend(odd.pop());
                    v.extend(rest.pop());
                }
            }
        }
        v
    }
}

fn mon<K: Kind>(inner: K::C, budget: u64) -> Mon<K::C> {
    Mon { inner, noise: Arc::new(Noise { budget, ..Default::default() }) }
}

fn build<K: Kind>(items: &[K::I], empty: &K::C, cfg: &Cfg, threads: usize, steps: usize, budget: u64) -> Result<(GranneBuilder<Mon<K::C>>, u64), String> {
    let mut b = GranneBuilder::new(cfg.build(), mon::<K>(empty.clone(), budget));
    in_pool(threads, || {
        no_panic("building", || {
            for (i, it) in items.iter().enumerate() {
                b.push(it.clone());
                if steps > 1 && (i + 1) % (1 + items.len() / steps) == 0 {
                    b.build();
                }
            }
            b.build();
        })
    })?;
    let calls = b.get_elements().noise.calls.load(Relaxed);
    Ok((b, calls))
}

/// ids by content; zeros apart
fn groups<C: ElementContainer>(els: &C, key: impl Fn(usize) -> Vec<u8>) -> (Vec<usize>, Vec<usize>, Vec<Vec<usize>>) {
    let mut zero = Vec::new();
    let mut by: HashMap<Vec<u8>, Vec<usize>> = HashMap::new();
    for i in 0..els.len() {
        if els.dist(i, i).into_inner() > 1e-3 {
            zero.push(i);
        } else {
            by.entry(key(i)).or_default().push(i);
        }
    }
    let mut single = Vec::new();
    let mut many = Vec::new();
    for (_, v) in by {
        if v.len() == 1 {
            single.push(v[0]);
        } else {
            many.push(v);
        }
    }
    single.sort();
    many.sort();
    (zero, single, many)
}

struct Found {
    single: f64,
    missed: Vec<usize>,
    many: f64,
    near: f64,
}

/// how many single elements and duplicated vectors are found by their own vector
fn found<C: ElementContainer>(els: &C, single: &[usize], many: &[Vec<usize>], mut search: impl FnMut(&C::Element) -> Vec<(usize, f32)>) -> Found {
    let mut hit = 0;
    let mut missed = Vec::new();
    for &i in single {
        let q = els.get(i);
        let own = els.dist_to_element(i, &q).into_inner();
        if search(&q).first().map_or(false, |r| r.1 <= own.max(1e-6)) {
            hit += 1;
        } else {
            missed.push(i);
        }
    }
    let (mut h, mut near) = (0, 0.0f64);
    for g in many {
        let q = els.get(g[0]);
        let r = search(&q);
        if r.first().map_or(false, |x| x.1 <= 1e-5) {
            h += 1;
        }
        let want = g.len().min(r.len()).min(5);
        near += r.iter().take(want).filter(|x| x.1 <= 1e-5).count() as f64 / want.max(1) as f64;
    }
    let share = |a: f64, n: usize| if n == 0 { 1.0 } else { a / n as f64 };
    Found { single: share(hit as f64, single.len()), missed, many: share(h as f64, many.len()), near: share(near, many.len()) }
}

fn judge(f: &Found, single: &[usize], many: &[Vec<usize>], what: &str) -> Res {
    let miss = f.missed.len();
    ensure!(miss <= 2 || (miss as f64) < 0.03 * single.len() as f64, "{}: {} of {} elements that are neither zero nor duplicated are not found by their own vector: {:?}", what, miss, single.len(), &f.missed[..miss.min(10)]);
    let gone = ((1.0 - f.many) * many.len() as f64).round() as usize;
    ensure!(gone <= 1 && (gone == 0 || many.len() > 5) || (gone as f64) < 0.04 * many.len() as f64, "{}: {} of {} duplicated vectors are not found", what, gone, many.len());
    ensure!(f.near >= 0.8, "{}: a search for a duplicated vector returns it only {:.2} of the time", what, f.near);
    Ok(())
}

fn degenerate<K: Kind>(c: &mut Case) -> Res {
    let mut rng = c.rng.fork();
    let max = if c.ctx.thorough { 1500 } else { 700 };
    let data = Data::random(&mut rng, max);
    let cfg = Cfg { nn: *rng.pick(&[10, 16, 20, 30, 30]), ms: *rng.pick(&[30, 50, 100, 200]), mult: *rng.pick(&[5.0, 10.0, 15.0, 15.0]), reinsert: rng.chance(0.6), expected: None, progress: false };
    let threads = *rng.pick(&[1, 1, 2, 4]);
    let steps = *rng.pick(&[1, 1, 3]);
    c.note(format!("{} {:?} {:?} threads={} steps={}", K::NAME, data, cfg, threads, steps));
    let spec = Spec::new(&mut rng, data.dim, Flavor::Uniform);
    let empty = K::empty_large(&mut rng, &spec, 300);
    let items = data.items::<K>(&mut rng, &empty);
    let n = items.len();
    // the work ordinary data of this size takes
    let ordinary = Data::plain(n, data.dim).items::<K>(&mut rng, &empty);
    let (_, base) = build::<K>(&ordinary, &empty, &cfg, 1, steps, 0)?;
    let budget = 40 * base + 1000 * (n as u64 + 1);
    let (b, calls) = build::<K>(&items, &empty, &cfg, threads, steps, budget)?;
    c.ctx.max("work_against_ordinary_data", calls as f64 / (base + 10 * (n as u64 + 1)) as f64);
    let els = b.get_elements().clone();
    well_formed(&b, n, cfg.nn)?;
    let (zero, single, many) = groups(&els, |i| K::read(&els.inner, i));
    c.ctx.count("zero_vectors", zero.len() as u64);
    c.ctx.count("single_elements", single.len() as u64);
    c.ctx.count("duplicated_vectors", many.len() as u64);
    let by = index_bytes(&b)?;
    let eb = crate::elems::written(&els, "writing the elements")?;
    let ms = *rng.pick(&[30, 60, 100, 200]);
    let back = K::reload(&els.inner, &eb);
    let mut loaded = no_panic("loading", || Granne::from_bytes(leak_aligned(&by), mon::<K>(back, 0)))?;
    let live = b.get_index();
    let zq: Vec<K::E> = zero.iter().take(2).map(|&i| els.get(i)).collect();
    for round in 0..3 {
        let what = ["built", "loaded", "reordered"][round];
        let here = loaded.get_elements().clone();
        let (zero, single, many) = if round == 2 { groups(&here, |i| K::read(&here.inner, i)) } else { (zero.clone(), single.clone(), many.clone()) };
        let worst = std::cell::Cell::new(0u64);
        let mut search = |q: &K::E| -> Vec<(usize, f32)> {
            if round == 0 {
                live.search(q, ms, 10)
            } else {
                let a = here.noise.calls.load(Relaxed);
                let r = loaded.search(q, ms, 10);
                worst.set(worst.get().max(here.noise.calls.load(Relaxed) - a));
                r
            }
        };
        let f = no_panic("searching", || found(&here, &single, &many, &mut search))?;
        for q in &zq {
            let r = no_panic("searching for zero", || search(q))?;
            ensure!(!r.is_empty(), "a search for the zero vector finds nothing");
            valid_result(&here, n, q, ms, 10, &r)?;
        }
        ensure!(worst.get() <= (loaded.num_layers() * n) as u64 + 10, "a search computed {} distances over {} elements", worst.get(), n);
        if n > 0 && single.len() + many.len() > 0 {
            let i = *single.first().unwrap_or_else(|| &many[0][0]);
            let q = here.get(i);
            let r = search(&q);
            ensure!(!r.is_empty(), "a search in {} elements finds nothing", n);
            valid_result(&here, n, &q, ms, 10, &r)?;
        }
        let tag = format!("{}_{}", K::NAME, what);
        if single.len() >= 20 {
            c.ctx.min(&format!("{}_single_found", tag), f.single);
        }
        if many.len() >= 3 {
            c.ctx.min(&format!("{}_duplicated_found", tag), f.many);
        }
        c.ctx.max(&format!("{}_single_missed", tag), f.missed.len() as f64);
        c.ctx.max(&format!("{}_duplicated_missed", tag), (1.0 - f.many) * many.len() as f64);
        c.ctx.min(&format!("{}_duplicates_near", tag), f.near);
        judge(&f, &single, &many, what)?;
        if std::env::var("GV_SHOW").is_ok() && (f.missed.len() > 0 || f.many < 1.0) {
            eprintln!("{} {}: single {:.3} of {} missed {:?}; many {:.3} of {} zero {}", c.desc, what, f.single, single.len(), &f.missed[..f.missed.len().min(6)], f.many, many.len(), zero.len());
        }
        if round == 1 {
            let order = no_panic("reordering", || loaded.reorder(false))?;
            ensure!(order.len() == n, "an order of {} ids for {} elements", order.len(), n);
        }
    }
    c.nontrivial(hash_bytes(&by));
    Ok(())
}

/// the same in a concurrent builder
fn concurrent<K: Kind>(c: &mut Case) -> Res {
    let mut rng = c.rng.fork();
    let data = Data::random(&mut rng, 500);
    let cfg = Cfg { nn: *rng.pick(&[10, 20, 30]), ms: *rng.pick(&[30, 50, 100]), mult: *rng.pick(&[5.0, 10.0, 15.0]), reinsert: rng.chance(0.5), expected: None, progress: false };
    let threads = rng.range(1, 3);
    let prefill = if rng.chance(0.4) { rng.below(data.n + 1) } else { 0 };
    let pool = *rng.pick(&[1, 2, 4]);
    c.note(format!("concurrent {} {:?} {:?} threads={} pool={} prefill={}", K::NAME, data, cfg, threads, pool, prefill));
    let spec = Spec::new(&mut rng, data.dim, Flavor::Uniform);
    let empty = K::empty_large(&mut rng, &spec, 300);
    let items = data.items::<K>(&mut rng, &empty);
    let n = items.len();
    let mut b = GranneBuilder::new(cfg.build(), empty.clone());
    for it in &items[..prefill] {
        b.push(it.clone());
    }
    let rw = no_panic("creating", || RwGranneBuilder::new(b, n, pool))?;
    let next = std::sync::atomic::AtomicUsize::new(prefill);
    let batch = rng.range(1, 12);
    let r: Vec<Result<(), String>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads)
            .map(|_| {
                s.spawn(|| -> Result<(), String> {
                    loop {
                        let a = next.fetch_add(batch, SeqCst);
                        if a >= n {
                            return Ok(());
                        }
                        let part = items[a..(a + batch).min(n)].to_vec();
                        let k = part.len();
                        let got = no_panic("inserting", || rw.insert_batch(part))?;
                        ensure!(got.len() == k, "{} of {} elements were inserted", got.len(), k);
                    }
                })
            })
            .collect();
        hs.into_iter().map(join).collect()
    });
    r.into_iter().collect::<Result<Vec<_>, _>>()?;
    let els = rw.get_elements().clone();
    ensure!(rw.len() == n && els.len() == n, "{} of {} elements", rw.len(), n);
    let (zero, single, many) = groups(&els, |i| K::read(&els, i));
    let ms = *rng.pick(&[50, 100]);
    let f = no_panic("searching", || found(&els, &single, &many, |q| rw.search(q, ms, 10)))?;
    c.ctx.max(&format!("{}_concurrent_single_missed", K::NAME), f.missed.len() as f64);
    c.ctx.max(&format!("{}_concurrent_duplicated_missed", K::NAME), (1.0 - f.many) * many.len() as f64);
    c.ctx.min(&format!("{}_concurrent_duplicates_near", K::NAME), f.near);
    judge(&f, &single, &many, "concurrent builder")?;
    for &i in zero.iter().take(2) {
        let q = els.get(i);
        let r = no_panic("searching for zero", || rw.search(&q, ms, 10))?;
        ensure!(!r.is_empty(), "a search for the zero vector finds nothing");
        valid_result(&els, n, &q, ms, 10, &r)?;
    }
    let (mut a, mut eb) = (std::io::Cursor::new(Vec::new()), Vec::new());
    no_panic("saving", || rw.write(&mut a, &mut eb))?.map_err(|e| format!("saving: {}", e))?;
    let a = a.into_inner();
    let back = K::reload(&els, &eb);
    let ix = no_panic("loading", || Granne::from_bytes(&a, back))?;
    well_formed(&ix, n, cfg.nn)?;
    let f = no_panic("searching", || found(&els, &single, &many, |q| ix.search(q, ms, 10)))?;
    judge(&f, &single, &many, "snapshot")?;
    c.nontrivial(hash_bytes(&a));
    Ok(())
}

/// every pattern of zero, equal and other elements in data sets of at most five
fn tiny<K: Kind>(c: &mut Case) -> Res {
    let mut rng = c.rng.fork();
    let (mut k, nn, ms) = (c.idx as usize % 364, *rng.pick(&[1, 2, 3, 30]), *rng.pick(&[1, 2, 5, 200]));
    let mut n = 0;
    while k >= 3usize.pow(n as u32) {
        k -= 3usize.pow(n as u32);
        n += 1;
    }
    let dim = *rng.pick(&[1, 2, 4, 9]);
    let pattern: Vec<usize> = (0..n).map(|i| k / 3usize.pow(i as u32) % 3).collect();
    let cfg = Cfg { nn, ms, mult: *rng.pick(&[1.5, 2.0, 15.0]), reinsert: rng.chance(0.5), expected: None, progress: false };
    c.note(format!("tiny {} {:?} dim={} {:?}", K::NAME, pattern, dim, cfg));
    let spec = Spec::new(&mut rng, dim, Flavor::Uniform);
    let zero = Spec::new(&mut rng, dim, Flavor::AllZero);
    let empty = K::empty_large(&mut rng, &spec, 50);
    let same = K::item(&mut rng, &spec, &empty);
    let items: Vec<K::I> = pattern
        .iter()
        .map(|p| match p {
            0 => K::item(&mut rng, &zero, &empty),
            1 => same.clone(),
            _ => K::item(&mut rng, &spec, &empty),
        })
        .collect();
    let (b, _) = build::<K>(&items, &empty, &cfg, 1, *rng.pick(&[1, 5]), 1_000_000)?;
    well_formed(&b, n, nn)?;
    let els = b.get_elements().clone();
    let by = index_bytes(&b)?;
    let eb = crate::elems::written(&els, "writing the elements")?;
    let mut ix = no_panic("loading", || Granne::from_bytes(leak_aligned(&by), mon::<K>(K::reload(&els.inner, &eb), 1_000_000)))?;
    let rw = no_panic("creating", || RwGranneBuilder::new(GranneBuilder::new(cfg.build(), empty.clone()), n, 1))?;
    for it in &items {
        ensure!(no_panic("inserting", || rw.insert(it.clone()))?.is_some(), "an insert was refused");
    }
    for round in 0..3 {
        let here = ix.get_elements().clone();
        for i in 0..n {
            let q = here.get(i);
            for (w, k) in [(1, 1), (5, 5), (200, 10)] {
                let r = no_panic("searching", || ix.search(&q, w, k))?;
                ensure!(!r.is_empty(), "a search finds nothing");
                valid_result(&here, n, &q, w, k, &r)?;
                let r = no_panic("searching", || rw.search(&q, w, k))?;
                ensure!(!r.is_empty(), "a search of the concurrent builder finds nothing");
                valid_result(&*rw.get_elements(), n, &q, w, k, &r)?;
            }
            let zero = here.dist(i, i).into_inner() > 1e-3;
            let lists = (0..ix.num_layers()).map(|l| ix.layer_len(l)).max().unwrap_or(0) <= nn / 2;
            if !zero && lists {
                let r = ix.search(&q, 200, 10);
                ensure!(r[0].1 < 1e-4, "element {} is not found by its own vector: {:?}", i, r);
                let r = rw.search(&rw.get_element(i), 200, 10);
                ensure!(r[0].1 < 1e-4 || rw.get_elements().dist(i, i).into_inner() > 1e-3, "element {} is not found by its own vector in the concurrent builder: {:?}", i, r);
            }
        }
        if n == 0 {
            let q = K::query(&mut rng, &spec, &empty);
            ensure!(ix.search(&q, 10, 10).is_empty() && rw.search(&q, 10, 10).is_empty(), "a search in no elements returns some");
        }
        if round < 2 {
            let o = no_panic("reordering", || ix.reorder(false))?;
            let mut o2 = o.clone();
            o2.sort();
            ensure!(o2 == (0..n).collect::<Vec<_>>(), "the order {:?} is no permutation", o);
        }
    }
    let (mut a, mut e) = (std::io::Cursor::new(Vec::new()), Vec::new());
    no_panic("saving", || rw.write(&mut a, &mut e))?.map_err(|e| format!("saving: {}", e))?;
    let a = a.into_inner();
    let snap = no_panic("loading", || Granne::from_bytes(&a, K::reload(&els.inner, &e)))?;
    well_formed(&snap, n, nn)?;
    c.nontrivial(hash_bytes(c.desc.as_bytes()));
    Ok(())
}

/// work of single searches and of building, in larger degenerate data
fn work<K: Kind>(c: &mut Case) -> Res {
    let mut rng = c.rng.fork();
    let n = if c.ctx.thorough { 4000 } else { 1500 };
    let mut data = Data::random(&mut rng, n);
    let k = data.n.max(1) as f64;
    let (z, d) = (data.zeros as f64 / k, data.dups as f64 / k);
    data.n = n;
    data.zeros = (z * n as f64) as usize;
    data.dups = ((d * n as f64) as usize).min(n - data.zeros);
    data.dim = 16;
    let cfg = Cfg { nn: *rng.pick(&[10, 20, 30]), ms: *rng.pick(&[20, 50]), mult: 15.0, reinsert: rng.chance(0.5), expected: None, progress: false };
    c.note(format!("work {} {:?} {:?}", K::NAME, data, cfg));
    let spec = Spec::new(&mut rng, data.dim, Flavor::Uniform);
    let empty = K::empty_large(&mut rng, &spec, 300);
    let items = data.items::<K>(&mut rng, &empty);
    let ordinary = Data::plain(n, data.dim).items::<K>(&mut rng, &empty);
    let (b0, base) = build::<K>(&ordinary, &empty, &cfg, 1, 1, 0)?;
    let (b, calls) = build::<K>(&items, &empty, &cfg, 1, 1, 0)?;
    let per = |b: &GranneBuilder<Mon<K::C>>, zero: bool| -> Result<Vec<u64>, String> {
        let ix = b.get_index();
        let els = b.get_elements();
        let ids: Vec<usize> = (0..n).filter(|&i| (els.inner.dist(i, i).into_inner() > 1e-3) == zero).collect();
        let mut w = Vec::new();
        for &i in ids.iter().step_by(1 + ids.len() / 100) {
            let q = els.get(i);
            let a = els.noise.calls.load(Relaxed);
            let r = no_panic("searching", || ix.search(&q, 20, 5))?;
            w.push(els.noise.calls.load(Relaxed) - a);
            ensure!(!r.is_empty(), "a search for element {} finds nothing", i);
        }
        w.sort();
        Ok(w)
    };
    let x = per(&b0, false)?;
    let (y, z) = (per(&b, false)?, per(&b, true)?);
    c.ctx.count("searches", (y.len() + z.len()) as u64);
    let build_ratio = calls as f64 / base as f64;
    c.ctx.max("build_work_ratio", build_ratio);
    ensure!(build_ratio <= 4.0, "building took {:.1} times the distance computations ordinary data takes ({} against {})", build_ratio, calls, base);
    if y.len() > 10 {
        let (m, t) = (y[y.len() / 2] as f64 / x[x.len() / 2] as f64, y[y.len() - 1] as f64 / x[x.len() - 1] as f64);
        c.ctx.max("search_work_ratio_median", m);
        c.ctx.max("search_work_ratio_worst", t);
        ensure!(m <= 2.0 && t <= 3.0, "searches took {:.1} (the worst one {:.1}) times the distance computations they take in ordinary data", m, t);
    }
    if let Some(t) = z.last() {
        c.ctx.max("zero_search_share_of_all", *t as f64 / n as f64);
        ensure!(*t <= (2 * n) as u64, "a search for the zero vector computed {} distances over {} elements", t, n);
    }
    c.nontrivial(calls);
    Ok(())
}

pub fn run(ctx: &Ctx) {
    ctx.rule("Data sets with any share of zero vectors and of duplicates of one to many vectors, placed first, last, alternating or at random, built in one or several steps with one or several threads, loaded, reordered, and inserted concurrently: searches for every element that is neither zero nor duplicated, for every duplicated vector and for zero; distance computations counted against ordinary data of the same size. All 364 patterns of zero, equal and other elements in data sets of at most five, three configurations each. Non-trivial and distinct: different index bytes or case.");
    let w = ctx.workers;
    fn kind(c: &mut Case, f: [fn(&mut Case) -> Res; 3]) -> Res {
        f[c.rng.below(3)](c)
    }
    ctx.cases("degenerate", ctx.n(400, 6000), w, |c| kind(c, [degenerate::<F32>, degenerate::<I8>, degenerate::<Sum>]));
    ctx.cases("work", ctx.n(64, 600), w, |c| kind(c, [work::<F32>, work::<I8>, work::<Sum>]));
    ctx.cases("concurrent", ctx.n(200, 3000), w, |c| kind(c, [concurrent::<F32>, concurrent::<I8>, concurrent::<Sum>]));
    ctx.cases("tiny", 364 * ctx.n(3, 36), w, |c| kind(c, [tiny::<F32>, tiny::<I8>, tiny::<Sum>]));
}
