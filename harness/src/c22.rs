//! C22: sequential builds are deterministic; where elements live and progress display have no effect.
use crate::c19;
use crate::codec;
use crate::elems::leak_shifted;
use crate::ensure;
use crate::gen::*;
use crate::graph::*;
use crate::kinds::*;
use crate::util::*;
use crate::any_kind;
use granne::embeddings::SumEmbeddings;
use granne::{angular, angular_int, BuildConfig, Builder, ElementContainer, Granne, GranneBuilder, Index, Permutable, RwGranneBuilder};
use std::sync::atomic::Ordering::SeqCst;
use std::sync::Arc;

/// the steps of one build: number of elements indexed after each
fn plan(rng: &mut Rng, n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..if rng.chance(0.35) { rng.range(1, 3) } else { 0 }).map(|_| rng.below(n + 1)).collect();
    v.push(n);
    v.sort();
    v
}

fn size(rng: &mut Rng) -> usize {
    match rng.below(8) {
        0 => rng.below(4),
        1 => rng.range(1, 30),
        2 => *rng.pick(&[99, 100, 101, 199, 200, 201, 400]),
        _ => rng.range(30, 350),
    }
}

fn raw<C: ElementContainer + Sync>(els: C, cfg: BuildConfig, steps: &[usize]) -> Vec<u8> {
    let mut b = GranneBuilder::new(cfg, els);
    for &s in steps {
        b.build_partial(s);
    }
    let mut c = std::io::Cursor::new(Vec::new());
    b.write_index(&mut c).expect("write to memory");
    c.into_inner()
}

/// one worker thread, reached in different ways
fn one_thread<T: Send>(how: usize, f: impl FnOnce() -> T + Send) -> T {
    match how {
        0 => in_pool(1, f),
        1 => in_pool(8, || in_pool(1, f)),
        2 => in_pool(1, || in_pool(1, f)),
        #[cfg(feature = "singlethreaded")]
        3 => in_pool(7, f),
        _ => std::thread::scope(|s| join(s.spawn(|| in_pool(1, f)))),
    }
}

fn diff(a: &[u8], b: &[u8]) -> String {
    let at = a.iter().zip(b).position(|x| x.0 != x.1).unwrap_or(a.len().min(b.len()));
    format!("the index files differ from byte {} on ({} and {} bytes)", at, a.len(), b.len())
}

fn repeat<K: Kind>(c: &mut Case) -> Res {
    let rng = &mut c.rng;
    let dim = *rng.pick(&[1, 2, 5, 8, 17, 33]);
    let spec = Spec::random(rng, dim);
    let n = size(rng);
    let mut cfg = Cfg::random(rng);
    if rng.chance(0.3) {
        cfg.expected = Some(n + rng.below(2 * n + 2));
    }
    let steps = plan(rng, n);
    let desc = format!("{} n={} dim={} {:?} {:?} steps={:?}", K::NAME, n, dim, spec.flavor, cfg, steps);
    c.note(desc);
    let rng = &mut c.rng;
    let els = fill::<K>(rng, &spec, n);
    let first = in_pool(1, || no_panic("building", || raw(els.clone(), cfg.build(), &steps)))?;
    let mut shown = cfg.clone();
    shown.progress = true;
    for k in 0..4 {
        let how = rng.below(5);
        let (what, got) = match k {
            0 => ("the same build again", one_thread(how, || no_panic("building", || raw(els.clone(), cfg.build(), &steps)))?),
            1 => ("a build from borrowed elements", one_thread(how, || no_panic("building", || raw(&els, cfg.build(), &steps)))?),
            2 => ("a build showing progress", one_thread(how, || no_panic("building", || raw(els.clone(), shown.build(), &steps)))?),
            _ => {
                // appended one by one rather than handed over
                let e = K::reload(&els, &crate::elems::written(&els, "writing the elements")?);
                ("a build from reloaded elements", one_thread(how, || no_panic("building", || raw(e, cfg.build(), &steps)))?)
            }
        };
        ensure!(got == first, "{} (way {}): {}", what, how, diff(&first, &got));
        c.ctx.count("identical_builds", 1);
    }
    // reordering: same permutation and bytes with and without progress
    if n > 0 {
        let view = in_pool(1, || GranneBuilder::from_bytes(cfg.build(), &first, els.clone()));
        let once = |progress: bool| -> Result<(Vec<usize>, Vec<u8>), String> {
            one_thread(0, || {
                no_panic("reordering", || {
                    let bytes = leak_aligned(&first);
                    let mut ix = Granne::from_bytes(bytes, els.clone());
                    let p = ix.reorder(progress);
                    (p, index_bytes(&ix).expect("write"))
                })
            })
        };
        let (a, b) = (once(false)?, once(true)?);
        ensure!(a == b, "showing progress changes the result of reordering");
        ensure!(view.len() == n, "reloaded builder has {} elements", view.len());
        c.ctx.count("identical_reorderings", 1);
    }
    if n > 1 {
        c.nontrivial(hash_bytes(&first));
    }
    Ok(())
}

/// the same vectors held in every way there is
fn storage(c: &mut Case) -> Res {
    let rng = &mut c.rng;
    let dim = *rng.pick(&[1, 2, 3, 5, 8, 16, 31, 33]);
    let spec = Spec::random(rng, dim);
    let n = size(rng).max(1);
    let cfg = Cfg::random(rng);
    let steps = plan(rng, n);
    let kind = rng.below(3);
    let desc = format!("kind={} n={} dim={} {:?} {:?} steps={:?}", kind, n, dim, spec.flavor, cfg, steps);
    c.note(desc);
    let rng = &mut c.rng;
    let off = rng.below(9);
    macro_rules! all {
        ($first:expr, $($name:expr => $els:expr),*) => {{
            let first = in_pool(1, || no_panic("building", || raw($first, cfg.build(), &steps)))?;
            $(
                let e = $els;
                let how = rng.below(5);
                let got = one_thread(how, || no_panic("building", || raw(e, cfg.build(), &steps)))?;
                ensure!(got == first, "elements {}: {}", $name, diff(&first, &got));
                c.ctx.count("storages_compared", 1);
            )*
            first
        }};
    }
    macro_rules! dense {
        ($lib:ident, $enc:path) => {{
            let v: Vec<_> = (0..n).map(|_| $lib::Vector::from(spec.vec(rng)).into_owned()).collect();
            let own: $lib::Vectors<'static> = v.iter().cloned().collect();
            let flat: Vec<_> = v.iter().flat_map(|x| x.as_slice().to_vec()).collect();
            let bytes = crate::elems::written(&own, "writing the elements")?;
            let f = temp_file(c.ctx, &bytes);
            let mapped = unsafe { $lib::Vectors::from_file(&f) }.map_err(|e| e.to_string())?;
            all!(own.clone(),
                "borrowed" => own.borrow(),
                "by reference" => &own,
                "from a slice" => $lib::Vectors::from_slice(&flat, dim),
                "from a vec" => $lib::Vectors::from_vec(flat.clone(), dim),
                "from bytes" => $lib::Vectors::from_bytes(leak_shifted(&bytes, off)),
                "mapped from a file" => &mapped,
                "mapped and taken" => mapped.clone().into_owned())
        }};
    }
    let first = match kind {
        0 => dense!(angular, codec::encode_f32),
        1 => dense!(angular_int, codec::encode_i8),
        _ => {
            let own = fill::<Sum>(rng, &spec, n);
            let terms: Vec<Vec<usize>> = (0..n).map(|i| own.get_terms(i)).collect();
            let eb = codec::encode_terms(&terms);
            let mut mb = Vec::new();
            own.write_embeddings(&mut mb).expect("write");
            let (fe, fm) = (temp_file(c.ctx, &eb), temp_file(c.ctx, &mb));
            let mapped = unsafe { SumEmbeddings::from_files(&fm, Some(&fe)) }.map_err(|e| e.to_string())?;
            let mut pushed = unsafe { SumEmbeddings::from_files(&fm, None) }.map_err(|e| e.to_string())?;
            for t in &terms {
                pushed.push(t);
            }
            all!(own.clone(), "borrowed" => own.borrow(), "by reference" => &own, "mapped" => &mapped, "mapped and cloned" => mapped.clone(), "embeddings mapped" => pushed)
        }
    };
    c.nontrivial(hash_bytes(&first));
    Ok(())
}

fn shuffled(rng: &mut Rng, cfg: &Cfg, skip_defaults: bool) -> BuildConfig {
    let d = Cfg { nn: 30, ms: 200, mult: 15.0, reinsert: true, expected: None, progress: false };
    let mut order: Vec<usize> = (0..6).collect();
    rng.shuffle(&mut order);
    let mut b = if rng.chance(0.5) { BuildConfig::new() } else { BuildConfig::default() };
    for o in order {
        // now and then set to something else first: the last call counts
        if rng.chance(0.2) {
            b = match o {
                0 => b.num_neighbors(cfg.nn + 3),
                1 => b.max_search(cfg.ms + 7),
                2 => b.layer_multiplier(cfg.mult + 2.0),
                3 => b.reinsert_elements(!cfg.reinsert),
                4 => b.show_progress(!cfg.progress),
                _ if cfg.expected.is_some() => b.expected_num_elements(1),
                _ => b,
            };
        } else if skip_defaults {
            let same = match o {
                0 => cfg.nn == d.nn,
                1 => cfg.ms == d.ms,
                2 => cfg.mult == d.mult,
                3 => cfg.reinsert == d.reinsert,
                4 => cfg.progress == d.progress,
                _ => cfg.expected.is_none(),
            };
            if same && rng.chance(0.7) {
                continue;
            }
        }
        b = match o {
            0 => b.num_neighbors(cfg.nn),
            1 => b.max_search(cfg.ms),
            2 => b.layer_multiplier(cfg.mult),
            3 => b.reinsert_elements(cfg.reinsert),
            4 => b.show_progress(cfg.progress),
            _ => match cfg.expected {
                Some(e) => b.expected_num_elements(e),
                None => b,
            },
        };
    }
    b
}

fn setters<K: Kind>(c: &mut Case) -> Res {
    let rng = &mut c.rng;
    let dim = *rng.pick(&[3, 8, 17]);
    let spec = Spec::new(rng, dim, Flavor::Uniform);
    let n = rng.range(250, 500);
    let mut cfg = Cfg { nn: 30, ms: 200, mult: 15.0, reinsert: true, expected: None, progress: false };
    if rng.chance(0.7) {
        cfg.nn = *rng.pick(&[4, 7, 12, 20, 29, 31, 40]);
    }
    if rng.chance(0.5) {
        cfg.ms = *rng.pick(&[8, 20, 60, 100, 199, 230]);
    }
    if rng.chance(0.5) {
        cfg.mult = *rng.pick(&[2.0, 3.5, 6.0, 10.0, 14.0, 16.0, 20.0]);
    }
    cfg.reinsert = rng.chance(0.6);
    cfg.progress = rng.chance(0.2);
    if rng.chance(0.3) {
        cfg.expected = Some(n + rng.below(3 * n));
    }
    let desc = format!("{} n={} dim={} {:?}", K::NAME, n, dim, cfg);
    c.note(desc);
    let rng = &mut c.rng;
    let els = Mon { inner: fill::<K>(rng, &spec, n), noise: Arc::new(Noise::default()) };
    let steps = vec![n];
    let work = |b: BuildConfig| -> Result<(Vec<u8>, u64), String> {
        let before = els.noise.calls.load(SeqCst);
        let r = in_pool(1, || no_panic("building", || raw(&els, b, &steps)))?;
        Ok((r, els.noise.calls.load(SeqCst) - before))
    };
    let (first, evals) = work(cfg.build())?;
    for _ in 0..2 {
        let (a, w) = work(shuffled(rng, &cfg, true))?;
        ensure!(a == first, "the same settings made in another order: {}", diff(&first, &a));
        ensure!(w == evals, "the same settings made in another order: {} distances computed instead of {}", w, evals);
        c.ctx.count("setter_orders", 1);
    }
    let ix = Granne::from_bytes(leak_aligned(&first), &els);
    // the maximum list length
    let last = ix.num_layers() - 1;
    let longest = (0..n).map(|i| ix.get_neighbors(i, last).len()).max().unwrap();
    ensure!(longest <= cfg.nn, "num_neighbors({}) but a list of {}", cfg.nn, longest);
    // (few directions or long lists leave nothing to fill the list with)
    ensure!(longest * 2 > cfg.nn || cfg.expected.is_some() || cfg.nn > 20 || dim < 8, "num_neighbors({}) but no list in the last layer longer than {}", cfg.nn, longest);
    if cfg.expected.is_none() && cfg.nn <= 20 && dim >= 8 {
        c.ctx.min("longest_list_share", longest as f64 / cfg.nn as f64);
    }
    // the layer multiplier and the planned size
    let total = n.max(cfg.expected.unwrap_or(0));
    for l in 0..last {
        let (a, b) = (ix.layer_len(l) as f64, ix.layer_len(l + 1) as f64);
        let m = cfg.mult as f64;
        ensure!(b <= a * m + 1.0, "layer_multiplier({}) but {} nodes after {}", m, b, a);
        ensure!(b >= (a - 1.0) * m - 1.0 || l + 1 == last && total > n, "layer_multiplier({}) but {} nodes after {}", m, b, a);
    }
    ensure!((ix.layer_len(0) as f64) <= cfg.mult as f64 + 1.0, "layer_multiplier({}) but {} nodes in the top layer", cfg.mult, ix.layer_len(0));
    if let Some(e) = cfg.expected {
        // as planned: the layers of a collection of that size, as far as they are filled
        let m = cfg.mult as f64;
        let top = e as f64 / m.powf((e as f64).log(m).floor());
        let x = (e as f64).log(m);
        if (x - x.round()).abs() > 1e-6 {
            ensure!((ix.layer_len(0) as f64 - top.ceil()).abs() <= 1.0 || ix.num_layers() == 1, "expected_num_elements({}), multiplier {}: top layer has {} nodes", e, m, ix.layer_len(0));
        }
    }
    // width and reinsertion show in the work done
    let mut other = cfg.clone();
    other.ms = if cfg.ms < 40 { cfg.ms * 8 } else { cfg.ms / 8 };
    let (ob, oe) = work(other.build())?;
    let (lo, hi) = if other.ms < cfg.ms { (oe, evals) } else { (evals, oe) };
    ensure!(hi as f64 > lo as f64 * 1.15, "max_search({}) and max_search({}) compute {} and {} distances", cfg.ms, other.ms, evals, oe);
    c.ctx.min("width_work_ratio", hi as f64 / lo as f64);
    let mut other = cfg.clone();
    other.reinsert = !cfg.reinsert;
    let (_, re) = work(other.build())?;
    let (lo, hi) = if cfg.reinsert { (re, evals) } else { (evals, re) };
    ensure!(hi as f64 > lo as f64 * 1.2, "with reinsertion {} distances are computed, without {}", hi, lo);
    c.ctx.min("reinsert_work_ratio", hi as f64 / lo as f64);
    c.nontrivial(hash_bytes(&first) ^ hash_bytes(&ob));
    Ok(())
}

/// `BuildConfig::default()` against the documented values, on data where neighboring values differ
fn defaults(c: &mut Case) -> Res {
    let rng = &mut c.rng;
    let n = rng.range(1200, 1600);
    let dim = rng.range(8, 20);
    let spec = Spec::new(rng, dim, Flavor::Uniform);
    c.note(format!("n={} dim={}", n, dim));
    let rng = &mut c.rng;
    let els = fill::<F32>(rng, &spec, n);
    let run = |b: BuildConfig| in_pool(1, || no_panic("building", || raw(&els, b, &[n])));
    let def = run(BuildConfig::default())?;
    let new = run(BuildConfig::new())?;
    let doc = run(BuildConfig::new().num_neighbors(30).layer_multiplier(15.0).max_search(200).reinsert_elements(true).show_progress(false))?;
    ensure!(def == new, "BuildConfig::new() and default(): {}", diff(&def, &new));
    ensure!(def == doc, "the documented defaults, set explicitly: {}", diff(&def, &doc));
    // sensitive to every one of them
    let mut sharp = 0;
    for (name, b) in [
        ("num_neighbors", BuildConfig::default().num_neighbors(29)),
        ("max_search", BuildConfig::default().max_search(180)),
        ("layer_multiplier", BuildConfig::default().layer_multiplier(13.0)),
        ("reinsert_elements", BuildConfig::default().reinsert_elements(false)),
    ] {
        let o = run(b)?;
        if o != def {
            sharp += 1;
        }
        ensure!(name == "max_search" || o != def, "{} has no effect at all", name);
    }
    c.ctx.count("settings_with_visible_effect", sharp);
    c.nontrivial(hash_bytes(&def));
    Ok(())
}

/// the concurrent builder used by one thread
fn rw<K: Kind>(c: &mut Case) -> Res {
    let rng = &mut c.rng;
    let dim = *rng.pick(&[2, 5, 17]);
    let spec = Spec::random(rng, dim);
    let n = rng.range(1, 250);
    let mut cfg = Cfg::random(rng);
    cfg.progress = false;
    let start = if rng.chance(0.4) { rng.below(n + 1) } else { 0 };
    let cap = n + rng.below(30);
    c.note(format!("{} n={} start={} cap={} dim={} {:?} {:?}", K::NAME, n, start, cap, dim, spec.flavor, cfg));
    let rng = &mut c.rng;
    let mut base = K::empty(rng, &spec);
    let items: Vec<K::I> = (0..n).map(|_| K::item(rng, &spec, &base)).collect();
    for i in &items[..start] {
        granne::ExtendableElementContainer::push(&mut base, i.clone());
    }
    let cuts: Vec<usize> = {
        let mut v: Vec<usize> = (0..rng.below(6)).map(|_| rng.range(start, n)).collect();
        v.push(start);
        v.push(n);
        v.sort();
        v
    };
    let batch = rng.chance(0.5);
    let run = |how: usize, progress: bool| -> Result<(Vec<u8>, Vec<u8>), String> {
        let mut cfg = cfg.clone();
        cfg.progress = progress;
        one_thread(how, || {
            no_panic("inserting", || {
                let b = RwGranneBuilder::new(GranneBuilder::new(cfg.build(), base.clone()), cap, 1);
                for w in cuts.windows(2) {
                    if batch {
                        b.insert_batch(items[w[0]..w[1]].to_vec());
                    } else {
                        for i in &items[w[0]..w[1]] {
                            b.insert(i.clone());
                        }
                    }
                }
                let (mut ix, mut el) = (std::io::Cursor::new(Vec::new()), Vec::new());
                b.write(&mut ix, &mut el).expect("write to memory");
                (ix.into_inner(), el)
            })
        })
    };
    let first = run(0, false)?;
    let how = rng.below(5);
    let again = run(how, false)?;
    ensure!(first.1 == again.1, "the same inserts again store other elements");
    ensure!(first.0 == again.0, "the same inserts again (way {}): {}", how, diff(&first.0, &again.0));
    let shown = run(0, true)?;
    ensure!(first == shown, "showing progress changes the result");
    c.ctx.count("identical_insert_sequences", 2);
    c.nontrivial(hash_bytes(&first.0));
    Ok(())
}

// ---------------------------------------------------------------- separate processes
/// builds in a process of its own, in its global pool; stdout is the progress display
pub fn child(seed: u64, progress: bool, out: &str) {
    let (els, mut cfg, steps) = child_case(seed);
    cfg.progress = progress;
    let b = raw(els.clone(), cfg.build(), &steps);
    let mut ix = Granne::from_bytes(leak_aligned(&b), els);
    let p = ix.reorder(progress);
    let mut v = b;
    for i in p {
        v.extend((i as u64).to_le_bytes());
    }
    std::fs::write(out, v).expect("write");
}

fn child_case(seed: u64) -> (angular::Vectors<'static>, Cfg, Vec<usize>) {
    let mut rng = Rng::new(seed, "child", 0);
    let dim = rng.range(2, 20);
    let spec = Spec::random(&mut rng, dim);
    let n = rng.range(50, 600);
    let cfg = Cfg::random(&mut rng);
    let steps = plan(&mut rng, n);
    (fill::<F32>(&mut rng, &spec, n), cfg, steps)
}

fn processes(c: &mut Case) -> Res {
    let d = Dir::new(c.ctx);
    let seed = c.rng.seed() >> 1;
    let (els, cfg, steps) = child_case(seed);
    c.note(format!("n={} {:?} steps={:?}", els.len(), cfg, steps));
    let here = in_pool(1, || {
        no_panic("building", || {
            let b = raw(els.clone(), cfg.build(), &steps);
            let mut ix = Granne::from_bytes(leak_aligned(&b), els.clone());
            let p = ix.reorder(false);
            (b, p)
        })
    })?;
    let mut want = here.0.clone();
    for i in &here.1 {
        want.extend((*i as u64).to_le_bytes());
    }
    let exe = std::env::current_exe().expect("own path");
    // the machine seen by the process: all processors, or a single one
    let one_cpu = std::process::Command::new("taskset").args(["-c", "0", "true"]).output().map_or(false, |o| o.status.success());
    for (k, progress, cpus) in [(0, false, "all"), (1, true, "all"), (2, false, "one")] {
        let out = d.p(&format!("o{}", k));
        let mut cmd = if cpus == "one" {
            if !one_cpu {
                c.ctx.count("no_taskset", 1);
                continue;
            }
            let mut t = std::process::Command::new("taskset");
            t.args(["-c", "0"]).arg(&exe);
            t
        } else {
            std::process::Command::new(&exe)
        };
        let o = cmd
            .arg("CHILD22")
            .args(["--seed", &seed.to_string(), "--child-out", out.to_str().unwrap()])
            .args(["--progress", if progress { "yes" } else { "no" }])
            .env("RAYON_NUM_THREADS", "1")
            .output()
            .expect("spawn");
        ensure!(o.status.success(), "building in another process failed: {}", String::from_utf8_lossy(&o.stderr).chars().take(500).collect::<String>());
        let got = std::fs::read(&out).expect("read");
        ensure!(got == want, "in another process with progress={} on {} processors: {}", progress, cpus, diff(&want, &got));
        if progress {
            ensure!(!o.stdout.is_empty(), "progress was asked for, nothing is shown");
        } else {
            ensure!(o.stdout.is_empty(), "progress is off but is shown: {}", String::from_utf8_lossy(&o.stdout).chars().take(200).collect::<String>());
        }
        c.ctx.count("processes", 1);
    }
    c.nontrivial(hash_bytes(&want));
    Ok(())
}

/// one thread, any number of threads, progress: the same text gives the same files
fn parsing(c: &mut Case) -> Res {
    let mut rng = c.rng.fork();
    let co = c19::corpus(&mut rng, c.ctx, false, false);
    c.note(co.what.clone());
    let mut first: Option<Vec<u8>> = None;
    for (k, (t, progress)) in [(1, false), (1, true), (4, true), (8, false)].iter().enumerate() {
        let out = co.dir.p(&format!("p{}.bin", k));
        in_pool(*t, || no_panic("parsing", || granne::embeddings::parsing::parse_elements_and_save_to_disk(&co.input, &co.words, &out, *progress)))?;
        let b = std::fs::read(&out).map_err(|e| e.to_string())?;
        match &first {
            None => first = Some(b),
            Some(f) => ensure!(*f == b, "with {} threads and progress={} the output differs", t, progress),
        }
    }
    c.nontrivial(hash_bytes(&first.unwrap()));
    Ok(())
}

pub fn run(ctx: &Ctx) {
    ctx.rule("The same elements and configuration are built again and again with one worker thread - repeated, nested in other pools, in other processes, from every kind of storage (owned, borrowed, by reference, byte slices at any alignment, mapped files), with and without progress, with the settings made in any order - and the index files compared byte for byte; likewise single-threaded use of the concurrent builder, reordering and parsing. Each setting must show its named effect. Non-trivial: at least two elements; distinct: different index bytes.");
    ctx.cases("repeat", ctx.n(260, 4000), ctx.workers, |c| any_kind!(c.rng, repeat, c));
    ctx.cases("storage", ctx.n(160, 2500), ctx.workers, storage);
    ctx.cases("setters", ctx.n(60, 900), ctx.workers, |c| any_kind!(c.rng, setters, c));
    ctx.cases("defaults", ctx.n(4, 40), ctx.workers.min(4), defaults);
    ctx.cases("rw", ctx.n(120, 2500), ctx.workers, |c| any_kind!(c.rng, rw, c));
    ctx.cases("processes", ctx.n(16, 200), ctx.workers, processes);
    ctx.cases("parsing", ctx.n(40, 600), ctx.workers, parsing);
}
