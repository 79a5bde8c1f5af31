//! C14: nothing blocks forever.
use crate::c07::{Disk, Fault};
use crate::gen::*;
use crate::graph::*;
use crate::kinds::*;
use crate::rw::*;
use crate::util::*;
use crate::{any_noisy_kind, ensure};
use granne::{Builder, ElementContainer, GranneBuilder, RwGranneBuilder};
use std::io::{ErrorKind, Result as IoResult, Seek, SeekFrom, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::Ordering::*;
use std::sync::Arc;

/// a healthy but slow destination
pub struct Slow(pub Disk, pub u64);
impl Write for Slow {
    fn write(&mut self, b: &[u8]) -> IoResult<usize> {
        std::thread::sleep(std::time::Duration::from_micros(self.1));
        self.0.write(b)
    }
    fn flush(&mut self) -> IoResult<()> {
        self.0.flush()
    }
}
impl Seek for Slow {
    fn seek(&mut self, p: SeekFrom) -> IoResult<u64> {
        self.0.seek(p)
    }
}

/// a destination whose writer panics
struct Bomb(usize);
impl Write for Bomb {
    fn write(&mut self, b: &[u8]) -> IoResult<usize> {
        if self.0 == 0 {
            panic!("BOMB");
        }
        self.0 -= 1;
        Ok(b.len())
    }
    fn flush(&mut self) -> IoResult<()> {
        Ok(())
    }
}
impl Seek for Bomb {
    fn seek(&mut self, _: SeekFrom) -> IoResult<u64> {
        Ok(0)
    }
}

/// the recorded histories of the other checks, arranged for lock contention
fn mix_case<K: Kind>(c: &mut Case) -> Res {
    let mut rng = c.rng.fork();
    let mut p = small_plan(&mut rng, false);
    p.cfg.mult = *rng.pick(&[1.5, 2.0, 3.0, 5.0]);
    p.savers = rng.range(1, 3);
    p.searchers = rng.range(0, 3);
    p.readers = rng.range(0, 2);
    p.workers = if rng.chance(0.5) { rng.range(1, 6) } else { 0 };
    if rng.chance(0.5) {
        // batches that span layers
        p.cap = rng.range(20, 150);
        p.prefill = 0;
        let w = rng.range(1, 4);
        p.writers = (0..w).map(|_| vec![p.cap / w + 1, 0, p.cap / 4 + 1]).collect();
    }
    c.note(p.describe());
    let h = match execute::<K>(c, &mut rng, &p, 0)? {
        Some(h) => h,
        None => return Ok(()),
    };
    let o = h.overlaps();
    c.count("operations_completed", h.ops.len() as u64);
    c.count("overlapping_inserts", o as u64);
    c.nontrivial(h.signature());
    Ok(())
}

/// failing, slow and panicking operations in between
fn faults<K: Kind>(c: &mut Case) -> Res
where
    K::C: HasNoise,
{
    let mut rng = c.rng.fork();
    let mut cfg = Cfg::random(&mut rng);
    cfg.ms = cfg.ms.min(30);
    cfg.mult = *rng.pick(&[1.5, 2.0, 5.0, 15.0]);
    let cap = rng.range(5, 120);
    let pool = rng.range(1, 5);
    let workers = if rng.chance(0.4) { rng.range(1, 4) } else { 0 };
    let panics = rng.chance(0.4);
    let actors = rng.range(2, 7);
    c.note(format!("faults {} cap={} pool={} workers={} actors={} panics={} {:?}", K::NAME, cap, pool, workers, actors, panics, cfg));
    let spec = Spec::new(&mut rng, 3, Flavor::Uniform);
    let els = K::empty(&mut rng, &spec);
    let noise = els.noise();
    let b = GranneBuilder::new(cfg.build(), els.clone());
    let rw = no_panic("new", || RwGranneBuilder::new(b, cap, pool))?;
    let done = std::sync::atomic::AtomicU64::new(0);
    let errors: std::sync::Mutex<Vec<String>> = Default::default();
    let mut acts: Vec<Box<dyn FnOnce() + Send + '_>> = Vec::new();
    for _ in 0..actors {
        let mut r = rng.fork();
        let (rw, els, spec, noise, done, errors) = (&rw, &els, &spec, &noise, &done, &errors);
        acts.push(Box::new(move || {
            for _ in 0..r.range(5, 25) {
                let bomb = panics && r.chance(0.2);
                if bomb {
                    noise.bomb.store(noise.calls.load(Relaxed) + r.below(60) as u64 + 1, Relaxed);
                }
                let res = catch_unwind(AssertUnwindSafe(|| match r.below(9) {
                    0 | 1 => {
                        rw.insert(K::item(&mut r, spec, els));
                    }
                    2 | 3 => {
                        let n = r.range(0, cap);
                        rw.insert_batch((0..n).map(|_| K::item(&mut r, spec, els)).collect());
                    }
                    4 => {
                        rw.search(&K::query(&mut r, spec, els), 10, 10);
                    }
                    5 => {
                        let n = rw.len();
                        if n > 0 {
                            rw.get_element(r.below(n));
                        }
                    }
                    6 => {
                        let f = match r.below(3) {
                            0 => Fault::From(r.below(6), ErrorKind::Other),
                            1 => Fault::Full(r.below(4000)),
                            _ => Fault::Once(r.below(10), ErrorKind::WouldBlock),
                        };
                        let (mut a, mut b) = (Disk::new(Fault::None), Disk::new(Fault::None));
                        if r.chance(0.5) {
                            a.fault = f;
                        } else {
                            b.fault = f;
                        }
                        let _ = rw.write(&mut a, &mut b);
                    }
                    7 => {
                        let us = r.below(200) as u64;
                        let _ = rw.write(Slow(Disk::new(Fault::None), us), Slow(Disk::new(Fault::None), us));
                    }
                    _ => {
                        if panics {
                            let k = r.below(8);
                            if r.chance(0.5) {
                                let _ = rw.write(Bomb(k), Disk::new(Fault::None));
                            } else {
                                let _ = rw.write(Disk::new(Fault::None), Bomb(k));
                            }
                        } else if let Ok(()) = rw.save_index_and_elements_to_disk("/nonexistent-dir/i", "/nonexistent-dir/e") {
                            errors.lock().unwrap().push("saving into a missing directory succeeds".into());
                        }
                    }
                }));
                if let Err(p) = res {
                    let m = p.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| p.downcast_ref::<String>().cloned()).unwrap_or_default();
                    // only what the fault itself raised may come out, nothing that it left behind
                    if !panics || !m.contains("BOMB") {
                        errors.lock().unwrap().push(format!("an operation panicked: {}", m));
                    }
                }
                done.fetch_add(1, Relaxed);
            }
        }));
    }
    if workers > 0 {
        let p = rayon::ThreadPoolBuilder::new().num_threads(workers).build().expect("pool");
        p.scope(|s| {
            for a in acts {
                s.spawn(move |_| a());
            }
        });
    } else {
        std::thread::scope(|s| {
            for a in acts {
                s.spawn(a);
            }
        });
    }
    noise.bomb.store(0, Relaxed);
    c.count("operations_completed", done.load(Relaxed));
    if let Some(e) = errors.lock().unwrap().first() {
        return Err(e.clone());
    }
    // nothing is left locked: everything still completes
    let r = catch_unwind(AssertUnwindSafe(|| {
        rw.insert_batch((0..cap + 1).map(|_| K::item(&mut rng, &spec, &els)).collect());
        rw.search(&K::query(&mut rng, &spec, &els), 10, 10);
        let _ = rw.write(Disk::new(Fault::None), Disk::new(Fault::None));
        (rw.len(), rw.get_elements().len())
    }));
    match r {
        Ok((a, b)) => {
            ensure!(a == b, "len() is {} but {} elements are there", a, b);
            ensure!(a == cap, "{} elements after filling up to a capacity of {}", a, cap);
        }
        Err(_) => return Err("an operation panicked after failed ones".into()),
    }
    c.nontrivial(hash_bytes(c.desc.as_bytes()));
    Ok(())
}

pub trait HasNoise {
    fn noise(&self) -> Arc<Noise>;
}
impl<C> HasNoise for Mon<C> {
    fn noise(&self) -> Arc<Noise> {
        self.noise.clone()
    }
}

/// callers that are workers of the global pool, through parallel iterators and joins
fn global<K: Kind>(c: &mut Case) -> Res {
    use rayon::prelude::*;
    let mut rng = c.rng.fork();
    let cap = rng.range(10, 200);
    let pool = rng.range(1, 4);
    let mut cfg = Cfg::random(&mut rng);
    cfg.ms = cfg.ms.min(30);
    cfg.mult = *rng.pick(&[1.5, 2.0, 5.0]);
    c.note(format!("global {} cap={} pool={} {:?}", K::NAME, cap, pool, cfg));
    let spec = Spec::new(&mut rng, 3, Flavor::Uniform);
    let els = K::empty(&mut rng, &spec);
    let items: Vec<K::I> = (0..cap).map(|_| K::item(&mut rng, &spec, &els)).collect();
    let q = K::query(&mut rng, &spec, &els);
    let rw = RwGranneBuilder::new(GranneBuilder::new(cfg.build(), els), cap, pool);
    let step = rng.range(1, 30);
    let own = if rng.chance(0.5) { Some(rayon::ThreadPoolBuilder::new().num_threads(rng.range(1, 4)).build().expect("pool")) } else { None };
    let work = || {
        rayon::join(
            || items.par_chunks(step).for_each(|ch| {
                if ch.len() == 1 {
                    rw.insert(ch[0].clone());
                } else {
                    rw.insert_batch(ch.to_vec());
                }
            }),
            || (0..40usize).into_par_iter().for_each(|i| match i % 8 {
                0 => {
                    let _ = rw.write(Disk::new(Fault::None), Disk::new(Fault::None));
                }
                1 => {
                    rw.len();
                }
                _ => {
                    rw.search(&q, 10, 5);
                }
            }),
        );
    };
    no_panic("concurrent use", || match &own {
        Some(p) => p.install(work),
        None => work(),
    })?;
    ensure!(rw.len() == cap, "{} of {} elements inserted", rw.len(), cap);
    c.count("operations_completed", (items.len() / step + 40) as u64);
    c.nontrivial(hash_bytes(c.desc.as_bytes()));
    Ok(())
}

pub fn run(ctx: &Ctx) {
    ctx.rule("Mixed inserts, layer-spanning batches, searches, reads and saves by 2-10 callers (threads, workers of own and of the global rayon pool; internal pools of 1-8) with delays injected into pushes, distance calls and saves; saves that fail, are slow or panic, and pushes and distances that panic, followed by a full round of operations. A monitor outside the workload reports a deadlock when every thread is asleep without a single context switch for 20 s, and a runaway when 200 CPU seconds pass without any case completing. Non-trivial: at least two callers; distinct: different id assignment or plan.");
    let w = ctx.workers.min(4);
    fn m(c: &mut Case) -> Res {
        any_noisy_kind!(c.rng, mix_case, c)
    }
    fn f(c: &mut Case) -> Res {
        any_noisy_kind!(c.rng, faults, c)
    }
    fn g(c: &mut Case) -> Res {
        any_noisy_kind!(c.rng, global, c)
    }
    ctx.cases("mix", ctx.n(900, 20000), w, m);
    ctx.cases("faults", ctx.n(500, 10000), w, f);
    ctx.cases("global", ctx.n(500, 10000), w, g);
}
