//! C15: parallel and concurrent workloads for the race detector and the interpreter.
//! The threads share nothing but the library's objects: no clock, no log, no lock of the harness
//! orders them, so every missing synchronisation shows.
use crate::gen::*;
use crate::graph::*;
use crate::kinds::*;
use crate::util::*;
use crate::{any_kind, any_noisy_kind, ensure};
use granne::{angular, angular_int, Builder, ElementContainer, ExtendableElementContainer, Granne, GranneBuilder, Index, Permutable, RwGranneBuilder};
use std::io::Cursor;

fn small() -> bool {
    cfg!(miri)
}

fn cfg(rng: &mut Rng) -> Cfg {
    Cfg {
        nn: *rng.pick(&[1, 2, 3, 5, 10, 20]),
        ms: if small() { rng.range(1, 6) } else { *rng.pick(&[1, 5, 20, 50]) },
        mult: *rng.pick(&[1.5, 2.0, 3.0, 5.0, 15.0]),
        reinsert: rng.chance(0.5),
        expected: None,
        progress: false,
    }
}

fn delays(rng: &mut Rng) {
    #[cfg(feature = "shim")]
    parking_lot::shim::set(*rng.pick(&[0, 5, 20, 100, 1000]), rng.seed());
    let _ = rng;
}

/// every step of a parallel build
fn build<K: Kind>(c: &mut Case) -> Res {
    let rng = &mut c.rng;
    delays(rng);
    let dim = rng.range(1, 9);
    let spec = Spec::random(rng, dim);
    let mut cf = cfg(rng);
    let n = if small() { rng.range(2, 14) } else { *rng.pick(&[3, 10, 40, 150, 400, 800]) };
    if rng.chance(0.3) {
        cf.expected = Some(n);
    }
    cf.progress = !small() && rng.chance(0.3);
    let t = if small() { 2 } else { rng.range(2, 8) };
    c.note(format!("{} n={} dim={} {:?} {:?} threads={}", K::NAME, n, dim, spec.flavor, cf, t));
    let rng = &mut c.rng;
    let els = fill::<K>(rng, &spec, n);
    let mut b = GranneBuilder::new(cf.build(), els);
    let part = rng.range(0, n);
    let extra: Vec<K::I> = (0..rng.below(4)).map(|_| K::item(rng, &spec, b.get_elements())).collect();
    in_pool(t, || {
        no_panic("building", || {
            b.build_partial(part);
            b.build();
            for i in extra {
                b.push(i);
            }
            b.build();
        })
    })?;
    let n = b.num_elements();
    let f = well_formed(&b, n, cf.nn)?;
    c.count("links_made_in_parallel", f.edges as u64);
    c.nontrivial(hash_bytes(format!("{:?}", view(&b)).as_bytes()));
    Ok(())
}

/// one index, read by many threads and through every interface at once
fn read<K: Kind>(c: &mut Case) -> Res {
    let mut rng = c.rng.fork();
    let rng = &mut rng;
    delays(rng);
    let o = Opt { max: if small() { 12 } else { 200 }, threads: &[2], dims: &[1, 3, 8], ..Default::default() };
    let t = if small() {
        let spec = Spec::new(rng, 3, Flavor::Uniform);
        let cf = cfg(rng);
        let mut b = GranneBuilder::new(cf.build(), fill::<K>(rng, &spec, 8));
        in_pool(2, || no_panic("building", || b.build()))?;
        Built { b, cfg: cf, spec, desc: format!("{} n=8", K::NAME) }
    } else {
        built::<K>(rng, &o)?
    };
    c.note(t.desc.clone());
    let by = index_bytes(&t.b)?;
    let els = t.b.get_elements().clone();
    let n = t.b.len();
    let off = rng.below(8);
    let place = Shifted::new(&by, off);
    let loaded = no_panic("loading", || Granne::from_bytes(place.get(), &els))?;
    let own = no_panic("owning", || t.b.get_index().to_owned())?;
    let threads = if small() { 3 } else { rng.range(2, 6) };
    let ops = if small() { 3 } else { 30 };
    let mut rs: Vec<Rng> = (0..threads).map(|_| rng.fork()).collect();
    let (b, spec, loaded, own, els) = (&t.b, &t.spec, &loaded, &own, &els);
    let bad = std::thread::scope(|s| {
        let hs: Vec<_> = rs
            .iter_mut()
            .map(|r| {
                s.spawn(move || -> Res {
                    for _ in 0..ops {
                        match r.below(7) {
                            0 | 1 if n > 0 => {
                                let q = K::query(r, spec, els);
                                let (x, y) = (loaded.search(&q, 10, 5), own.search(&q, 10, 5));
                                ensure!(x.len() <= 5 && y.len() <= 5, "too many results");
                            }
                            2 if n > 0 => {
                                let (i, l) = (r.below(n), b.num_layers() - 1);
                                let (mut x, mut y) = (loaded.get_neighbors(i, l), b.get_neighbors(i, l));
                                x.sort_unstable();
                                y.sort_unstable();
                                ensure!(x == y, "neighbors of {} differ", i);
                            }
                            3 if n > 0 => {
                                let i = r.below(n);
                                ensure!(K::read(els, i) == K::read(own.get_elements(), i), "element {} differs", i);
                                let _ = b.get_index().search(&els.get(i), 5, 3);
                            }
                            4 => {
                                index_bytes(own)?;
                            }
                            5 => {
                                let mut copy = b.get_index().to_owned();
                                copy.reorder(false);
                            }
                            _ => {
                                let v: Vec<_> = own.get_elements().clone().iter_keys::<K>();
                                ensure!(v.len() == els.len(), "clone has another length");
                            }
                        }
                    }
                    Ok(())
                })
            })
            .collect();
        hs.into_iter().map(|h| join(h)).collect::<Vec<_>>()
    });
    for r in bad {
        r?;
    }
    c.count("concurrent_reads", (threads * ops) as u64);
    c.nontrivial(hash_bytes(&by) ^ off as u64);
    Ok(())
}

trait Keys {
    fn iter_keys<K: Kind<C = Self>>(&self) -> Vec<Vec<u8>>
    where
        Self: Sized;
}
impl<C: ElementContainer> Keys for C {
    fn iter_keys<K: Kind<C = Self>>(&self) -> Vec<Vec<u8>> {
        (0..self.len()).map(|i| K::read(self, i)).collect()
    }
}

/// the concurrent builder under everything at once
fn rw<K: Kind>(c: &mut Case) -> Res {
    let mut rng = c.rng.fork();
    let rng = &mut rng;
    delays(rng);
    let spec = Spec::random(rng, rng.clone().range(1, 6));
    let mut cf = cfg(rng);
    cf.mult = *rng.pick(&[1.5, 2.0, 3.0, 8.0]);
    let cap = if small() { rng.range(3, 12) } else { *rng.pick(&[5, 20, 80, 250]) };
    let pre = rng.below(cap / 2 + 1);
    let pool = rng.range(1, if small() { 2 } else { 4 });
    let actors = if small() { 3 } else { rng.range(3, 8) };
    let in_workers = rng.chance(0.25);
    let ops = if small() { 3 } else { rng.range(10, 60) };
    c.note(format!("{} cap={} prefill={} pool={} actors={} ops={} {} {:?} {:?}", K::NAME, cap, pre, pool, actors, ops, if in_workers { "pool workers" } else { "threads" }, spec.flavor, cf));
    let els = fill::<K>(rng, &spec, pre);
    let empty = K::empty(&mut rng.clone(), &spec);
    let _ = empty;
    let base = els.clone();
    let rw = no_panic("RwGranneBuilder::new", || RwGranneBuilder::new(GranneBuilder::new(cf.build(), els), cap, pool))?;
    let mut rs: Vec<Rng> = (0..actors).map(|_| rng.fork()).collect();
    let sets: Vec<Vec<K::I>> = rs.iter_mut().map(|r| (0..40).map(|_| K::item(r, &spec, &base)).collect()).collect();
    let act = |k: usize, mut r: Rng| -> Res {
        let mut last = 0;
        let items = &sets[k];
        // searchers and readers do not insert, so the only order between the threads is the library's
        let role = if k < 2 { 0 } else { r.below(4) };
        for _ in 0..ops {
            match (role, r.below(6)) {
                (0, 0..=2) => {
                    rw.insert(r.pick(items).clone());
                }
                (0, 3 | 4) => {
                    let m = r.below(if small() { 4 } else { 20 });
                    rw.insert_batch(items[..m].to_vec());
                }
                (3, 0 | 1) => {
                    let (mut a, mut e) = (Cursor::new(Vec::new()), Vec::new());
                    rw.write(&mut a, &mut e).map_err(|e| e.to_string())?;
                    let els = K::reload(&base, &e);
                    let ix = Granne::from_bytes(leak_aligned(a.get_ref()), els);
                    ensure!(ix.len() == ix.get_elements().len(), "snapshot of {} nodes and {} elements", ix.len(), ix.get_elements().len());
                }
                (_, 0 | 1 | 2) => {
                    let q = K::query(&mut r, &spec, &base);
                    let res = rw.search(&q, 10, 5);
                    ensure!(res.windows(2).all(|w| w[0].1 <= w[1].1), "unsorted result");
                }
                (_, 3) => {
                    let n = rw.len();
                    ensure!(n >= last, "length went from {} to {}", last, n);
                    last = n;
                    if n > 0 {
                        let i = if r.chance(0.5) { n - 1 } else { r.below(n) };
                        let _ = rw.get_element(i);
                        let _ = K::read(&rw.get_elements(), i);
                    }
                }
                (_, 4) => {
                    let snapshot = rw.get_elements().clone();
                    ensure!(snapshot.len() >= last, "elements went from {} to {}", last, snapshot.len());
                    let _ = snapshot.iter_keys::<K>();
                }
                _ => {
                    let _ = rw.is_empty();
                }
            }
        }
        Ok(())
    };
    let act = &act;
    let res = no_panic("concurrent use", || {
        if in_workers {
            let p = rayon::ThreadPoolBuilder::new().num_threads(if small() { 2 } else { 4 }).build().expect("pool");
            let out = std::sync::Mutex::new(Vec::new());
            p.scope(|s| {
                for (k, r) in rs.iter().cloned().enumerate() {
                    let out = &out;
                    s.spawn(move |_| {
                        let x = act(k, r);
                        out.lock().unwrap().push(x);
                    });
                }
            });
            out.into_inner().unwrap()
        } else {
            std::thread::scope(|s| {
                let hs: Vec<_> = rs.iter().cloned().enumerate().map(|(k, r)| s.spawn(move || act(k, r))).collect();
                hs.into_iter().map(|h| join(h)).collect::<Vec<_>>()
            })
        }
    })?;
    for r in res {
        r?;
    }
    let n = rw.len();
    ensure!(n <= cap.max(pre), "{} elements with a capacity of {}", n, cap);
    let (mut a, mut e) = (Cursor::new(Vec::new()), Vec::new());
    rw.write(&mut a, &mut e).map_err(|e| e.to_string())?;
    let ix = Granne::from_bytes(leak_aligned(a.get_ref()), K::reload(&base, &e));
    well_formed(&ix, n, cf.nn)?;
    c.count("concurrent_operations", (actors * ops) as u64);
    c.count("inserted", (n - pre) as u64);
    c.nontrivial(hash_bytes(a.get_ref()));
    Ok(())
}

/// collections that share storage, used and changed by different threads
fn share(c: &mut Case) -> Res {
    let mut rng = c.rng.fork();
    let rng = &mut rng;
    let dim = rng.range(1, 9);
    let spec = Spec::new(rng, dim, Flavor::Uniform);
    let n = if small() { 5 } else { rng.range(1, 60) };
    let threads = 3;
    let how = rng.below(4);
    c.note(format!("kind={} n={} dim={}", how, n, dim));
    macro_rules! dense {
        ($lib:ident, $k:ty) => {{
            let own = fill::<$k>(rng, &spec, n);
            let by = crate::elems::written(&own, "writing")?;
            let place = Shifted::new(&by, rng.below(8));
            let lent = $lib::Vectors::from_bytes(place.get());
            let items: Vec<_> = (0..3).map(|_| <$k>::item(rng, &spec, &own)).collect();
            let seeds: Vec<u64> = (0..threads).map(|_| rng.seed()).collect();
            let (own, lent, items) = (&own, &lent, &items);
            std::thread::scope(|s| {
                for (k, seed) in seeds.iter().enumerate() {
                    s.spawn(move || {
                        let mut r = Rng::new(*seed, "share", k as u64);
                        let mut mine = match r.below(4) {
                            0 => own.clone(),
                            1 => lent.borrow(),
                            2 => own.borrow(),
                            _ => lent.clone(),
                        };
                        for _ in 0..6 {
                            match r.below(4) {
                                0 => mine.push(r.pick(items)),
                                1 => {
                                    let mut p: Vec<usize> = (0..mine.len()).collect();
                                    r.shuffle(&mut p);
                                    mine.permute(&p);
                                }
                                2 => {
                                    let (i, j) = (r.below(n), r.below(n));
                                    let _ = (own.dist(i, j), lent.dist(i, j), mine.dist_to_element(i, &own.get(j)));
                                }
                                _ => {
                                    let more = own.borrow();
                                    mine.extend(more);
                                }
                            }
                        }
                        mine.len()
                    });
                }
            });
            by
        }};
    }
    let by = match how {
        0 => dense!(angular, F32),
        1 => dense!(angular_int, I8),
        _ => {
            let own = fill::<Sum>(rng, &spec, n);
            let by = crate::elems::written(&own, "writing")?;
            let seeds: Vec<u64> = (0..threads).map(|_| rng.seed()).collect();
            let own = &own;
            std::thread::scope(|s| {
                for (k, seed) in seeds.iter().enumerate() {
                    s.spawn(move || {
                        let mut r = Rng::new(*seed, "share", k as u64);
                        let mut mine = if r.chance(0.5) { own.clone() } else { own.borrow() };
                        for _ in 0..6 {
                            match r.below(4) {
                                0 => mine.push(&own.get_terms(r.below(n))),
                                1 => {
                                    let mut p: Vec<usize> = (0..mine.len()).collect();
                                    r.shuffle(&mut p);
                                    mine.permute(&p);
                                }
                                2 => {
                                    let (i, j) = (r.below(n), r.below(n));
                                    let _ = (own.dist(i, j), mine.dist_to_element(i, &own.get(j)));
                                }
                                _ => {
                                    let _ = mine.get_terms(r.below(mine.len()));
                                }
                            }
                        }
                    });
                }
            });
            by
        }
    };
    c.count("shared_collections", 1);
    c.nontrivial(hash_bytes(&by));
    Ok(())
}

/// parallel reordering and parsing, and the concurrent builder used from the global pool
fn pools<K: Kind>(c: &mut Case) -> Res {
    use rayon::prelude::*;
    let mut rng = c.rng.fork();
    let rng = &mut rng;
    delays(rng);
    let spec = Spec::new(rng, 3, Flavor::Uniform);
    let cf = cfg(rng);
    let n = if small() { 8 } else { rng.range(10, 150) };
    c.note(format!("{} n={} {:?}", K::NAME, n, cf));
    let els = K::empty(rng, &spec);
    let items: Vec<K::I> = (0..n).map(|_| K::item(rng, &spec, &els)).collect();
    let q = K::query(rng, &spec, &els);
    let rw = RwGranneBuilder::new(GranneBuilder::new(cf.build(), els.clone()), n, 2);
    no_panic("concurrent use", || {
        rayon::join(
            || {
                items.par_chunks(3).for_each(|ch| {
                    rw.insert_batch(ch.to_vec());
                })
            },
            || {
                (0..if small() { 2 } else { 20usize }).into_par_iter().for_each(|_| {
                    rw.search(&q, 10, 5);
                })
            },
        )
    })?;
    ensure!(rw.len() == n, "{} of {} inserted", rw.len(), n);
    let (mut a, mut e) = (Cursor::new(Vec::new()), Vec::new());
    rw.write(&mut a, &mut e).map_err(|e| e.to_string())?;
    let keys: Vec<u64> = (0..n).map(|_| rng.below(9) as u64).collect();
    let auto = rng.chance(0.5);
    let back = K::reload(&els, &e);
    in_pool(if small() { 2 } else { 4 }, || {
        no_panic("reordering", || {
            let mut ix = Granne::from_bytes(leak_aligned(a.get_ref()), back);
            if auto {
                ix.reorder(!small());
            } else {
                ix.reorder_by_keys(&keys, !small());
            }
            well_formed(&ix, n, cf.nn).map(|_| ())
        })
    })??;
    c.count("pool_rounds", 1);
    c.nontrivial(hash_bytes(a.get_ref()));
    Ok(())
}

fn text(c: &mut Case) -> Res {
    use granne::embeddings::parsing::*;
    let mut rng = c.rng.fork();
    let rng = &mut rng;
    delays(rng);
    let d = Dir::new(c.ctx);
    let ws = crate::c19::words(rng, 30);
    let wl: String = ws.iter().map(|w| format!("{}\n", serde_json::to_string(w).unwrap())).collect();
    std::fs::write(d.p("w"), wl).expect("write");
    let lines = rng.range(1, 400);
    let txt: String = (0..lines).map(|_| format!("{}\n", serde_json::to_string(&format!("{} {}", rng.pick(&ws), rng.pick(&ws))).unwrap())).collect();
    let parts = rng.chance(0.5);
    let src = d.p("t");
    if parts {
        std::fs::create_dir(&src).expect("dir");
        for i in 0..rng.range(1, 5) {
            std::fs::write(src.join(format!("p{}", i)), &txt).expect("write");
        }
    } else {
        std::fs::write(&src, &txt).expect("write");
    }
    c.note(format!("{} lines parts={}", lines, parts));
    let shards = rng.below(4);
    in_pool(4, || {
        no_panic("parsing", || {
            parse_elements_and_save_to_disk(&src, &d.p("w"), &d.p("o"), true);
            if shards > 0 {
                std::fs::create_dir_all(d.p("s")).expect("dir");
                parse_elements_and_save_shards_to_disk(&src, &d.p("w"), &d.p("s"), shards, true);
            }
            let v: Vec<f32> = (0..30 * 3).map(|i| i as f32 - 20.0).collect();
            let by: Vec<u8> = granne_embeddings(&v);
            std::fs::write(d.p("e"), by).expect("write");
            compute_embeddings_and_save_to_disk(&d.p("o"), &d.p("e"), &d.p("c"), true);
        })
    })?;
    c.count("parses", 1);
    c.nontrivial(hash_bytes(txt.as_bytes()));
    Ok(())
}

fn granne_embeddings(v: &[f32]) -> Vec<u8> {
    crate::codec::encode_f32(&v.chunks(3).map(|x| x.to_vec()).collect::<Vec<_>>(), 3)
}

pub fn run(ctx: &Ctx) {
    ctx.rule("Parallel builds (pools of 2-8), indexes read, searched, written, cloned and reordered by several threads at once, the concurrent builder under inserts, batches, searches, reads, element clones and snapshots from threads and pool workers, collections that share storage used and changed in different threads, parallel reordering and parsing. The threads are ordered by nothing but the library's own synchronisation; lock operations and distance calls are delayed at random. Violation: any report of the race detector, the sanitizer or the interpreter. Non-trivial: all; distinct: different resulting graph or bytes.");
    let k = |q: usize, t: usize| if small() { (ctx.n(q, t) / 40).max(1) } else { ctx.n(q, t) };
    let w = if small() { 1 } else { ctx.workers };
    fn b(c: &mut Case) -> Res {
        any_noisy_kind!(c.rng, build, c)
    }
    fn r(c: &mut Case) -> Res {
        any_kind!(c.rng, read, c)
    }
    fn x(c: &mut Case) -> Res {
        any_noisy_kind!(c.rng, rw, c)
    }
    fn p(c: &mut Case) -> Res {
        any_noisy_kind!(c.rng, pools, c)
    }
    ctx.cases("rw", k(200, 4000), w, x);
    ctx.cases("build", k(200, 4000), w, b);
    ctx.cases("pools", k(60, 1200), w, p);
    ctx.cases("share", k(200, 4000), w, share);
    ctx.cases("read", k(120, 2400), w, r);
    if !small() {
        ctx.cases("text", k(40, 400), w, text);
    }
}
