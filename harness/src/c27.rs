//! C27: requests that make no sense are refused and change nothing.
use crate::any_kind;
use crate::elems::{permutation, written};
use crate::ensure;
use crate::gen::*;
use crate::graph::*;
use crate::kinds::*;
use crate::util::*;
use granne::embeddings::SumEmbeddings;
use granne::{angular, angular_int, BuildConfig, Builder, Dist, ElementContainer, ExtendableElementContainer, Granne, GranneBuilder, Index, Permutable, RwGranneBuilder, Writeable};
use ordered_float::NotNan;
use std::sync::atomic::{AtomicIsize, Ordering::SeqCst};
use std::sync::Arc;

/// an error or a panic of the library, nothing else
fn refused<T>(c: &Ctx, what: &str, f: impl FnOnce() -> Result<T, String>) -> Res {
    match catch(f) {
        Ok(Ok(_)) => Err(format!("{} is accepted", what)),
        Ok(Err(_)) | Err(Panicked::Lib(_)) => {
            c.count("refusals", 1);
            Ok(())
        }
        Err(Panicked::Harness(m)) => panic!("{}: {}", what, m),
    }
}

fn beyond(rng: &mut Rng, n: usize) -> usize {
    match rng.below(8) {
        0 | 1 => n,
        2 => n + 1,
        3 => n + rng.below(200),
        4 => u32::MAX as usize,
        5 => usize::MAX >> rng.below(20),
        // positions that wrap around
        _ => (1 << rng.range(24, 63)) + rng.below(n + 1),
    }
}

// ---------------------------------------------------------------- collections
macro_rules! dense {
    ($name:ident, $lib:ident, $s:ty, $gen:expr) => {
        fn $name(c: &mut Case) -> Res {
            let mut rng = c.rng.fork();
            let gen: fn(&mut Rng) -> $s = $gen;
            let dim = *rng.pick(&[1usize, 2, 3, 7, 16, 33, 100]);
            let n = *rng.pick(&[1usize, 2, 3, 10, 60]);
            let rows: Vec<Vec<$s>> = (0..n).map(|_| (0..dim).map(|_| gen(&mut rng)).collect()).collect();
            let flat: Vec<$s> = rows.iter().flatten().cloned().collect();
            let by = written(&$lib::Vectors::from_vec(flat.clone(), dim), "write")?;
            let d = Dir::new(c.ctx);
            let held: &'static [u8] = crate::kinds::leak_aligned(&by);
            std::fs::write(d.p("v"), &by).unwrap();
            let how = rng.below(4);
            let mut v: $lib::Vectors<'static> = match how {
                0 => $lib::Vectors::from_vec(flat.clone(), dim),
                1 => $lib::Vectors::from_bytes(held),
                2 => unsafe { $lib::Vectors::from_file(&std::fs::File::open(d.p("v")).unwrap()) }.unwrap(),
                _ => rows.iter().map(|r| $lib::Vector(r.clone().into())).collect(),
            };
            c.note(format!("{} n={} dim={} held as {}", stringify!($lib), n, dim, how));
            let other = |rng: &mut Rng| loop {
                let k = match rng.below(5) {
                    0 => dim + 1,
                    1 => dim - 1,
                    2 => dim * 2,
                    3 => 0,
                    _ => rng.range(1, 120),
                };
                if k != dim {
                    return k;
                }
            };
            for _ in 0..14 {
                let what = match rng.below(10) {
                    0 | 1 => {
                        let k = other(&mut rng);
                        let x = $lib::Vector((0..k).map(|_| gen(&mut rng)).collect::<Vec<$s>>().into());
                        let w = format!("pushing a vector of dimension {}", k);
                        if rng.chance(0.5) {
                            refused(c.ctx, &w, || Ok(v.push(&x)))?;
                        } else {
                            refused(c.ctx, &w, || Ok(ExtendableElementContainer::push(&mut v, x)))?;
                        }
                        w
                    }
                    2 => {
                        let k = other(&mut rng).max(1);
                        let k = if k == dim { k + 1 } else { k };
                        let m = rng.range(1, 5);
                        let x = $lib::Vectors::from_vec((0..m * k).map(|_| gen(&mut rng)).collect(), k);
                        let w = format!("extending by {} vectors of dimension {}", m, k);
                        refused(c.ctx, &w, || Ok(v.extend(x)))?;
                        w
                    }
                    3 => {
                        let i = beyond(&mut rng, n);
                        let w = format!("get_element({})", i);
                        refused(c.ctx, &w, || Ok(v.get_element(i).len()))?;
                        refused(c.ctx, &w, || Ok(drop(ElementContainer::get(&v, i))))?;
                        w
                    }
                    4 => {
                        let i = beyond(&mut rng, n);
                        let w = format!("dist(.., {})", i);
                        let q = v.get(0);
                        refused(c.ctx, &w, || Ok(v.dist(0, i)))?;
                        refused(c.ctx, &w, || Ok(v.dist(i, 0)))?;
                        refused(c.ctx, &w, || Ok(v.dists(0, &[0, i])))?;
                        refused(c.ctx, &w, || Ok(v.dist_to_element(i, &q)))?;
                        w
                    }
                    5 => {
                        let k = if rng.chance(0.5) { n + rng.range(1, 5) } else { rng.below(n) };
                        let p = permutation(&mut rng, k);
                        let w = format!("permuting by {} positions", k);
                        refused(c.ctx, &w, || Ok(v.permute(&p)))?;
                        w
                    }
                    6 => {
                        let m = rng.range(1, 50);
                        let x: Vec<$s> = (0..m).map(|_| gen(&mut rng)).collect();
                        let k = loop {
                            let k = rng.below(m + 3);
                            if k == 0 || m % k != 0 {
                                break k;
                            }
                        };
                        let w = format!("{} numbers as vectors of dimension {}", m, k);
                        refused(c.ctx, &w, || Ok($lib::Vectors::from_slice(&x, k).len()))?;
                        refused(c.ctx, &w, || Ok($lib::Vectors::from_vec(x.clone(), k).len()))?;
                        w
                    }
                    7 => {
                        // files whose contents do not divide into vectors
                        let size = std::mem::size_of::<$s>();
                        if dim * size == 1 {
                            continue;
                        }
                        let mut b = by.clone();
                        let cut = size * rng.range(1, dim.max(2) - 1);
                        if dim == 1 {
                            continue;
                        }
                        if rng.chance(0.5) {
                            b.truncate(b.len() - cut);
                        } else {
                            b.extend(vec![0u8; cut]);
                        }
                        let w = format!("{} bytes as vectors of dimension {}", b.len() - 8, dim);
                        refused(c.ctx, &w, || Ok($lib::Vectors::from_bytes(&b).len()))?;
                        std::fs::write(d.p("w"), &b).unwrap();
                        refused(c.ctx, &w, || unsafe { $lib::Vectors::from_file(&std::fs::File::open(d.p("w")).unwrap()) }.map(|x| x.len()).map_err(|e| e.to_string()))?;
                        w
                    }
                    8 => {
                        let b = &by[..rng.below(8)];
                        let w = format!("{} bytes as a collection", b.len());
                        refused(c.ctx, &w, || Ok($lib::Vectors::from_bytes(b).len()))?;
                        w
                    }
                    _ => {
                        // a collection that knows its dimension already although it is empty
                        let mut e = $lib::Vectors::new();
                        let k = other(&mut rng).max(1);
                        let k = if k == dim { k + 1 } else { k };
                        let a = $lib::Vector(rows[0].clone().into());
                        let b = $lib::Vector((0..k).map(|_| gen(&mut rng)).collect::<Vec<$s>>().into());
                        let w = format!("vectors of dimensions {} and {} in one collection", dim, k);
                        refused(c.ctx, &w, || Ok([a.clone(), b.clone()].iter().cloned().collect::<$lib::Vectors>().len()))?;
                        e.push(&a);
                        refused(c.ctx, &w, || Ok(e.push(&b)))?;
                        ensure!(e.len() == 1 && e.dim() == dim, "{}: {} of dimension {} after the refusal", w, e.len(), e.dim());
                        let how = rng.below(3);
                        let mut e: $lib::Vectors<'static> = match how {
                            0 => $lib::Vectors::from_vec(vec![], dim),
                            1 => $lib::Vectors::from_bytes(&held[..8]),
                            _ => {
                                std::fs::write(d.p("none"), &by[..8]).unwrap();
                                unsafe { $lib::Vectors::from_file(&std::fs::File::open(d.p("none")).unwrap()) }.unwrap()
                            }
                        };
                        let x = $lib::Vectors::from_vec(b.as_slice().to_vec(), k);
                        let w = format!("a vector of dimension {} for an empty collection of dimension {} held as {}", k, dim, how);
                        if rng.chance(0.5) {
                            refused(c.ctx, &w, || Ok(e.push(&b)))?;
                        } else {
                            refused(c.ctx, &w, || Ok(e.extend(x)))?;
                        }
                        ensure!(e.len() == 0 && e.dim() == dim, "{}: {} of dimension {} after the refusal", w, e.len(), e.dim());
                        e.push(&a);
                        ensure!(e.len() == 1 && e.get_element(0).as_slice() == &rows[0][..], "{}: a vector pushed after the refusal is not there", w);
                        w
                    }
                };
                ensure!(v.len() == n && v.dim() == dim && v.as_slice() == &flat[..], "{} was refused but changed the collection ({} vectors of dimension {} before, {} of {} now)", what, n, dim, v.len(), v.dim());
            }
            let x = $lib::Vector(rows[0].clone().into());
            no_panic("push after refusals", || v.push(&x))?;
            ensure!(v.len() == n + 1 && v.get_element(n).as_slice() == &rows[0][..], "a vector pushed after refusals is not there");
            ensure!(std::fs::read(d.p("v")).unwrap() == by, "the file was changed");
            c.nontrivial(hash_bytes(&by));
            Ok(())
        }
    };
}
dense!(floats, angular, f32, |r| r.sf());
dense!(ints, angular_int, i8, |r| r.next() as i8);

fn sums(c: &mut Case) -> Res {
    let mut rng = c.rng.fork();
    let (dim, words) = (rng.range(1, 20), rng.range(1, 30));
    let n = *rng.pick(&[1usize, 2, 10, 60]);
    c.note(format!("sums n={} dim={} words={}", n, dim, words));
    let mut s = SumEmbeddings::new();
    for _ in 0..words {
        let v: Vec<f32> = (0..dim).map(|_| rng.sf()).collect();
        s.push_embedding(&v);
    }
    let terms: Vec<Vec<usize>> = (0..n).map(|_| (0..rng.below(6)).map(|_| rng.below(words)).collect()).collect();
    for t in &terms {
        s.push(t);
    }
    let by = written(&s, "write")?;
    let mut em = Vec::new();
    s.write_embeddings(&mut em).unwrap();
    if rng.chance(0.4) {
        let held = leak_aligned(&by);
        let mut t = SumEmbeddings::from_bytes(Default::default(), held);
        let e = angular::Vectors::from_bytes(leak_aligned(&em));
        for i in 0..e.len() {
            t.push_embedding(e.get_element(i).as_slice());
        }
        s = t;
    }
    for _ in 0..14 {
        let what = match rng.below(7) {
            0 | 1 => {
                let mut t: Vec<usize> = (0..rng.below(4)).map(|_| rng.below(words)).collect();
                let id = (1usize << 24) + *rng.pick(&[0, 0, 1, words, 1 << 24, 1 << 32, 1 << 39]) + rng.below(words);
                t.insert(rng.below(t.len() + 1), id);
                let w = format!("pushing an element with term {}", id);
                if rng.chance(0.5) {
                    refused(c.ctx, &w, || Ok(s.push(&t)))?;
                } else {
                    refused(c.ctx, &w, || Ok(ExtendableElementContainer::push(&mut s, t)))?;
                }
                w
            }
            2 => {
                let k = *rng.pick(&[0, dim - 1, dim + 1, 2 * dim, dim + 7]);
                let w = format!("pushing an embedding of dimension {} after {}", k, dim);
                refused(c.ctx, &w, || Ok(s.push_embedding(&vec![0.5; k])))?;
                w
            }
            3 => {
                let i = beyond(&mut rng, n);
                let w = format!("terms, embedding or element {} of {}", i, n);
                refused(c.ctx, &w, || Ok(s.get_terms(i)))?;
                refused(c.ctx, &w, || Ok(s.get_embedding(i)))?;
                refused(c.ctx, &w, || Ok(s.get(i).len()))?;
                w
            }
            4 => {
                let mut t: Vec<usize> = (0..rng.below(4)).map(|_| rng.below(words)).collect();
                t.insert(rng.below(t.len() + 1), beyond(&mut rng, words));
                let w = format!("the embedding of terms {:?} of {}", t, words);
                refused(c.ctx, &w, || Ok(s.create_embedding(&t)))?;
                w
            }
            5 => {
                let k = if rng.chance(0.5) { n + rng.range(1, 5) } else { rng.below(n) };
                let p = permutation(&mut rng, k);
                let w = format!("permuting by {} positions", k);
                refused(c.ctx, &w, || Ok(s.permute(&p)))?;
                w
            }
            _ => {
                // an element with a word that is not there
                let mut x = s.clone();
                let bad = words + rng.below(50);
                x.push(&[0, bad]);
                let w = format!("the vector of an element with the unknown word {}", bad);
                refused(c.ctx, &w, || Ok(x.get(n).len()))?;
                let v: Vec<angular::Vector> = no_panic("get", || (0..n).map(|i| x.get(i)).collect())?;
                ensure!(v.len() == n, "");
                w
            }
        };
        ensure!(s.len() == n && s.num_embeddings() == words, "{} was refused but left {} elements of {} and {} embeddings of {}", what, s.len(), n, s.num_embeddings(), words);
        ensure!(written(&s, "write")? == by, "{} was refused but changed the elements", what);
        let mut e2 = Vec::new();
        s.write_embeddings(&mut e2).unwrap();
        ensure!(e2 == em, "{} was refused but changed the embeddings", what);
    }
    s.push(&[0]);
    ensure!(s.len() == n + 1 && s.get_terms(n) == vec![0], "an element pushed after refusals is not there");
    c.nontrivial(hash_bytes(&by));
    Ok(())
}

// ---------------------------------------------------------------- indexes and builders
fn ask<K: Kind, C: ElementContainer<Element = K::E>>(c: &Case, rng: &mut Rng, ix: &Granne<'_, C>) -> Res {
    let nl = ix.num_layers();
    let l = beyond(rng, nl);
    refused(c.ctx, &format!("layer_len({}) of {} layers", l, nl), || Ok(ix.layer_len(l)))?;
    refused(c.ctx, &format!("get_neighbors(0, {}) of {} layers", l, nl), || Ok(ix.get_neighbors(0, l)))?;
    for k in 0..nl {
        let n = ix.layer_len(k);
        let mut at = vec![beyond(rng, n)];
        // everything the last block of offsets could hold
        at.extend(n..n + 62);
        for i in at {
            refused(c.ctx, &format!("get_neighbors({}, {}) with {} nodes", i, k, n), || Ok(ix.get_neighbors(i, k)))?;
        }
    }
    let n = ix.get_elements().len();
    let i = beyond(rng, n);
    refused(c.ctx, &format!("get_element({}) of {}", i, n), || Ok(drop(ix.get_element(i))))
}

fn indexes<K: Kind>(c: &mut Case) -> Res {
    let mut rng = c.rng.fork();
    let o = Opt { partial: true, max: 260, ..Default::default() };
    let mut bt = built::<K>(&mut rng, &o)?;
    c.note(bt.desc.clone());
    let (n, total) = (bt.b.len(), bt.b.get_elements().len());
    let want = view(&bt.b);
    let by = index_bytes(&bt.b)?;
    let els: Vec<Vec<u8>> = (0..total).map(|i| K::read(bt.b.get_elements(), i)).collect();
    // the builder
    for _ in 0..3 {
        let k = match rng.below(4) {
            0 => total + 1,
            1 => total + rng.range(1, 1000),
            2 => usize::MAX,
            _ if n > 1 => rng.range(1, n - 1),
            _ => total + 1,
        };
        let w = format!("build_partial({}) with {} of {} indexed", k, n, total);
        refused(c.ctx, &w, || Ok(bt.b.build_partial(k)))?;
        ensure!(view(&bt.b) == want && bt.b.get_elements().len() == total, "{} was refused but changed the builder", w);
    }
    let nl = bt.b.num_layers();
    let l = beyond(&mut rng, nl);
    refused(c.ctx, &format!("builder.layer_len({}) of {} layers", l, nl), || Ok(bt.b.layer_len(l)))?;
    refused(c.ctx, &format!("builder.get_neighbors(0, {}) of {} layers", l, nl), || Ok(bt.b.get_neighbors(0, l)))?;
    for k in 0..nl {
        let m = bt.b.layer_len(k);
        let i = beyond(&mut rng, m);
        refused(c.ctx, &format!("builder.get_neighbors({}, {}) with {} nodes", i, k, m), || Ok(bt.b.get_neighbors(i, k)))?;
    }
    // indexes of all kinds
    let d = Dir::new(c.ctx);
    std::fs::write(d.p("index"), &by).unwrap();
    let fresh = |k: usize| -> Result<Granne<'_, K::C>, String> {
        let e = bt.b.get_elements().clone();
        Ok(match k {
            1 => Granne::from_bytes(&by, e),
            _ => unsafe { Granne::from_file(&std::fs::File::open(d.p("index")).unwrap(), e) }.map_err(|e| e.to_string())?,
        })
    };
    // an index that ends before its layers do
    if n > 0 {
        for _ in 0..4 {
            let at = match rng.below(4) {
                0 => by.len() - 1,
                1 => rng.below(1025.min(by.len())),
                2 => by.len() - 1 - rng.below(40.min(by.len())),
                _ => rng.below(by.len()),
            };
            let w = format!("an index of {} bytes without the last {}", by.len(), by.len() - at);
            let how = rng.below(3);
            if how == 1 {
                std::fs::write(d.p("cut"), &by[..at]).unwrap();
            }
            let e = bt.b.get_elements().clone();
            refused(c.ctx, &w, || match how {
                0 => Ok(Granne::from_bytes(&by[..at], e).len()),
                1 => unsafe { Granne::from_file(&std::fs::File::open(d.p("cut")).unwrap(), e) }.map(|ix| ix.len()).map_err(|e| e.to_string()),
                _ => Ok(GranneBuilder::from_bytes(bt.cfg.build(), &by[..at], e).len()),
            })?;
        }
    }
    let sets = {
        let mut v = want.clone();
        v.layers.iter_mut().flatten().for_each(|x| x.sort_unstable());
        v
    };
    for k in 1..3 {
        let mut ix = fresh(k)?;
        ask::<K, K::C>(c, &mut rng, &ix)?;
        // reordering by the wrong number of keys
        for _ in 0..2 {
            let m = loop {
                let m = rng.below(n + 20);
                if m != n {
                    break m;
                }
            };
            let keys: Vec<u64> = (0..m).map(|_| rng.next()).collect();
            let w = format!("reordering {} elements by {} keys", n, m);
            refused(c.ctx, &w, || Ok(ix.reorder_by_keys(&keys, false)))?;
            ensure!(set_view(&ix) == sets, "{} was refused but changed the index", w);
        }
        // more elements than the index has: there is no order for them
        if total > n {
            let w = format!("reordering an index of {} with {} elements", n, total);
            let auto = rng.chance(0.5);
            let keys: Vec<u64> = (0..n).map(|_| rng.next()).collect();
            let r = catch(|| if auto { ix.reorder(false) } else { ix.reorder_by_keys(&keys, false) });
            match r {
                Err(Panicked::Harness(m)) => panic!("{}", m),
                Err(Panicked::Lib(_)) => {
                    c.ctx.count("refusals", 1);
                    c.ctx.count("longer_collections", 1);
                    ensure!(set_view(&ix) == sets, "{} was refused but changed the links", w);
                    for i in 0..total {
                        ensure!(K::read(ix.get_elements(), i) == els[i], "{} was refused but changed element {}", w, i);
                    }
                }
                Ok(_) => {
                    // done all the same: then it must be a renaming (C09)
                    ensure!(ix.len() == n && ix.get_elements().len() == total, "{}: sizes {} {}", w, ix.len(), ix.get_elements().len());
                }
            }
        }
        ensure!(ix.get_elements().len() == total, "{} elements instead of {}", ix.get_elements().len(), total);
    }
    // what was refused did no harm
    no_panic("build", || bt.b.build())?;
    ensure!(bt.b.len() == total, "{} of {} elements after building", bt.b.len(), total);
    well_formed(&bt.b, total, bt.cfg.nn)?;
    c.nontrivial(hash_bytes(&by));
    Ok(())
}

/// wrong elements given to builders
fn builders(c: &mut Case) -> Res {
    let mut rng = c.rng.fork();
    let dim = rng.range(2, 20);
    let n = rng.range(1, 120);
    let nn = rng.range(2, 12);
    let threads = rng.range(1, 3);
    c.note(format!("builders n={} dim={} neighbors={} threads={}", n, dim, nn, threads));
    let vec = |rng: &mut Rng, k: usize| -> angular::Vector<'static> { (0..k).map(|_| rng.sf()).collect() };
    let cfg = BuildConfig::new().num_neighbors(nn).max_search(20).layer_multiplier(4.0);
    let els: angular::Vectors = (0..n).map(|_| vec(&mut rng, dim)).collect();
    let mut b = GranneBuilder::new(cfg, els);
    if rng.chance(0.7) {
        no_panic("build", || b.build())?;
    }
    let want = view(&b);
    let bad = |rng: &mut Rng| *rng.pick(&[0, dim - 1, dim + 1, 2 * dim]);
    for _ in 0..3 {
        let k = bad(&mut rng);
        let v = vec(&mut rng, k);
        refused(c.ctx, &format!("pushing a vector of dimension {} after {}", k, dim), || Ok(b.push(v)))?;
        ensure!(b.get_elements().len() == n && b.get_elements().dim() == dim && view(&b) == want, "a refused push changed the builder");
    }
    let v = vec(&mut rng, dim);
    no_panic("push", || b.push(v))?;
    no_panic("build", || b.build())?;
    well_formed(&b, n + 1, nn)?;
    // the concurrent one
    let cap = n + 1 + rng.range(1, 60);
    let rw = no_panic("RwGranneBuilder::new", || RwGranneBuilder::new(b, cap, threads))?;
    let mut count = n + 1;
    while count < cap {
        let k = bad(&mut rng);
        let v = vec(&mut rng, k);
        refused(c.ctx, &format!("inserting a vector of dimension {} after {}", k, dim), || Ok(rw.insert(v)))?;
        ensure!(rw.len() == count, "a refused insert left {} elements instead of {}", rw.len(), count);
        for _ in 0..rng.range(1, 20).min(cap - count) {
            let v = vec(&mut rng, dim);
            let got = no_panic("insert", || rw.insert(v.clone()))?;
            ensure!(got == Some(count), "insert after a refusal gives {:?} instead of {}", got, count);
            ensure!(rw.get_element(count).as_slice() == v.as_slice(), "the element inserted after a refusal is another one");
            count += 1;
        }
        let i = beyond(&mut rng, count);
        refused(c.ctx, &format!("get_element({}) of {}", i, count), || Ok(rw.get_element(i).len()))?;
    }
    let v = vec(&mut rng, dim);
    ensure!(no_panic("insert", || rw.insert(v))?.is_none() && rw.len() == cap, "a full builder takes another element");
    let (mut a, mut e) = (std::io::Cursor::new(Vec::new()), Vec::new());
    no_panic("write", || rw.write(&mut a, &mut e))?.map_err(|e| e.to_string())?;
    let a = a.into_inner();
    let ix = Granne::from_bytes(&a, angular::Vectors::from_bytes(&e));
    well_formed(&ix, cap, nn)?;
    c.nontrivial(hash_bytes(&a));
    Ok(())
}

/// not a number: no distance, no place
fn nan(c: &mut Case) -> Res {
    let mut rng = c.rng.fork();
    let dim = *rng.pick(&[1usize, 2, 3, 8, 15, 16, 17, 31, 32, 33, 64, 100]);
    let n = rng.range(2, 60);
    c.note(format!("nan n={} dim={}", n, dim));
    let spoil = |rng: &mut Rng| {
        let mut v: Vec<f32> = (0..dim).map(|_| rng.sf()).collect();
        let at = rng.below(dim);
        v[at] = *rng.pick(&[f32::NAN, -f32::NAN]);
        v
    };
    let good: Vec<angular::Vector> = (0..n).map(|_| (0..dim).map(|_| rng.sf()).collect()).collect();
    let bad = spoil(&mut rng);
    refused(c.ctx, "quantizing a vector with a component that is not a number", || Ok(angular_int::Vector::from(bad.clone()).len()))?;
    // normalized, or as it is
    let q = if rng.chance(0.5) { angular::Vector(bad.clone().into()) } else { angular::Vector::from(bad.clone()) };
    refused(c.ctx, "a distance to a vector that is not a number", || Ok(q.dist(&good[0])))?;
    refused(c.ctx, "a distance from a vector that is not a number", || Ok(good[0].dist(&q)))?;
    let mut b = GranneBuilder::new(BuildConfig::new().num_neighbors(5).max_search(10), good.iter().cloned().collect::<angular::Vectors>());
    no_panic("build", || b.build())?;
    let want = view(&b);
    refused(c.ctx, "searching for a vector that is not a number", || Ok(b.get_index().search(&q, 5, 3)))?;
    let r = no_panic("search", || b.get_index().search(&good[0], 5, 3))?;
    ensure!(!r.is_empty() && view(&b) == want, "an index gives {:?} after a refused search", r);
    b.push(q.clone());
    refused(c.ctx, "indexing a vector that is not a number", || Ok(b.build()))?;
    c.nontrivial(rng.seed());
    Ok(())
}

/// distances that fail after a while
#[derive(Clone)]
struct Brittle(angular::Vectors<'static>, Arc<AtomicIsize>);
impl ElementContainer for Brittle {
    type Element = angular::Vector<'static>;
    fn get(&self, i: usize) -> Self::Element {
        self.0.get(i)
    }
    fn len(&self) -> usize {
        self.0.len()
    }
    fn dist_to_element(&self, i: usize, e: &Self::Element) -> NotNan<f32> {
        if self.1.fetch_sub(1, SeqCst) == 0 {
            panic!("CONTRACT this distance fails");
        }
        self.0.dist_to_element(i, e)
    }
}
impl ExtendableElementContainer for Brittle {
    type InternalElement = angular::Vector<'static>;
    fn push(&mut self, e: Self::InternalElement) {
        ExtendableElementContainer::push(&mut self.0, e)
    }
}

/// a build stopped by the elements leaves a well-formed index and can be done again
fn stopped(c: &mut Case) -> Res {
    let mut rng = c.rng.fork();
    let n = rng.range(2, 300);
    let mut cfg = Cfg { expected: None, ..Cfg::random(&mut rng) };
    cfg.ms = cfg.ms.min(20);
    let t = *rng.pick(&[1, 1, 2, 4]);
    c.note(format!("stopped n={} threads={} {:?}", n, t, cfg));
    let spec = Spec::new(&mut rng, 5, Flavor::Uniform);
    let left = Arc::new(AtomicIsize::new(isize::MAX / 2));
    let mut b = GranneBuilder::new(cfg.build(), Brittle(fill::<F32>(&mut rng, &spec, n), left.clone()));
    for _ in 0..4 {
        let upto = rng.range(b.len().max(1), n);
        left.store(rng.below(40 * n) as isize, SeqCst);
        let r = in_pool(t, || catch(|| b.build_partial(upto)));
        left.store(isize::MAX / 2, SeqCst);
        let stopped = r.is_err();
        if let Err(Panicked::Harness(m)) = r {
            if !m.contains("this distance fails") {
                panic!("{}", m);
            }
        }
        c.ctx.count("builds_stopped", stopped as u64);
        let now = b.len();
        ensure!(stopped || now == upto, "build_partial({}) leaves {} indexed", upto, now);
        ensure!(b.get_elements().len() == n, "{} elements instead of {}", b.get_elements().len(), n);
        well_formed(&b, now, cfg.nn).map_err(|e| format!("after a build that was stopped: {}", e))?;
        // saved and loaded, it is the same
        let by = index_bytes(&b)?;
        let ix = Granne::from_bytes(&by, b.get_elements());
        ensure!(set_view(&ix) == set_view(&b), "an index stopped while building is saved as another one");
    }
    in_pool(t, || no_panic("build", || b.build()))?;
    well_formed(&b, n, cfg.nn)?;
    layer_law(&b, cfg.mult)?;
    for i in 0..n.min(20) {
        let r = no_panic("search", || b.get_index().search(&b.get_elements().get(i), 10, 5))?;
        valid_result(b.get_elements(), n, &b.get_elements().get(i), 10, 5, &r)?;
    }
    c.nontrivial(hash_bytes(&index_bytes(&b)?));
    Ok(())
}

/// the text tools
fn tools(c: &mut Case) -> Res {
    use granne::embeddings::parsing::*;
    let mut rng = c.rng.fork();
    let d = Dir::new(c.ctx);
    c.note("tools".into());
    std::fs::write(d.p("words"), "\"a\"\n\"b\"\n").unwrap();
    std::fs::write(d.p("text"), "\"a b\"\n\"b\"\n").unwrap();
    refused(c.ctx, "splitting into no shards", || Ok(parse_elements_and_save_shards_to_disk(&d.p("text"), &d.p("words"), &d.0, 0, false)))?;
    // elements that use words the embeddings do not have
    let dim = rng.range(1, 9);
    std::fs::write(d.p("emb"), crate::codec::encode_f32(&[(0..dim).map(|_| rng.sf()).collect::<Vec<f32>>()], dim)).unwrap();
    std::fs::write(d.p("el"), crate::codec::encode_terms(&[vec![0], vec![0, 1 + rng.below(1000)], vec![0]])).unwrap();
    refused(c.ctx, "precomputing vectors with unknown words", || Ok(compute_embeddings_and_save_to_disk(&d.p("el"), &d.p("emb"), &d.p("v"), false)))?;
    c.nontrivial(rng.seed());
    Ok(())
}

/// a collection that only counts
struct Counted(usize);
impl ElementContainer for Counted {
    type Element = usize;
    fn get(&self, i: usize) -> usize {
        i
    }
    fn len(&self) -> usize {
        self.0
    }
    fn dist_to_element(&self, i: usize, e: &usize) -> NotNan<f32> {
        NotNan::new((i as f32 - *e as f32).abs()).unwrap()
    }
}
impl ExtendableElementContainer for Counted {
    type InternalElement = usize;
    fn push(&mut self, _: usize) {
        self.0 += 1;
    }
}

/// more elements than ids
fn counted(c: &mut Case) -> Res {
    let rng = &mut c.rng;
    let most = u32::MAX as usize;
    let extra = match rng.below(4) {
        0 => 0,
        1 => 1,
        2 => rng.below(1 << 20),
        _ => (rng.range(1, 200) << 32) + rng.below(5000) - most,
    };
    let n = rng.range(1, 3000);
    let files: Vec<u8> = {
        let mut b = GranneBuilder::new(BuildConfig::new().num_neighbors(4).max_search(3), Counted(n.min(60)));
        no_panic("build", || b.build())?;
        let mut w = std::io::Cursor::new(Vec::new());
        b.write_index(&mut w).map_err(|e| e.to_string())?;
        w.into_inner()
    };
    c.note(format!("counted {} and {}", n, most + extra));
    refused(c.ctx, &format!("a builder for {} elements", most + extra), || Ok(GranneBuilder::new(BuildConfig::new(), Counted(most + extra))))?;
    refused(c.ctx, &format!("a loaded builder for {} elements", most + extra), || Ok(GranneBuilder::from_bytes(BuildConfig::new().num_neighbors(4), &files, Counted(most + extra))))?;
    let mut b = no_panic("GranneBuilder::new", || GranneBuilder::new(BuildConfig::new(), Counted(n)))?;
    no_panic("push", || b.push(0))?;
    ensure!(b.num_elements() == n + 1, "push does not add an element");
    // as many as there can be, then one too many
    let mut b = no_panic("GranneBuilder::new", || GranneBuilder::new(BuildConfig::new(), Counted(most - 3)))?;
    let mut have = most - 3;
    for _ in 0..6 {
        match catch(|| b.push(0)) {
            Ok(()) => have += 1,
            Err(Panicked::Lib(_)) => c.ctx.count("refusals", 1),
            Err(Panicked::Harness(m)) => panic!("{}", m),
        }
        ensure!(b.num_elements() == have, "a builder of {} elements has {} after a push", have, b.num_elements());
    }
    ensure!(have < most, "a builder takes {} elements, more than there are ids", have);
    let seed = c.rng.seed();
    c.nontrivial(seed);
    Ok(())
}

pub fn run(ctx: &Ctx) {
    ctx.rule("Requests outside the range of an object in any state: ids, layers and positions at and beyond the end, wrong dimensions, lengths that do not divide, wrong numbers of keys and positions, terms that do not fit the format, vectors that are not numbers, sizes below what is indexed or above what exists; each must end in an error or panic, after which the object is compared in full with what it was and used. Builds stopped by a failing distance at a random call must leave a well-formed index. Run with and without debug assertions. Non-trivial and distinct: different objects.");
    let w = ctx.workers;
    ctx.cases("floats", ctx.n(300, 6000), w, floats);
    ctx.cases("ints", ctx.n(300, 6000), w, ints);
    ctx.cases("sums", ctx.n(300, 6000), w, sums);
    ctx.cases("indexes", ctx.n(400, 6000), w, |c| any_kind!(c.rng, indexes, c));
    ctx.cases("builders", ctx.n(200, 3000), w, builders);
    ctx.cases("nan", ctx.n(200, 3000), w, nan);
    ctx.cases("stopped", ctx.n(300, 4000), w, stopped);
    ctx.cases("counted", ctx.n(40, 400), w, counted);
    ctx.cases("tools", ctx.n(10, 100), w, tools);
}
