//! C08: hostile bytes and arguments. The deciding monitors are the sanitizer, the interpreter or the
//! standard library's precondition checks this is built with; a panic or an error is a fine outcome.
use crate::codec;
use crate::gen::*;
use crate::graph::*;
use crate::kinds::*;
use crate::util::*;
use granne::embeddings::SumEmbeddings;
use granne::{
    angular, angular_int, Builder, Dist, ElementContainer, ExtendableElementContainer, Granne, GranneBuilder, Index,
    Permutable, RwGranneBuilder, Writeable,
};
use ordered_float::NotNan;
use std::io::Cursor;

/// bytes at `off` modulo 16 with nothing allocated after them
pub struct Exact {
    b: Vec<u8>,
    off: usize,
}
impl Exact {
    pub fn new(bytes: &[u8], off: usize) -> Exact {
        let mut b = Vec::with_capacity(off + bytes.len());
        b.resize(off, 0x5a);
        b.extend_from_slice(bytes);
        Exact { b, off }
    }
    pub fn get(&self) -> &[u8] {
        &self.b[self.off..]
    }
}

/// counts how operations end
struct Ends {
    ok: u64,
    stopped: u64,
}

impl Ends {
    fn run<T>(&mut self, what: &str, f: impl FnOnce() -> T) -> Result<Option<T>, String> {
        match catch(f) {
            Ok(v) => {
                self.ok += 1;
                Ok(Some(v))
            }
            Err(Panicked::Lib(m)) => {
                // debug builds detect some of what would be undefined behaviour
                if m.contains("unsafe precondition") || m.contains("misaligned pointer") || m.contains("null pointer dereference") || m.contains("invalid value") {
                    return Err(format!("{}: {}", what, m));
                }
                self.stopped += 1;
                Ok(None)
            }
            Err(Panicked::Harness(m)) => std::panic::panic_any(format!("{}: {}", what, m)),
        }
    }
}

fn odd(rng: &mut Rng, n: usize) -> usize {
    match rng.below(10) {
        0 => n,
        1 => n + 1,
        2 => n.wrapping_sub(1),
        3 => usize::MAX,
        4 => usize::MAX / 2 + 1,
        5 => u32::MAX as usize,
        6 => n + rng.below(100),
        _ => rng.below(n.max(1)),
    }
}

fn number(rng: &mut Rng, v: u64) -> u64 {
    match rng.below(14) {
        0 => 0,
        1 => 1,
        2 => v.wrapping_add(1),
        3 => v.wrapping_sub(1),
        4 => u64::MAX,
        5 => u64::MAX - rng.below(200) as u64,
        6 => 1 << 63,
        7 => i64::MAX as u64,
        8 => v.wrapping_mul(2),
        9 => (u64::MAX / 8).wrapping_add(rng.below(3) as u64),
        10 => (u64::MAX / 5).wrapping_add(rng.below(3) as u64),
        11 => rng.next(),
        12 => 1u64 << rng.below(64),
        _ => rng.below(2000) as u64,
    }
}

/// changes of bytes at places that matter
fn mutate(rng: &mut Rng, b: &mut Vec<u8>, words: &[usize]) {
    for _ in 0..rng.range(1, 4) {
        let n = b.len();
        match rng.below(9) {
            0 => b.truncate(rng.below(n + 1)),
            1 if n > 0 => {
                let i = rng.below(n);
                b[i] = rng.next() as u8;
            }
            2 if n > 0 => {
                let i = rng.below(n);
                b[i] ^= 1 << rng.below(8);
            }
            3 | 4 if !words.is_empty() => {
                let at = *rng.pick(words);
                if at + 8 <= n {
                    let v = u64::from_le_bytes(b[at..at + 8].try_into().unwrap());
                    b[at..at + 8].copy_from_slice(&number(rng, v).to_le_bytes());
                }
            }
            5 if n > 0 => {
                let (i, k) = (rng.below(n), rng.range(1, 40));
                let fill = *rng.pick(&[0u8, 0xff, 0x80, 1]);
                for x in b[i..].iter_mut().take(k) {
                    *x = fill;
                }
            }
            6 if n > 1 => {
                let (i, k) = (rng.below(n), rng.range(1, 64));
                b.drain(i..(i + k).min(n));
            }
            7 => {
                let extra: Vec<u8> = (0..rng.range(1, 200)).map(|_| rng.next() as u8).collect();
                let i = rng.below(n + 1);
                b.splice(i..i, extra);
            }
            _ if n > 0 => {
                // copy one region over another
                let (i, j, k) = (rng.below(n), rng.below(n), rng.range(1, 64));
                let k = k.min(n - i).min(n - j);
                let t = b[i..i + k].to_vec();
                b[j..j + k].copy_from_slice(&t);
            }
            _ => {}
        }
    }
}

fn header(rng: &mut Rng, counts: &[u64], sizes: &[u64]) -> Vec<u8> {
    let n = counts.len();
    let mut s = format!(
        "granne{{\"compressed\":true,\"granne_version\":\"0.5.2\",\"layer_counts\":{:?},\"layer_sizes\":{:?},\"num_elements\":{},\"num_layers\":{},\"num_neighbors\":{},\"version\":2}}",
        counts,
        sizes,
        counts.last().unwrap_or(&0),
        n,
        rng.below(60)
    )
    .into_bytes();
    if rng.chance(0.1) {
        let k = rng.below(s.len());
        s.truncate(k);
    }
    s.resize(1024, b' ');
    s
}

/// index files: valid, mutated at every level, or made up
fn index_file(rng: &mut Rng, most: usize) -> Vec<u8> {
    let nl = rng.range(0, 4);
    let mut sizes: Vec<usize> = (0..nl).map(|_| rng.range(1, most)).collect();
    if rng.chance(0.8) {
        sizes.sort();
    }
    let wild = rng.chance(0.3);
    let layers: Vec<Vec<Vec<u32>>> = sizes
        .iter()
        .map(|&n| {
            (0..n)
                .map(|_| {
                    let k = if rng.chance(0.05) { rng.range(20, 255) } else { rng.below(12) };
                    let mut v: Vec<u32> = (0..k).map(|_| if wild && rng.chance(0.1) { rng.next() as u32 } else { rng.below(n) as u32 }).collect();
                    v.sort();
                    v.dedup();
                    v
                })
                .collect()
        })
        .collect();
    let mut body: Vec<Vec<u8>> = layers.iter().map(|l| codec::encode_layer(l)).collect();
    // inside the layers: offsets size, chunk starts, deltas, node counts
    if rng.chance(0.7) {
        for b in body.iter_mut() {
            if rng.chance(0.5) {
                let chunks = (b.len().saturating_sub(8) / 128).min(8);
                let mut words = vec![0usize];
                words.extend((0..chunks).map(|i| 8 + 128 * i));
                if rng.chance(0.4) && b.len() > 20 {
                    // one delta
                    let at = 8 + 8 + 2 * rng.below(60);
                    if at + 2 <= b.len() {
                        let v = *rng.pick(&[0u16, 1, 0xffff, 0xfffe, 0x8000, 300]);
                        b[at..at + 2].copy_from_slice(&v.to_le_bytes());
                    }
                } else {
                    mutate(rng, b, &words);
                }
            }
        }
    }
    let mut counts: Vec<u64> = layers.iter().map(|l| l.len() as u64).collect();
    let mut sz: Vec<u64> = body.iter().map(|b| b.len() as u64).collect();
    if rng.chance(0.3) {
        for v in counts.iter_mut().chain(sz.iter_mut()) {
            if rng.chance(0.3) {
                *v = number(rng, *v);
            }
        }
        if rng.chance(0.3) {
            sz.push(number(rng, 100));
        }
        if rng.chance(0.2) {
            counts.pop();
        }
    }
    let mut out = header(rng, &counts, &sz);
    for b in body {
        out.extend(b);
    }
    if rng.chance(0.25) {
        mutate(rng, &mut out, &[]);
    }
    if rng.chance(0.03) {
        out = (0..rng.below(2000)).map(|_| rng.next() as u8).collect();
    }
    out
}

fn permutation_like(rng: &mut Rng, n: usize) -> Vec<usize> {
    let mut p: Vec<usize> = (0..n).collect();
    rng.shuffle(&mut p);
    if rng.chance(0.5) && n > 0 {
        for _ in 0..rng.range(1, 3) {
            let i = rng.below(n);
            p[i] = odd(rng, n);
        }
    }
    if rng.chance(0.1) {
        p.pop();
    }
    p
}

/// everything the safe interface offers on an index, with any arguments
fn use_index<C>(rng: &mut Rng, e: &mut Ends, ix: &mut Granne<'_, C>, queries: &[C::Element]) -> Res
where
    C: ElementContainer + Permutable + Writeable + Sync,
{
    let ops = if cfg!(miri) { 4 } else { rng.range(3, 12) };
    for _ in 0..ops {
        match rng.below(9) {
            0 => {
                e.run("len", || (ix.len(), ix.num_layers()))?;
            }
            1 => {
                let nl = e.run("num_layers", || ix.num_layers())?.unwrap_or(0);
                let l = odd(rng, nl);
                let n = e.run("layer_len", || ix.layer_len(l))?.unwrap_or(3);
                for _ in 0..4 {
                    let i = odd(rng, n);
                    e.run("get_neighbors", || ix.get_neighbors(i, l))?;
                }
            }
            2 | 3 if !queries.is_empty() => {
                let q = rng.pick(queries);
                let (ms, k) = (*rng.pick(&[1, 2, 10, 200, 1000]), odd(rng, 10));
                e.run("search", || ix.search(q, ms, k))?;
                if rng.chance(0.05) {
                    e.run("search", || ix.search(q, 0, k))?;
                }
            }
            4 => {
                let r = e.run("write_index", || {
                    let mut c = Cursor::new(Vec::new());
                    ix.write_index(&mut c).map(|_| c.into_inner())
                })?;
                if let Some(Ok(b)) = r {
                    let b = Exact::new(&b, rng.below(16));
                    e.run("reading back", || Granne::from_bytes(b.get(), ix.get_elements()).len())?;
                }
            }
            5 => {
                e.run("reorder", || ix.reorder(false))?;
            }
            6 => {
                let n = e.run("len", || ix.len())?.unwrap_or(0).min(100_000);
                let keys: Vec<u8> = (0..if rng.chance(0.8) { n } else { rng.below(n + 5) }).map(|_| rng.next() as u8).collect();
                e.run("reorder_by_keys", || ix.reorder_by_keys(&keys, false))?;
            }
            7 => {
                let n = e.run("elements", || ix.get_elements().len())?.unwrap_or(0);
                let i = odd(rng, n);
                e.run("get_element", || ix.get_element(i))?;
            }
            _ => {
                e.run("write_elements", || ix.write_elements(&mut Vec::new()))?;
            }
        }
    }
    Ok(())
}

fn use_builder<C>(rng: &mut Rng, e: &mut Ends, b: &mut GranneBuilder<C>, queries: &[C::Element], items: &[C::InternalElement]) -> Res
where
    C: ExtendableElementContainer + Writeable + Sync + Clone + Send,
    C::InternalElement: Clone,
{
    let ops = if cfg!(miri) { 3 } else { rng.range(2, 8) };
    for _ in 0..ops {
        match rng.below(7) {
            0 => {
                e.run("build", || b.build())?;
            }
            1 => {
                let n = b.num_elements();
                let k = odd(rng, n);
                e.run("build_partial", || b.build_partial(k))?;
            }
            2 if !items.is_empty() => {
                let it = rng.pick(items).clone();
                e.run("push", || b.push(it))?;
            }
            3 if !queries.is_empty() => {
                let q = rng.pick(queries);
                let ms = *rng.pick(&[1, 5, 100]);
                e.run("search", || b.get_index().search(q, ms, 10))?;
            }
            4 => {
                let nl = e.run("num_layers", || b.num_layers())?.unwrap_or(0);
                let l = odd(rng, nl);
                let n = e.run("layer_len", || b.layer_len(l))?.unwrap_or(2);
                let i = odd(rng, n);
                e.run("get_neighbors", || b.get_neighbors(i, l))?;
            }
            5 => {
                e.run("write_index", || b.write_index(&mut Cursor::new(Vec::new())))?;
            }
            _ => {
                e.run("write_elements", || b.write_elements(&mut Vec::new()))?;
            }
        }
    }
    Ok(())
}

fn use_rw<C>(rng: &mut Rng, e: &mut Ends, b: GranneBuilder<C>, queries: &[C::Element], items: &[C::InternalElement]) -> Res
where
    C: ExtendableElementContainer + Writeable + Sync + Send + Clone,
    C::InternalElement: Clone,
{
    if cfg!(miri) {
        // the lock-free reads of the concurrent builder are outside the aliasing model; see C15
        return Ok(());
    }
    let cap = match rng.below(4) {
        0 => 0,
        1 => b.num_elements(),
        _ => b.num_elements() + rng.below(60),
    };
    let t = rng.range(1, 3);
    let rw = match e.run("RwGranneBuilder::new", || RwGranneBuilder::new(b, cap, t))? {
        Some(rw) => rw,
        None => return Ok(()),
    };
    for _ in 0..rng.range(2, 7) {
        match rng.below(5) {
            0 | 1 if !items.is_empty() => {
                let k = rng.range(1, 8);
                let v: Vec<_> = (0..k).map(|_| rng.pick(items).clone()).collect();
                e.run("insert_batch", || rw.insert_batch(v))?;
            }
            2 if !queries.is_empty() => {
                let q = rng.pick(queries);
                e.run("rw search", || rw.search(q, 20, 10))?;
            }
            3 => {
                let n = rw.len();
                let i = odd(rng, n);
                e.run("rw get_element", || rw.get_element(i))?;
            }
            _ => {
                e.run("rw write", || rw.write(Cursor::new(Vec::new()), Vec::new()))?;
            }
        }
    }
    Ok(())
}

fn cfg_for(rng: &mut Rng) -> Cfg {
    let mut c = Cfg::random(rng);
    if rng.chance(0.1) {
        c.nn = *rng.pick(&[0, 1, 254, 255, 256]);
    }
    if rng.chance(0.2) {
        c.expected = Some(*rng.pick(&[0, 1, 50, 2000]));
    }
    c.ms = c.ms.min(50);
    c
}

/// index bytes with a collection that may not fit
fn index_case<K: Kind>(c: &mut Case) -> Res {
    let rng = &mut c.rng;
    let most = if cfg!(miri) { 8 } else { *rng.pick(&[5, 70, 200]) };
    let bytes = index_file(rng, most);
    let off = rng.below(16);
    let buf = Exact::new(&bytes, off);
    let dim = rng.range(1, 9);
    let flavor = *rng.pick(&[Flavor::Uniform, Flavor::Dups, Flavor::Zeros]);
    let spec = Spec::new(rng, dim, flavor);
    let n = rng.below(most + if cfg!(miri) { 6 } else { 20 });
    let els = fill::<K>(rng, &spec, n);
    let odd_dim = rng.range(1, 40);
    let spec2 = Spec::new(rng, odd_dim, Flavor::Uniform);
    let other = fill::<K>(rng, &spec2, 2);
    let mut queries: Vec<K::E> = (0..3).map(|_| K::query(rng, &spec, &els)).collect();
    queries.push(other.get(0));
    let mut items: Vec<K::I> = (0..3).map(|_| K::item(rng, &spec, &els)).collect();
    items.push(K::item(rng, &spec2, &other));
    let what = rng.below(4);
    c.note(format!("{} {} bytes at {} with {} elements of dim {}, use {}", K::NAME, bytes.len(), off, n, dim, what));
    c.nontrivial(hash_bytes(&bytes));
    let rng = &mut c.rng;
    let mut e = Ends { ok: 0, stopped: 0 };
    let mut loaded = 0;
    match what {
        0 | 1 => {
            if let Some(mut ix) = e.run("Granne::from_bytes", || Granne::from_bytes(buf.get(), els.clone()))? {
                loaded = 1;
                use_index(rng, &mut e, &mut ix, &queries)?;
            }
        }
        _ => {
            let cfg = cfg_for(rng);
            let b = if what == 2 || cfg!(miri) {
                e.run("GranneBuilder::from_bytes", || GranneBuilder::from_bytes(cfg.build(), buf.get(), els.clone()))?
            } else {
                let f = temp_file(c.ctx, &bytes);
                e.run("GranneBuilder::from_file", || GranneBuilder::from_file(cfg.build(), &f, els.clone()).ok())?.flatten()
            };
            if let Some(mut b) = b {
                loaded = 1;
                use_builder(rng, &mut e, &mut b, &queries, &items)?;
                if rng.chance(0.4) {
                    use_rw(rng, &mut e, b, &queries, &items)?;
                }
            }
        }
    }
    c.ctx.count("index_files", 1);
    c.ctx.count("index_files_accepted", loaded);
    c.ctx.count("operations_completed", e.ok);
    c.ctx.count("operations_stopped", e.stopped);
    Ok(())
}

macro_rules! dense_case {
    ($name:ident, $lib:ident, $enc:path, $s:ty, $scalar:expr) => {
        fn $name(c: &mut Case) -> Res {
            let rng = &mut c.rng;
            let dim = rng.range(1, 40);
            let n = rng.below(12);
            let sc: fn(&mut Rng) -> $s = $scalar;
            let vs: Vec<Vec<$s>> = (0..n).map(|_| (0..dim).map(|_| sc(rng)).collect()).collect();
            let mut bytes = $enc(&vs, dim);
            if rng.chance(0.9) {
                mutate(rng, &mut bytes, &[0]);
            }
            let off = rng.below(16);
            c.note(format!("{} {} bytes at {}", stringify!($lib), bytes.len(), off));
            c.nontrivial(hash_bytes(&bytes));
            let rng = &mut c.rng;
            let buf = Exact::new(&bytes, off);
            let mut e = Ends { ok: 0, stopped: 0 };
            let plain = if rng.chance(0.1) {
                let d = odd(rng, dim);
                let flat: Vec<$s> = (0..rng.below(100)).map(|_| sc(rng)).collect();
                e.run("from_vec", || $lib::Vectors::from_vec(flat, d))?
            } else {
                e.run("from_bytes", || $lib::Vectors::from_bytes(buf.get()))?
            };
            let mut v = match plain {
                Some(v) => v,
                None => {
                    c.ctx.count("operations_stopped", e.stopped);
                    return Ok(());
                }
            };
            c.ctx.count("collections_accepted", 1);
            let mut old = Vec::new();
            for _ in 0..if cfg!(miri) { 8 } else { 25 } {
                let n = e.run("len", || v.len())?.unwrap_or(0);
                let w = e.run("dim", || v.dim())?.unwrap_or(0);
                let (i, j) = (odd(rng, n), odd(rng, n));
                let probe: Vec<f32> = (0..if rng.chance(0.6) { w.min(1000) } else { rng.below(80) }).map(|_| rng.sf()).collect();
                let probe = $lib::Vector::from(probe);
                match rng.below(14) {
                    0 => {
                        e.run("get_element", || v.get_element(i).into_vec().iter().map(|x| *x as f64).sum::<f64>())?;
                    }
                    1 => {
                        e.run("get", || ElementContainer::get(&v, i).as_slice().to_vec())?;
                    }
                    2 => {
                        e.run("dist", || ElementContainer::dist(&v, i, j))?;
                    }
                    3 => {
                        let o: Vec<usize> = (0..rng.below(6)).map(|_| odd(rng, n)).collect();
                        e.run("dists", || v.dists(i, &o))?;
                    }
                    4 | 5 => {
                        e.run("dist_to_element", || v.dist_to_element(i, &probe))?;
                        e.run("dist of vectors", || probe.dist(&v.get_element(i)))?;
                    }
                    6 => {
                        e.run("push", || v.push(&probe))?;
                    }
                    7 => {
                        let o = e.run("clone", || v.clone())?;
                        if let Some(o) = o {
                            let mut t = v.clone();
                            e.run("extend", || t.extend(o))?;
                            if rng.chance(0.5) && t.len() < 200 {
                                v = t;
                            }
                        }
                    }
                    8 => {
                        let o: $lib::Vectors = (0..rng.below(3)).map(|_| $lib::Vector::from(vec![0.5f32; rng.range(1, 1)])).collect();
                        e.run("extend", || v.extend(o))?;
                    }
                    9 | 10 => {
                        let p = permutation_like(rng, n.min(10_000));
                        e.run("permute", || v.permute(&p))?;
                    }
                    11 => {
                        if let Some(Ok(b)) = e.run("write", || {
                            let mut o = Vec::new();
                            v.write(&mut o).map(|_| o)
                        })? {
                            let b = Exact::new(&b, rng.below(16));
                            e.run("reading back", || $lib::Vectors::from_bytes(b.get()).len())?;
                        }
                    }
                    12 => {
                        e.run("as_slice", || v.borrow().as_slice().iter().map(|x| *x as f64).sum::<f64>())?;
                    }
                    _ => {
                        let t = v.clone();
                        if old.len() < 3 {
                            old.push(t.clone());
                        }
                        e.run("into_owned", || t.into_owned().len())?;
                    }
                }
            }
            // whatever happened, it can still be indexed or refused
            if v.len() <= 60 && v.dim() <= 200 {
                let cfg = cfg_for(rng);
                let mut b = match e.run("GranneBuilder::new", || GranneBuilder::new(cfg.build(), v.clone()))? {
                    Some(b) => b,
                    None => return Ok(()),
                };
                let probe = $lib::Vector::from(vec![0.1f32; v.dim()]);
                use_builder(rng, &mut e, &mut b, &[probe.clone()], &[probe])?;
            }
            for o in old {
                e.run("old clone", || o.as_slice().iter().map(|x| *x as f64).sum::<f64>())?;
            }
            c.ctx.count("operations_completed", e.ok);
            c.ctx.count("operations_stopped", e.stopped);
            Ok(())
        }
    };
}
dense_case!(angular_case, angular, codec::encode_f32, f32, |r: &mut Rng| if r.chance(0.02) { f32::from_bits(r.next() as u32) } else { r.sf() });
dense_case!(angular_int_case, angular_int, codec::encode_i8, i8, |r: &mut Rng| r.next() as i8);

fn sum_case(c: &mut Case) -> Res {
    let rng = &mut c.rng;
    let (dim, words) = (rng.range(1, 20), rng.below(30));
    let n = rng.below(12);
    let terms: Vec<Vec<usize>> = (0..n)
        .map(|_| (0..rng.below(6)).map(|_| if rng.chance(0.05) { rng.below(1 << 24) } else { rng.below(words.max(1)) }).collect())
        .collect();
    let mut bytes = codec::encode_terms(&terms);
    if rng.chance(0.9) {
        mutate(rng, &mut bytes, &[0, 0, 0]);
        if rng.chance(0.3) && bytes.len() > 18 {
            // one offset
            let at = 8 + 5 * rng.below((bytes.len() - 13) / 5);
            let v = number(rng, 3).to_le_bytes();
            bytes[at..at + 5].copy_from_slice(&v[..5]);
        }
    }
    let off = rng.below(16);
    c.note(format!("terms {} bytes at {} words={} dim={}", bytes.len(), off, words, dim));
    c.nontrivial(hash_bytes(&bytes));
    let rng = &mut c.rng;
    let buf = Exact::new(&bytes, off);
    let mut e = Ends { ok: 0, stopped: 0 };
    let mut s = match e.run("from_bytes", || SumEmbeddings::from_bytes(Default::default(), buf.get()))? {
        Some(s) => s,
        None => return Ok(()),
    };
    c.ctx.count("collections_accepted", 1);
    for _ in 0..words {
        let v: Vec<f32> = (0..dim).map(|_| rng.sf()).collect();
        e.run("push_embedding", || s.push_embedding(&v))?;
    }
    for _ in 0..if cfg!(miri) { 8 } else { 25 } {
        let n = e.run("len", || s.len())?.unwrap_or(0);
        let (i, j) = (odd(rng, n), odd(rng, n));
        match rng.below(13) {
            0 => {
                e.run("get_terms", || s.get_terms(i))?;
            }
            1 => {
                e.run("get_embedding", || s.get_embedding(i))?;
            }
            2 => {
                let t: Vec<usize> = (0..rng.below(5)).map(|_| odd(rng, words)).collect();
                e.run("create_embedding", || s.create_embedding(&t))?;
            }
            3 => {
                e.run("dist", || s.dist(i, j))?;
            }
            4 => {
                let o: Vec<usize> = (0..rng.below(4)).map(|_| odd(rng, n)).collect();
                e.run("dists", || s.dists(i, &o))?;
            }
            5 => {
                let t: Vec<usize> = (0..rng.below(5)).map(|_| odd(rng, words)).collect();
                e.run("push", || s.push(t))?;
            }
            6 => {
                let d = if rng.chance(0.5) { dim } else { rng.below(9) };
                e.run("push_embedding", || s.push_embedding(&vec![0.25; d]))?;
            }
            7 | 8 => {
                if n < 100_000 {
                    let p = permutation_like(rng, n);
                    e.run("permute", || s.permute(&p))?;
                }
            }
            9 => {
                e.run("write", || (s.write(&mut Vec::new()).is_ok(), s.write_embeddings(&mut Vec::new()).is_ok()))?;
            }
            10 => {
                e.run("borrow", || s.borrow().len())?;
                e.run("clone", || s.clone().len())?;
            }
            11 => {
                let d = rng.range(1, 30);
                let q = angular::Vector::from(vec![0.5f32; d]);
                e.run("dist_to_element", || s.dist_to_element(i, &q))?;
            }
            _ => {
                e.run("keys", || granne::embeddings::compute_keys_for_reordering(&s))?;
            }
        }
    }
    let n = e.run("len", || s.len())?.unwrap_or(0);
    if n <= 60 {
        let cfg = cfg_for(rng);
        if let Some(mut b) = e.run("GranneBuilder::new", || GranneBuilder::new(cfg.build(), s.clone()))? {
            let q = angular::Vector::from(vec![0.5f32; dim]);
            use_builder(rng, &mut e, &mut b, &[q], &[vec![0], vec![words + 3]])?;
        }
    }
    c.ctx.count("operations_completed", e.ok);
    c.ctx.count("operations_stopped", e.stopped);
    Ok(())
}

// ---------------------------------------------------------------- a lying collection
/// A safe user-defined collection that breaks every promise it can break.
#[derive(Clone)]
struct Liar {
    n: usize,
    seed: u64,
    how: usize,
}
#[derive(Clone)]
struct Lie(u64);

impl ElementContainer for Liar {
    type Element = Lie;
    fn get(&self, i: usize) -> Lie {
        if self.how == 0 && i >= self.n {
            panic!("CONTRACT: no such element");
        }
        Lie(mix(self.seed ^ i as u64))
    }
    fn len(&self) -> usize {
        if self.how == 1 {
            // changes from call to call
            use std::sync::atomic::*;
            static T: AtomicU64 = AtomicU64::new(0);
            return (mix(T.fetch_add(1, Ordering::Relaxed)) as usize) % (self.n + 5);
        }
        self.n
    }
    fn dist_to_element(&self, i: usize, e: &Lie) -> NotNan<f32> {
        let r = mix(e.0 ^ mix(self.seed ^ i as u64));
        let v = match self.how {
            2 => -((r % 100) as f32),
            3 => f32::INFINITY,
            4 => [0.0, -0.0, f32::MAX, f32::MIN, 1e-40, f32::INFINITY, f32::NEG_INFINITY][(r % 7) as usize],
            _ => (r % 1000) as f32 / 1000.0,
        };
        NotNan::new(v).unwrap()
    }
    fn dist(&self, i: usize, j: usize) -> NotNan<f32> {
        if i == j && self.how != 5 {
            return NotNan::new(0.0).unwrap();
        }
        self.dist_to_element(i, &self.get(j))
    }
    fn dists(&self, i: usize, o: &[usize]) -> Vec<NotNan<f32>> {
        let mut v: Vec<_> = o.iter().map(|&j| self.dist(i, j)).collect();
        match self.how {
            6 => v.truncate(v.len() / 2),
            7 => v.extend(vec![NotNan::new(0.5).unwrap(); 40]),
            _ => {}
        }
        v
    }
}
impl ExtendableElementContainer for Liar {
    type InternalElement = u8;
    fn push(&mut self, _: u8) {
        match self.how {
            8 => {}
            9 => self.n += 3,
            _ => self.n += 1,
        }
    }
}
impl Permutable for Liar {
    fn permute(&mut self, _: &[usize]) {
        self.seed += 1;
    }
}
impl Writeable for Liar {
    fn write<B: std::io::Write>(&self, _: &mut B) -> std::io::Result<usize> {
        Ok(usize::MAX)
    }
}

fn liar_case(c: &mut Case) -> Res {
    let rng = &mut c.rng;
    let l = Liar { n: rng.below(if cfg!(miri) { 12 } else { 150 }), seed: rng.seed(), how: rng.below(10) };
    let cfg = cfg_for(rng);
    c.note(format!("lie {} n={} {:?}", l.how, l.n, cfg));
    c.nontrivial(l.seed);
    let rng = &mut c.rng;
    let mut e = Ends { ok: 0, stopped: 0 };
    let queries = vec![Lie(rng.next()), Lie(rng.next())];
    if let Some(mut b) = e.run("new", || GranneBuilder::new(cfg.build(), l.clone()))? {
        use_builder(rng, &mut e, &mut b, &queries, &[0, 1])?;
        if let Some(Ok(by)) = e.run("write_index", || {
            let mut k = Cursor::new(Vec::new());
            b.write_index(&mut k).map(|_| k.into_inner())
        })? {
            let by = Exact::new(&by, rng.below(16));
            if let Some(mut ix) = e.run("load", || Granne::from_bytes(by.get(), l.clone()))? {
                use_index(rng, &mut e, &mut ix, &queries)?;
            }
        }
        use_rw(rng, &mut e, b, &queries, &[0, 1])?;
    }
    c.ctx.count("operations_completed", e.ok);
    c.ctx.count("operations_stopped", e.stopped);
    Ok(())
}

/// hostile word lists, texts and binary inputs of the text tools
fn text_case(c: &mut Case) -> Res {
    use granne::embeddings::parsing::*;
    let mut rng = c.rng.fork();
    let d = Dir::new(c.ctx);
    let junk = |rng: &mut Rng, base: &str| -> Vec<u8> {
        let mut b = base.as_bytes().to_vec();
        mutate(rng, &mut b, &[]);
        b
    };
    let w = junk(&mut rng, "\"a\"\n\"b\"\n\"c d\"\n\"\\u00e9\"\n");
    let t = junk(&mut rng, "\"a b c\"\n\"x: b b\"\n\"\\ud83d\\ude00 a\"\n");
    let (wp, tp, op) = (d.p("w"), d.p(*rng.pick(&["t", "t.gz"])), d.p("o"));
    std::fs::write(&wp, &w).expect("write");
    std::fs::write(&tp, &t).expect("write");
    c.note(format!("{} and {} bytes", w.len(), t.len()));
    c.nontrivial(hash_bytes(&w) ^ hash_bytes(&t));
    let mut e = Ends { ok: 0, stopped: 0 };
    e.run("parse", || parse_elements_and_save_to_disk(&tp, &wp, &op, false))?;
    let k = odd(&mut rng, 3).min(50);
    e.run("parse shards", || parse_elements_and_save_shards_to_disk(&tp, &wp, &op, k, false))?;
    let mut el = codec::encode_terms(&[vec![0, 1], vec![], vec![2, 2]]);
    let mut em = codec::encode_f32(&[vec![0.5, 1.0], vec![0.0, 0.0], vec![1.0, -1.0]], 2);
    mutate(&mut rng, &mut el, &[0]);
    mutate(&mut rng, &mut em, &[0]);
    let (ep, mp) = (d.p("el"), d.p("em"));
    std::fs::write(&ep, &el).expect("write");
    std::fs::write(&mp, &em).expect("write");
    e.run("compute", || compute_embeddings_and_save_to_disk(&ep, &mp, &op, false))?;
    c.ctx.count("operations_completed", e.ok);
    c.ctx.count("operations_stopped", e.stopped);
    Ok(())
}

pub fn run(ctx: &Ctx) {
    ctx.rule("Index, vector, embedding and text inputs that are valid, mutated at every level (header numbers, layer sizes, offset chunks, deltas, node bytes, element offsets, truncation, splicing) or made up, placed in exactly fitting heap blocks at every alignment; then every safe operation with in- and out-of-range arguments, collections that do not fit the index or lie about themselves, and continued use after caught panics. Violation: any report of the sanitizer, interpreter or standard-library precondition checks this build carries. Non-trivial: all; distinct: different bytes.");
    let k = if cfg!(miri) { 0.002 } else { 1.0 };
    let n = |a: usize, b: usize| ((ctx.n(a, b) as f64 * k).ceil() as usize).max(2);
    let w = if cfg!(miri) { 1 } else { ctx.workers };
    let (mf, mi, ms, mg) = (n(3000, 60000), n(3000, 60000), n(3000, 60000), n(2000, 40000));
    ctx.cases("index_f32", mf, w, |c| index_case::<F32>(c));
    ctx.cases("index_i8", mi, w, |c| index_case::<I8>(c));
    ctx.cases("index_sum", ms, w, |c| index_case::<Sum>(c));
    ctx.cases("index_user", mg, w, |c| index_case::<Grid>(c));
    ctx.cases("vectors_f32", n(6000, 100000), w, angular_case);
    ctx.cases("vectors_i8", n(6000, 100000), w, angular_int_case);
    ctx.cases("terms", n(6000, 100000), w, sum_case);
    ctx.cases("lies", n(2500, 50000), w, liar_case);
    if !cfg!(miri) {
        ctx.cases("text", n(800, 10000), w, text_case);
    }
}
