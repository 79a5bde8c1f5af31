//! Random indexes and small I/O helpers shared by the checks.
use crate::graph::*;
use crate::kinds::*;
use crate::util::*;
use granne::{Builder, ElementContainer, ExtendableElementContainer, Granne, GranneBuilder, Index};
use std::io::{Cursor, Read, Seek, SeekFrom, Write};

/// a builder after a random history of pushes and builds (everything indexed unless `partial`)
pub struct Built<K: Kind> {
    pub b: GranneBuilder<K::C>,
    pub cfg: Cfg,
    pub spec: Spec,
    pub desc: String,
}

pub struct Opt {
    pub max: usize,
    pub flavors: &'static [Flavor],
    pub threads: &'static [usize],
    pub partial: bool,
    pub dims: &'static [usize],
}

pub const ANY: &[Flavor] = &[
    Flavor::Uniform,
    Flavor::Uniform,
    Flavor::Clustered,
    Flavor::Grid,
    Flavor::Dups,
    Flavor::Zeros,
    Flavor::AllSame,
    Flavor::AllZero,
];
pub const PLAIN: &[Flavor] = &[Flavor::Uniform, Flavor::Clustered];
pub const DIMS: &[usize] = &[1, 2, 3, 5, 8, 17, 33];

impl Default for Opt {
    fn default() -> Self {
        Opt { max: 300, flavors: ANY, threads: &[1, 1, 2, 4], partial: false, dims: DIMS }
    }
}

pub fn built<K: Kind>(rng: &mut Rng, o: &Opt) -> Result<Built<K>, String> {
    let dim = *rng.pick(o.dims);
    let flavor = *rng.pick(o.flavors);
    let spec = Spec::new(rng, dim, flavor);
    let mut cfg = Cfg::random(rng);
    let n = match rng.below(8) {
        0 => rng.below(4),
        1 => rng.range(1, 20),
        2 => *rng.pick(&[59, 60, 61, 119, 120, 121, 180]),
        _ => rng.range(20, o.max),
    };
    if rng.chance(0.3) {
        cfg.expected = Some(n.max(1));
    }
    let threads = *rng.pick(o.threads);
    let steps = if rng.chance(0.4) { rng.range(1, 4) } else { 1 };
    let desc = format!("{} n={} dim={} {:?} {:?} threads={} steps={}", K::NAME, n, dim, flavor, cfg, threads, steps);
    let els = fill::<K>(rng, &spec, n);
    let mut b = GranneBuilder::new(cfg.build(), els);
    let mut rg = rng.fork();
    let leave = if o.partial && rng.chance(0.3) { rng.below(n / 2 + 1) } else { 0 };
    in_pool(threads, || {
        no_panic("building", || {
            for _ in 1..steps {
                let k = rg.range(b.len(), n - leave);
                b.build_partial(k);
            }
            if leave > 0 && n - leave >= b.len() {
                b.build_partial(n - leave)
            } else {
                b.build()
            }
        })
    })
    .map_err(|e| format!("{} [{}]", e, desc))?;
    Ok(Built { b, cfg, spec, desc })
}

pub fn index_bytes(ix: &impl Index) -> Result<Vec<u8>, String> {
    let mut c = Cursor::new(Vec::new());
    no_panic("write_index", || ix.write_index(&mut c))?.map_err(|e| format!("write_index failed: {}", e))?;
    Ok(c.into_inner())
}

/// `bytes` at an address that is `off` modulo 16
pub struct Shifted {
    buf: Vec<u128>,
    off: usize,
    len: usize,
}
impl Shifted {
    pub fn new(bytes: &[u8], off: usize) -> Shifted {
        let mut buf = vec![0u128; (bytes.len() + off) / 16 + 2];
        let p = buf.as_mut_ptr() as *mut u8;
        unsafe { std::ptr::copy_nonoverlapping(bytes.as_ptr(), p.add(off), bytes.len()) };
        Shifted { buf, off, len: bytes.len() }
    }
    pub fn get(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts((self.buf.as_ptr() as *const u8).add(self.off), self.len) }
    }
}

/// An unlinked temporary file below the output directory.
pub fn temp_file(ctx: &Ctx, bytes: &[u8]) -> std::fs::File {
    let p = ctx.out.join(format!("t{}", uniq()));
    let mut f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(&p).expect("temp file");
    f.write_all(bytes).expect("temp file");
    f.seek(SeekFrom::Start(0)).expect("temp file");
    let _ = std::fs::remove_file(&p);
    f
}

pub fn uniq() -> u64 {
    use std::sync::atomic::*;
    static N: AtomicU64 = AtomicU64::new(0);
    N.fetch_add(1, Ordering::Relaxed)
}

pub fn read_all(f: &mut std::fs::File) -> Vec<u8> {
    let mut v = Vec::new();
    f.seek(SeekFrom::Start(0)).expect("seek");
    f.read_to_end(&mut v).expect("read");
    v
}

/// A scratch directory of one case, removed when dropped.
pub struct Dir(pub std::path::PathBuf);
impl Dir {
    pub fn new(ctx: &Ctx) -> Dir {
        let p = ctx.out.join(format!("d{}", uniq()));
        std::fs::create_dir_all(&p).expect("scratch directory");
        Dir(p)
    }
    pub fn p(&self, n: &str) -> std::path::PathBuf {
        self.0.join(n)
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub fn bits(r: &[(usize, f32)]) -> Vec<(usize, u32)> {
    r.iter().map(|x| (x.0, x.1.to_bits())).collect()
}

/// the contract every single search result obeys, whatever the graph
pub fn valid_result<C: ElementContainer>(els: &C, n: usize, q: &C::Element, ms: usize, k: usize, r: &[(usize, f32)]) -> Res {
    use crate::ensure;
    ensure!(r.len() <= k, "{} results, {} were requested", r.len(), k);
    ensure!(r.len() <= ms, "{} results with a search width of {}", r.len(), ms);
    let mut seen = std::collections::HashSet::new();
    for (p, &(id, d)) in r.iter().enumerate() {
        ensure!(id < n, "result {} is id {} of {} elements", p, id, n);
        ensure!(seen.insert(id), "id {} is returned twice: {:?}", id, r);
        ensure!(!d.is_nan(), "distance of {} is NaN", id);
        if p > 0 {
            ensure!(r[p - 1].1 <= d, "results are not ordered by distance: {:?}", r);
        }
        let e = els.dist_to_element(id, q).into_inner();
        ensure!(e.to_bits() == d.to_bits(), "distance of {} is {} but was returned as {}", id, e, d);
    }
    Ok(())
}

pub fn brute<C: ElementContainer>(els: &C, n: usize, q: &C::Element) -> Vec<(usize, f32)> {
    let mut v: Vec<(usize, f32)> = (0..n).map(|i| (i, els.dist_to_element(i, q).into_inner())).collect();
    v.sort_by(|a, b| a.1.partial_cmp(&b.1).unwrap().then(a.0.cmp(&b.0)));
    v
}

/// share of the true `k` nearest found (ties count)
pub fn recall<C: ElementContainer>(ix: &Granne<C>, qs: &[C::Element], ms: usize, k: usize) -> (f64, f64) {
    let n = ix.len();
    let els = ix.get_elements();
    let (mut hit, mut all) = (0usize, 0usize);
    for q in qs {
        let t = brute(els, n, q);
        let kk = k.min(t.len());
        if kk == 0 {
            continue;
        }
        let cut = t[kk - 1].1;
        let r = ix.search(q, ms, k);
        hit += r.iter().filter(|x| x.1 <= cut).count().min(kk);
        all += kk;
    }
    (hit as f64, all as f64)
}

/// how often an element searched for by its own vector comes first (or at the same distance)
pub fn self_found<C: ElementContainer>(ix: &Granne<C>, ids: &[usize], ms: usize) -> (usize, Vec<usize>) {
    let mut hit = 0;
    let mut missed = Vec::new();
    for &i in ids {
        let q = ix.get_element(i);
        let own = ix.get_elements().dist_to_element(i, &q).into_inner();
        match ix.search(&q, ms, 1).first() {
            Some(&(_, d)) if d <= own => hit += 1,
            _ => missed.push(i),
        }
    }
    (hit, missed)
}

#[allow(dead_code)]
pub fn push_some<K: Kind>(rng: &mut Rng, spec: &Spec, c: &mut K::C, n: usize) {
    for _ in 0..n {
        let it = K::item(rng, spec, c);
        c.push(it);
    }
}
