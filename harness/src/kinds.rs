//! Element kinds driven through the public API, data generators, and monitoring containers.
use crate::util::*;
use granne::{
    angular, angular_int, embeddings::SumEmbeddings, Dist, ElementContainer, ExtendableElementContainer, Permutable,
    Writeable,
};
use ordered_float::NotNan;
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::sync::Arc;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Flavor {
    Uniform,
    Clustered,
    Grid,
    Dups,
    Zeros,
    AllSame,
    AllZero,
}

#[derive(Clone, Debug)]
pub struct Spec {
    pub dim: usize,
    pub flavor: Flavor,
    pub centers: Vec<Vec<f32>>,
    pub p: f64,
    /// spread of clusters
    pub noise: f32,
}

impl Spec {
    pub fn new(rng: &mut Rng, dim: usize, flavor: Flavor) -> Spec {
        let k = match flavor {
            Flavor::Clustered => rng.range(2, 12),
            Flavor::Dups => rng.range(1, 6),
            _ => 1,
        };
        let centers = (0..k).map(|_| (0..dim).map(|_| rng.gauss()).collect()).collect();
        Spec { dim, flavor, centers, p: [0.05, 0.3, 0.7][rng.below(3)], noise: 0.2 }
    }
    pub fn random(rng: &mut Rng, dim: usize) -> Spec {
        let f = *rng.pick(&[
            Flavor::Uniform,
            Flavor::Uniform,
            Flavor::Uniform,
            Flavor::Clustered,
            Flavor::Clustered,
            Flavor::Grid,
            Flavor::Dups,
            Flavor::Zeros,
            Flavor::AllSame,
            Flavor::AllZero,
        ]);
        Spec::new(rng, dim, f)
    }
    pub fn vec(&self, rng: &mut Rng) -> Vec<f32> {
        let d = self.dim;
        match self.flavor {
            Flavor::Uniform => (0..d).map(|_| rng.sf()).collect(),
            Flavor::Clustered => {
                let c = rng.below(self.centers.len());
                (0..d).map(|i| self.centers[c][i] + self.noise * rng.gauss()).collect()
            }
            Flavor::Grid => (0..d).map(|_| rng.below(3) as f32 - 1.0).collect(),
            Flavor::Dups => {
                if rng.chance(self.p) {
                    self.centers[rng.below(self.centers.len())].clone()
                } else {
                    (0..d).map(|_| rng.sf()).collect()
                }
            }
            Flavor::Zeros => {
                if rng.chance(self.p) {
                    vec![0.0; d]
                } else {
                    (0..d).map(|_| rng.sf()).collect()
                }
            }
            Flavor::AllSame => self.centers[0].clone(),
            Flavor::AllZero => vec![0.0; d],
        }
    }
    pub fn distinct(&self) -> bool {
        matches!(self.flavor, Flavor::Uniform | Flavor::Clustered)
    }
}

/// One kind of element collection.
pub trait Kind: Send + Sync + 'static {
    type C: ElementContainer<Element = Self::E>
        + ExtendableElementContainer<InternalElement = Self::I>
        + Writeable
        + Permutable
        + Clone
        + Sync
        + Send
        + 'static;
    type E: Clone + Send + Sync;
    type I: Clone + Send + Sync;
    const NAME: &'static str;
    fn empty(rng: &mut Rng, spec: &Spec) -> Self::C;
    /// with `words` embeddings, where that means something
    fn empty_large(rng: &mut Rng, spec: &Spec, _words: usize) -> Self::C {
        Self::empty(rng, spec)
    }
    fn item(rng: &mut Rng, spec: &Spec, c: &Self::C) -> Self::I;
    fn ikey(i: &Self::I) -> Vec<u8>;
    fn read(c: &Self::C, i: usize) -> Vec<u8>;
    fn query(rng: &mut Rng, spec: &Spec, c: &Self::C) -> Self::E;
    /// loads a written collection again (embeddings taken from `c`)
    fn reload(c: &Self::C, bytes: &[u8]) -> Self::C;
}

pub fn fill<K: Kind>(rng: &mut Rng, spec: &Spec, n: usize) -> K::C {
    let mut c = K::empty(rng, spec);
    for _ in 0..n {
        let it = K::item(rng, spec, &c);
        c.push(it);
    }
    c
}

fn f32_key(v: &[f32]) -> Vec<u8> {
    v.iter().flat_map(|x| x.to_bits().to_le_bytes().to_vec()).collect()
}
fn i8_key(v: &[i8]) -> Vec<u8> {
    v.iter().map(|&x| x as u8).collect()
}

pub struct F32;
impl Kind for F32 {
    type C = angular::Vectors<'static>;
    type E = angular::Vector<'static>;
    type I = angular::Vector<'static>;
    const NAME: &'static str = "angular";
    fn empty(_: &mut Rng, _: &Spec) -> Self::C {
        angular::Vectors::new()
    }
    fn item(rng: &mut Rng, spec: &Spec, _: &Self::C) -> Self::I {
        angular::Vector::from(spec.vec(rng))
    }
    fn ikey(i: &Self::I) -> Vec<u8> {
        f32_key(i.as_slice())
    }
    fn read(c: &Self::C, i: usize) -> Vec<u8> {
        f32_key(c.get_element(i).as_slice())
    }
    fn query(rng: &mut Rng, spec: &Spec, c: &Self::C) -> Self::E {
        if c.len() > 0 && rng.chance(0.4) {
            c.get(rng.below(c.len()))
        } else {
            angular::Vector::from(spec.vec(rng))
        }
    }
    fn reload(_: &Self::C, bytes: &[u8]) -> Self::C {
        angular::Vectors::from_bytes(bytes).into_owned()
    }
}

pub struct I8;
impl Kind for I8 {
    type C = angular_int::Vectors<'static>;
    type E = angular_int::Vector<'static>;
    type I = angular_int::Vector<'static>;
    const NAME: &'static str = "angular_int";
    fn empty(_: &mut Rng, _: &Spec) -> Self::C {
        angular_int::Vectors::new()
    }
    fn item(rng: &mut Rng, spec: &Spec, _: &Self::C) -> Self::I {
        angular_int::Vector::from(spec.vec(rng))
    }
    fn ikey(i: &Self::I) -> Vec<u8> {
        i8_key(i.as_slice())
    }
    fn read(c: &Self::C, i: usize) -> Vec<u8> {
        i8_key(c.get_element(i).as_slice())
    }
    fn query(rng: &mut Rng, spec: &Spec, c: &Self::C) -> Self::E {
        if c.len() > 0 && rng.chance(0.4) {
            c.get(rng.below(c.len()))
        } else {
            angular_int::Vector::from(spec.vec(rng))
        }
    }
    fn reload(_: &Self::C, bytes: &[u8]) -> Self::C {
        angular_int::Vectors::from_bytes(bytes).into_owned()
    }
}

pub struct Sum;
impl Kind for Sum {
    type C = SumEmbeddings<'static>;
    type E = angular::Vector<'static>;
    type I = Vec<usize>;
    const NAME: &'static str = "embeddings";
    fn empty(rng: &mut Rng, spec: &Spec) -> Self::C {
        let mut c = SumEmbeddings::new();
        let n = 40;
        // some words with a zero vector so that whole elements can be zero
        for i in 0..n {
            let mut v = spec.vec(rng);
            if spec.flavor == Flavor::Zeros && i == 0 {
                v = vec![0.0; spec.dim];
            }
            c.push_embedding(&v);
        }
        c
    }
    fn empty_large(rng: &mut Rng, spec: &Spec, words: usize) -> Self::C {
        let mut c = SumEmbeddings::new();
        for _ in 0..words {
            let v = spec.vec(rng);
            c.push_embedding(&v);
        }
        c
    }
    fn item(rng: &mut Rng, spec: &Spec, c: &Self::C) -> Self::I {
        let k = match spec.flavor {
            Flavor::Zeros if rng.chance(spec.p) => 0,
            Flavor::AllZero => 0,
            Flavor::AllSame => 1,
            Flavor::Dups => 1,
            _ => rng.range(2, 6),
        };
        if spec.flavor == Flavor::AllSame {
            return vec![0; k];
        }
        (0..k).map(|_| rng.below(c.num_embeddings())).collect()
    }
    fn ikey(i: &Self::I) -> Vec<u8> {
        i.iter().flat_map(|x| (*x as u64).to_le_bytes().to_vec()).collect()
    }
    fn read(c: &Self::C, i: usize) -> Vec<u8> {
        Self::ikey(&c.get_terms(i))
    }
    fn query(rng: &mut Rng, spec: &Spec, c: &Self::C) -> Self::E {
        if c.len() > 0 && rng.chance(0.4) {
            c.get(rng.below(c.len()))
        } else {
            angular::Vector::from(spec.vec(rng))
        }
    }
    fn reload(c: &Self::C, bytes: &[u8]) -> Self::C {
        let mut e = Vec::new();
        c.write_embeddings(&mut e).expect("write embeddings");
        // 'static views of leaked buffers (case-sized, bounded by the number of cases)
        let e: &'static [u8] = leak_aligned(&e);
        let b: &'static [u8] = leak_aligned(bytes);
        let emb = angular::Vectors::from_bytes(e);
        let mut s = SumEmbeddings::from_bytes(Default::default(), b);
        for i in 0..emb.len() {
            s.push_embedding(emb.get_element(i).as_slice());
        }
        s
    }
}

pub fn leak_aligned(b: &[u8]) -> &'static [u8] {
    let mut v: Vec<u64> = vec![0; (b.len() + 7) / 8 + 1];
    let p = v.as_mut_ptr() as *mut u8;
    unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), p, b.len()) };
    let s: &'static mut [u64] = Box::leak(v.into_boxed_slice());
    unsafe { std::slice::from_raw_parts(s.as_ptr() as *const u8, b.len()) }
}

// ---------------------------------------------------------------- a user-defined element type
/// Integer grid points under the squared Euclidean distance: exact arithmetic, and every index the
/// library passes in is checked (a contract violation panics with a recognisable message).
#[derive(Clone, Debug, PartialEq)]
pub struct Pt(pub Vec<i32>);

impl Dist<Pt> for Pt {
    fn dist(&self, o: &Pt) -> NotNan<f32> {
        let s: i64 = self.0.iter().zip(&o.0).map(|(a, b)| ((a - b) as i64) * ((a - b) as i64)).sum();
        NotNan::new(s as f32).unwrap()
    }
}

#[derive(Clone, Debug, Default)]
pub struct Pts(pub Vec<Pt>);

impl Pts {
    fn at(&self, i: usize) -> &Pt {
        match <[Pt]>::get(&self.0, i) {
            Some(p) => p,
            None => panic!("CONTRACT: element id {} asked for, only {} exist", i, self.0.len()),
        }
    }
}

impl ElementContainer for Pts {
    type Element = Pt;
    fn get(&self, i: usize) -> Pt {
        self.at(i).clone()
    }
    fn len(&self) -> usize {
        self.0.len()
    }
    fn dist_to_element(&self, i: usize, e: &Pt) -> NotNan<f32> {
        self.at(i).dist(e)
    }
}
impl ExtendableElementContainer for Pts {
    type InternalElement = Pt;
    fn push(&mut self, p: Pt) {
        self.0.push(p)
    }
}
impl Permutable for Pts {
    fn permute(&mut self, p: &[usize]) {
        if p.len() != self.0.len() {
            panic!("CONTRACT: permutation of length {} for {} elements", p.len(), self.0.len());
        }
        self.0 = p.iter().map(|&i| self.at(i).clone()).collect();
    }
}
impl Writeable for Pts {
    fn write<B: std::io::Write>(&self, b: &mut B) -> std::io::Result<usize> {
        let mut v = (self.0.len() as u64).to_le_bytes().to_vec();
        for p in &self.0 {
            v.extend((p.0.len() as u32).to_le_bytes());
            for x in &p.0 {
                v.extend(x.to_le_bytes());
            }
        }
        b.write_all(&v)?;
        Ok(v.len())
    }
}

pub struct Grid;
impl Kind for Grid {
    type C = Pts;
    type E = Pt;
    type I = Pt;
    const NAME: &'static str = "user_defined";
    fn empty(_: &mut Rng, _: &Spec) -> Pts {
        Pts::default()
    }
    fn item(rng: &mut Rng, spec: &Spec, _: &Pts) -> Pt {
        let s = if spec.flavor == Flavor::Grid { 1.0 } else { 1000.0 };
        Pt(spec.vec(rng).iter().map(|x| (x * s) as i32).collect())
    }
    fn ikey(i: &Pt) -> Vec<u8> {
        i.0.iter().flat_map(|x| x.to_le_bytes().to_vec()).collect()
    }
    fn read(c: &Pts, i: usize) -> Vec<u8> {
        Self::ikey(&c.0[i])
    }
    fn query(rng: &mut Rng, spec: &Spec, c: &Pts) -> Pt {
        if c.len() > 0 && rng.chance(0.4) {
            c.get(rng.below(c.len()))
        } else {
            Self::item(rng, spec, c)
        }
    }
    fn reload(_: &Pts, b: &[u8]) -> Pts {
        let n = u64::from_le_bytes(b[..8].try_into().unwrap()) as usize;
        let mut at = 8;
        let mut out = Vec::new();
        for _ in 0..n {
            let k = u32::from_le_bytes(b[at..at + 4].try_into().unwrap()) as usize;
            at += 4;
            out.push(Pt((0..k).map(|j| i32::from_le_bytes(b[at + 4 * j..at + 4 * j + 4].try_into().unwrap())).collect()));
            at += 4 * k;
        }
        Pts(out)
    }
}

// ---------------------------------------------------------------- monitoring wrapper
/// Counts distance evaluations and injects scheduling noise into them.
#[derive(Default)]
pub struct Noise {
    pub calls: AtomicU64,
    pub max_id: AtomicU64,
    pub seed: u64,
    /// out of 1000: probability of a yield / of a short sleep per call
    pub yield_pm: u64,
    pub sleep_pm: u64,
    pub budget: u64,
    /// panics once, at this call (0: never)
    pub bomb: AtomicU64,
}

impl Noise {
    fn tick(&self, i: usize) {
        let k = self.calls.fetch_add(1, Relaxed);
        if self.bomb.load(Relaxed) != 0 && self.bomb.load(Relaxed) <= k && self.bomb.swap(0, Relaxed) != 0 {
            panic!("BOMB");
        }
        if self.budget > 0 && k > self.budget {
            panic!("CONTRACT: work budget of {} distance evaluations exceeded", self.budget);
        }
        if self.yield_pm + self.sleep_pm > 0 {
            let h = mix(self.seed ^ k.wrapping_mul(0x9E37) ^ ((i as u64) << 40)) % 1000;
            if h < self.yield_pm {
                std::thread::yield_now();
            } else if h < self.yield_pm + self.sleep_pm {
                std::thread::sleep(std::time::Duration::from_micros(20 + (h * 7) % 150));
            }
        }
    }
}

#[derive(Clone)]
pub struct Mon<C> {
    pub inner: C,
    pub noise: Arc<Noise>,
}

impl<C: ElementContainer> ElementContainer for Mon<C> {
    type Element = C::Element;
    fn get(&self, i: usize) -> C::Element {
        self.inner.get(i)
    }
    fn len(&self) -> usize {
        self.inner.len()
    }
    fn dist_to_element(&self, i: usize, e: &C::Element) -> NotNan<f32> {
        self.noise.tick(i);
        self.inner.dist_to_element(i, e)
    }
    fn dist(&self, i: usize, j: usize) -> NotNan<f32> {
        self.noise.tick(i);
        self.inner.dist(i, j)
    }
    fn dists(&self, i: usize, o: &[usize]) -> Vec<NotNan<f32>> {
        self.noise.tick(i);
        self.noise.calls.fetch_add(o.len().saturating_sub(1) as u64, Relaxed);
        self.inner.dists(i, o)
    }
}
impl<C: ExtendableElementContainer> ExtendableElementContainer for Mon<C> {
    type InternalElement = C::InternalElement;
    fn push(&mut self, e: Self::InternalElement) {
        self.noise.tick(usize::MAX);
        self.inner.push(e)
    }
}
impl<C: Permutable> Permutable for Mon<C> {
    fn permute(&mut self, p: &[usize]) {
        self.inner.permute(p)
    }
}
impl<C: Writeable> Writeable for Mon<C> {
    fn write<B: std::io::Write>(&self, b: &mut B) -> std::io::Result<usize> {
        self.inner.write(b)
    }
}

/// `N`: with scheduling noise
pub struct Noisy<K, const N: bool = true>(std::marker::PhantomData<fn() -> K>);
pub type Counted<K> = Noisy<K, false>;
impl<K: Kind, const N: bool> Kind for Noisy<K, N> {
    type C = Mon<K::C>;
    type E = K::E;
    type I = K::I;
    const NAME: &'static str = K::NAME;
    fn empty(rng: &mut Rng, spec: &Spec) -> Self::C {
        let (y, s) = if N { *rng.pick(&[(0, 0), (30, 0), (200, 2), (20, 10)]) } else { (0, 0) };
        let noise = Noise { seed: rng.seed(), yield_pm: y, sleep_pm: s, ..Default::default() };
        Mon { inner: K::empty(rng, spec), noise: Arc::new(noise) }
    }
    fn empty_large(rng: &mut Rng, spec: &Spec, words: usize) -> Self::C {
        let mut m = Self::empty(rng, spec);
        m.inner = K::empty_large(rng, spec, words);
        m
    }
    fn item(rng: &mut Rng, spec: &Spec, c: &Self::C) -> Self::I {
        K::item(rng, spec, &c.inner)
    }
    fn ikey(i: &Self::I) -> Vec<u8> {
        K::ikey(i)
    }
    fn read(c: &Self::C, i: usize) -> Vec<u8> {
        K::read(&c.inner, i)
    }
    fn query(rng: &mut Rng, spec: &Spec, c: &Self::C) -> Self::E {
        K::query(rng, spec, &c.inner)
    }
    fn reload(c: &Self::C, b: &[u8]) -> Self::C {
        Mon { inner: K::reload(&c.inner, b), noise: c.noise.clone() }
    }
}

/// calls `$f::<K>($args)` for a randomly chosen kind
#[macro_export]
macro_rules! any_kind {
    ($rng:expr, $f:ident, $($args:expr),*) => {
        match $rng.below(4) {
            0 => $f::<$crate::kinds::F32>($($args),*),
            1 => $f::<$crate::kinds::I8>($($args),*),
            2 => $f::<$crate::kinds::Sum>($($args),*),
            _ => $f::<$crate::kinds::Grid>($($args),*),
        }
    };
}
#[macro_export]
macro_rules! any_noisy_kind {
    ($rng:expr, $f:ident, $($args:expr),*) => {
        match $rng.below(4) {
            0 => $f::<$crate::kinds::Noisy<$crate::kinds::F32>>($($args),*),
            1 => $f::<$crate::kinds::Noisy<$crate::kinds::I8>>($($args),*),
            2 => $f::<$crate::kinds::Noisy<$crate::kinds::Sum>>($($args),*),
            _ => $f::<$crate::kinds::Noisy<$crate::kinds::Grid>>($($args),*),
        }
    };
}
