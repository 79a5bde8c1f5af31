//! Random operation sequences on element collections, mirrored on a plain list.
//! C18 checks the contents after every operation, C05 every byte that is written.
use crate::codec;
use crate::ensure;
use crate::gen::*;
use crate::kinds::leak_aligned;
use crate::util::*;
use granne::{angular, angular_int, embeddings::SumEmbeddings, ElementContainer, ExtendableElementContainer, Permutable, Writeable};

pub fn leak_shifted(b: &[u8], off: usize) -> &'static [u8] {
    let mut v = vec![0u8; off];
    v.extend_from_slice(b);
    &leak_aligned(&v)[off..]
}

/// what `write` does, with the advertised number of bytes checked
pub fn written<W: Writeable>(w: &W, what: &str) -> Result<Vec<u8>, String> {
    let mut out = vec![7u8; 3];
    let n = no_panic(what, || w.write(&mut out))?.map_err(|e| format!("{} failed: {}", what, e))?;
    ensure!(n == out.len() - 3, "{} reports {} bytes, {} were written", what, n, out.len() - 3);
    ensure!(out[..3] == [7, 7, 7], "{} changed what was there before", what);
    Ok(out[3..].to_vec())
}

/// a random permutation; now and then one with long runs or a single cycle
pub fn permutation(rng: &mut Rng, n: usize) -> Vec<usize> {
    let mut p: Vec<usize> = (0..n).collect();
    match rng.below(5) {
        0 => {}
        1 => p.reverse(),
        2 if n > 0 => {
            let k = rng.below(n);
            p.rotate_left(k)
        }
        _ => rng.shuffle(&mut p),
    }
    p
}

macro_rules! dense_model {
    ($name:ident, $lib:ident, $s:ty, $bits:expr, $scalar:expr, $encode:path) => {
        pub mod $name {
            use super::*;
            type Vectors = $lib::Vectors<'static>;
            type Vector = $lib::Vector<'static>;

            pub struct Model {
                pub c: Vectors,
                pub m: Vec<Vec<$s>>,
                pub dim: usize,
                /// copies and elements taken earlier, which must never change
                old: Vec<(Vectors, Vec<Vec<$s>>)>,
                taken: Vec<(Vector, Vec<$s>)>,
                pub log: Vec<String>,
                pub width_known: bool,
            }

            fn key(v: &[$s]) -> Vec<u32> {
                v.iter().map($bits).collect()
            }
            pub fn vec_of(rng: &mut Rng, dim: usize) -> Vec<$s> {
                let f: fn(&mut Rng) -> $s = $scalar;
                (0..dim).map(|_| f(rng)).collect()
            }
            fn some(rng: &mut Rng, dim: usize, n: usize) -> Vec<Vec<$s>> {
                (0..n).map(|_| vec_of(rng, dim)).collect()
            }
            pub fn encode(m: &[Vec<$s>], dim: usize) -> Vec<u8> {
                $encode(m, dim)
            }

            /// a collection with the contents `m` from a random kind of source
            fn source(rng: &mut Rng, ctx: &Ctx, m: &[Vec<$s>], dim: usize) -> Result<(Vectors, &'static str, bool), String> {
                let flat: Vec<$s> = m.concat();
                Ok(match rng.below(7) {
                    0 => {
                        let mut c = Vectors::new();
                        for v in m {
                            c.push(&$lib::Vector(v.clone().into()));
                        }
                        (c, "pushed", !m.is_empty())
                    }
                    1 => (Vectors::from_vec(flat, dim), "from_vec", true),
                    2 => (Vectors::from_slice(Vec::leak(flat), dim), "from_slice", true),
                    3 => {
                        let off = rng.below(9);
                        (Vectors::from_bytes(leak_shifted(&encode(m, dim), off)), "from_bytes", true)
                    }
                    4 | 5 => {
                        let f = temp_file(ctx, &encode(m, dim));
                        (unsafe { Vectors::from_file(&f) }.map_err(|e| e.to_string())?, "from_file", true)
                    }
                    _ => (m.iter().map(|v| $lib::Vector(v.clone().into())).collect(), "collected", !m.is_empty()),
                })
            }

            impl Model {
                pub fn new(rng: &mut Rng, ctx: &Ctx) -> Result<Model, String> {
                    let dim = *rng.pick(&[1, 1, 2, 3, 4, 5, 7, 8, 16, 31, 33, 100]);
                    let n = *rng.pick(&[0, 1, 2, 3, 5, 17, 40]);
                    Self::sized(rng, ctx, dim, n)
                }

                /// dimensions around the sizes of smaller integers
                pub fn wide(rng: &mut Rng, ctx: &Ctx) -> Result<Model, String> {
                    let dim = *rng.pick(WIDE);
                    let n = *rng.pick(&[0, 1, 1, 2, 3]);
                    Self::sized(rng, ctx, dim, n)
                }

                fn sized(rng: &mut Rng, ctx: &Ctx, dim: usize, n: usize) -> Result<Model, String> {
                    let m = some(rng, dim, n);
                    let (c, how, width_known) = source(rng, ctx, &m, dim)?;
                    Ok(Model { c, m, dim, old: vec![], taken: vec![], log: vec![how.into()], width_known })
                }

                pub fn step(&mut self, rng: &mut Rng, ctx: &Ctx) -> Res {
                    let n = self.m.len();
                    let what = match rng.below(11) {
                        0 | 1 => {
                            let v = vec_of(rng, self.dim);
                            let e = $lib::Vector(v.clone().into());
                            if rng.chance(0.5) {
                                self.c.push(&e)
                            } else {
                                ExtendableElementContainer::push(&mut self.c, e)
                            }
                            self.m.push(v);
                            self.width_known = true;
                            "push".into()
                        }
                        2 => {
                            let k = *rng.pick(&[0, 1, 2, 9]);
                            let m = some(rng, self.dim, k);
                            let (c, how, _) = source(rng, ctx, &m, self.dim)?;
                            let same = rng.chance(0.1);
                            if same {
                                let c2 = self.c.clone();
                                self.c.extend(c2);
                                let m2 = self.m.clone();
                                self.m.extend(m2);
                            } else {
                                self.c.extend(c);
                                self.width_known |= k > 0;
                                self.m.extend(m);
                            }
                            format!("extend({} {})", how, if same { n } else { k })
                        }
                        3 | 4 => {
                            let p = permutation(rng, n);
                            self.c.permute(&p);
                            self.m = p.iter().map(|&i| self.m[i].clone()).collect();
                            format!("permute({:?})", if n < 12 { p } else { vec![] })
                        }
                        5 => {
                            let c = self.c.clone();
                            let o = if rng.chance(0.5) { std::mem::replace(&mut self.c, c) } else { c };
                            self.old.push((o, self.m.clone()));
                            "clone".into()
                        }
                        6 => {
                            let b = self.c.borrow();
                            ensure!(b.len() == n, "borrowed: {} elements instead of {}", b.len(), n);
                            let c = b.clone().into_owned();
                            drop(b);
                            self.old.push((c, self.m.clone()));
                            "borrow".into()
                        }
                        7 => {
                            let c = std::mem::replace(&mut self.c, Vectors::new());
                            self.c = c.into_owned();
                            "into_owned".into()
                        }
                        8 if n > 0 => {
                            for _ in 0..3 {
                                let i = rng.below(n);
                                self.taken.push((self.c.get(i), self.m[i].clone()));
                                self.taken.push((self.c.get_element(i).into_owned(), self.m[i].clone()));
                            }
                            "get".into()
                        }
                        9 => {
                            let by = written(&self.c, "write")?;
                            ctx.count("bytes_written", by.len() as u64);
                            let (c, how) = if rng.chance(0.5) {
                                let off = rng.below(9);
                                (Vectors::from_bytes(leak_shifted(&by, off)), "write+from_bytes")
                            } else {
                                let f = temp_file(ctx, &by);
                                (unsafe { Vectors::from_file(&f) }.map_err(|e| e.to_string())?, "write+from_file")
                            };
                            let o = std::mem::replace(&mut self.c, c);
                            self.old.push((o, self.m.clone()));
                            how.into()
                        }
                        _ => {
                            // changing a copy
                            let mut c = self.c.clone();
                            let v = vec_of(rng, self.dim);
                            c.push(&$lib::Vector(v.clone().into()));
                            let p = permutation(rng, n + 1);
                            c.permute(&p);
                            let mut m = self.m.clone();
                            m.push(v);
                            let m = p.iter().map(|&i| m[i].clone()).collect();
                            self.old.push((c, m));
                            "change a clone".into()
                        }
                    };
                    self.log.push(what);
                    Ok(())
                }

                pub fn check(&self) -> Res {
                    same(&self.c, &self.m, self.dim, "collection")?;
                    for (c, m) in &self.old {
                        same(c, m, self.dim, "earlier copy")?;
                    }
                    for (e, v) in &self.taken {
                        ensure!(key(e.as_slice()) == key(v), "element taken earlier is now {:?} instead of {:?}", e.as_slice(), v);
                        ensure!(e.len() == v.len(), "length of element");
                    }
                    Ok(())
                }

                pub fn check_bytes(&self, rng: &mut Rng, ctx: &Ctx) -> Res {
                    let by = written(&self.c, "write")?;
                    let want = encode(&self.m, self.dim);
                    if self.width_known || !self.m.is_empty() {
                        ensure!(by == want, "{} elements of dimension {} are stored as {:?}, expected {:?}", self.m.len(), self.dim, &by[..by.len().min(64)], &want[..want.len().min(64)]);
                    } else {
                        ensure!(by.len() == 8, "an empty collection takes {} bytes", by.len());
                    }
                    ctx.count("bytes_written", by.len() as u64);
                    let s = Shifted::new(&by, rng.below(16));
                    let c = no_panic("from_bytes", || $lib::Vectors::from_bytes(s.get()))?;
                    same(&c, &self.m, self.dim, "loaded from bytes")?;
                    ensure!(written(&c, "write")? == by, "writing what was loaded gives other bytes");
                    let f = temp_file(ctx, &by);
                    let c = no_panic("from_file", || unsafe { $lib::Vectors::from_file(&f) })?.map_err(|e| format!("from_file: {}", e))?;
                    drop(f);
                    same(&c, &self.m, self.dim, "loaded from file")?;
                    ensure!(written(&c, "write")? == by, "writing what was loaded gives other bytes");
                    Ok(())
                }

                pub fn digest(&self) -> u64 {
                    hash_bytes(&encode(&self.m, self.dim)) ^ hash_bytes(self.log.join(",").as_bytes())
                }
            }

            pub fn same(c: &$lib::Vectors, m: &[Vec<$s>], dim: usize, what: &str) -> Res {
                ensure!(c.len() == m.len(), "{}: {} elements instead of {}", what, c.len(), m.len());
                ensure!(ElementContainer::len(c) == m.len(), "{}: container length {}", what, ElementContainer::len(c));
                ensure!(ElementContainer::is_empty(c) == m.is_empty(), "{}: is_empty", what);
                ensure!(m.is_empty() || c.dim() == dim, "{}: dimension {} instead of {}", what, c.dim(), dim);
                for (i, v) in m.iter().enumerate() {
                    ensure!(key(c.get_element(i).as_slice()) == key(v), "{}: element {} is {:?} instead of {:?}", what, i, c.get_element(i).as_slice(), v);
                    ensure!(key(c.get(i).as_slice()) == key(v), "{}: get({}) is {:?} instead of {:?}", what, i, c.get(i).as_slice(), v);
                }
                ensure!(key(c.as_slice()) == key(&m.concat()), "{}: as_slice differs", what);
                Ok(())
            }
        }
    };
}

fn any_f32(rng: &mut Rng) -> f32 {
    match rng.below(12) {
        0 => -0.0,
        1 => 0.0,
        2 => *rng.pick(&[f32::INFINITY, f32::NEG_INFINITY, f32::MAX, f32::MIN_POSITIVE, f32::EPSILON]),
        3 => f32::from_bits(1 + rng.below(1000) as u32),
        4 => {
            let f = f32::from_bits(rng.next() as u32);
            if f.is_nan() {
                1.5
            } else {
                f
            }
        }
        _ => rng.sf(),
    }
}

dense_model!(f32s, angular, f32, |x| x.to_bits(), any_f32, codec::encode_f32);
dense_model!(i8s, angular_int, i8, |x| *x as u32, |r| r.next() as i8, codec::encode_i8);

// ---------------------------------------------------------------- embedding sums
pub struct SumModel {
    pub c: SumEmbeddings<'static>,
    pub els: Vec<Vec<usize>>,
    pub emb: Vec<Vec<f32>>,
    pub dim: usize,
    old: Vec<(SumEmbeddings<'static>, Vec<Vec<usize>>, Vec<Vec<f32>>)>,
    taken: Vec<(Vec<f32>, Vec<f32>)>,
    pub log: Vec<String>,
}

fn terms(rng: &mut Rng, words: usize) -> Vec<usize> {
    let k = *rng.pick(&[0, 0, 1, 1, 2, 3, 5, 9, 30]);
    (0..k)
        .map(|_| match rng.below(6) {
            0 if words == 0 => *rng.pick(&[0, 1, 255, 256, 65535, 65536, (1 << 24) - 1]),
            _ if words == 0 => rng.below(1 << 24),
            _ => rng.below(words),
        })
        .collect()
}

fn sum_of(emb: &[Vec<f32>], ids: &[usize], dim: usize) -> Option<Vec<(f64, f64)>> {
    let mut s = vec![(0.0, 0.0); dim];
    for &i in ids {
        for (a, x) in s.iter_mut().zip(emb.get(i)?) {
            a.0 += *x as f64;
            a.1 += x.abs() as f64;
        }
    }
    Some(s)
}

fn close(got: &[f32], want: &[(f64, f64)], terms: usize) -> bool {
    // rounding of each of the additions
    let eps = 2e-6 + 6e-8 * terms as f64;
    got.len() == want.len() && got.iter().zip(want).all(|(g, w)| ((*g as f64) - w.0).abs() <= eps * w.1 + 1e-30)
}

impl SumModel {
    fn open(rng: &mut Rng, ctx: &Ctx, els: &[Vec<usize>], emb: &[Vec<f32>], dim: usize) -> Result<(SumEmbeddings<'static>, String), String> {
        let eb = codec::encode_f32(emb, dim);
        let tb = codec::encode_terms(els);
        Ok(match rng.below(4) {
            0 => {
                let mut c = SumEmbeddings::new();
                for e in emb {
                    c.push_embedding(e);
                }
                for t in els {
                    c.push(t);
                }
                (c, "pushed".into())
            }
            1 => {
                let mut c = SumEmbeddings::from_bytes(Default::default(), leak_shifted(&tb, rng.below(9)));
                for e in emb {
                    c.push_embedding(e);
                }
                (c, "from_bytes".into())
            }
            _ => {
                let (f, g) = (temp_file(ctx, &eb), temp_file(ctx, &tb));
                let opt = if els.is_empty() && rng.chance(0.5) { None } else { Some(&g) };
                (unsafe { SumEmbeddings::from_files(&f, opt) }.map_err(|e| e.to_string())?, "from_files".into())
            }
        })
    }

    pub fn new(rng: &mut Rng, ctx: &Ctx) -> Result<SumModel, String> {
        let dim = *rng.pick(&[1, 2, 3, 5, 8, 33]);
        let words = *rng.pick(&[0, 1, 2, 10, 50]);
        let n = *rng.pick(&[0, 1, 2, 5, 40]);
        let els: Vec<Vec<usize>> = (0..n).map(|_| terms(rng, words)).collect();
        Self::with(rng, ctx, dim, words, els)
    }

    /// wide embeddings, or elements with very many terms
    pub fn wide(rng: &mut Rng, ctx: &Ctx) -> Result<SumModel, String> {
        if rng.chance(0.5) {
            let dim = *rng.pick(WIDE);
            let words = rng.range(1, 3);
            let n = rng.below(3);
            let els = (0..n).map(|_| terms(rng, words).into_iter().take(5).collect()).collect();
            return Self::with(rng, ctx, dim, words, els);
        }
        let words = *rng.pick(&[1, 300, 70_000]);
        let n = rng.range(1, 4);
        let els = (0..n).map(|_| { let k = *rng.pick(&[0, 1, 254, 255, 256, 257, 65_535, 65_536, 65_537, 100_000]); (0..k).map(|_| rng.below(words)).collect() }).collect();
        Self::with(rng, ctx, 2, words, els)
    }

    fn with(rng: &mut Rng, ctx: &Ctx, dim: usize, words: usize, els: Vec<Vec<usize>>) -> Result<SumModel, String> {
        let emb: Vec<Vec<f32>> = (0..words).map(|_| (0..dim).map(|_| rng.sf()).collect()).collect();
        let (c, how) = Self::open(rng, ctx, &els, &emb, dim)?;
        Ok(SumModel { c, els, emb, dim, old: vec![], taken: vec![], log: vec![how] })
    }

    pub fn step(&mut self, rng: &mut Rng, ctx: &Ctx) -> Res {
        let n = self.els.len();
        let what = match rng.below(11) {
            0 | 1 | 2 => {
                let t = terms(rng, self.emb.len());
                match rng.below(3) {
                    0 => self.c.push(&t),
                    1 => self.c.push(t.clone()),
                    _ => ExtendableElementContainer::push(&mut self.c, t.clone()),
                }
                self.els.push(t);
                "push".into()
            }
            3 if self.els.iter().flatten().all(|t| *t < self.emb.len()) || self.emb.is_empty() && self.els.is_empty() => {
                let e: Vec<f32> = (0..self.dim).map(|_| rng.sf()).collect();
                self.c.push_embedding(&e);
                self.emb.push(e);
                "push_embedding".into()
            }
            4 | 5 => {
                let p = permutation(rng, n);
                self.c.permute(&p);
                self.els = p.iter().map(|&i| self.els[i].clone()).collect();
                format!("permute({:?})", if n < 12 { p } else { vec![] })
            }
            6 => {
                let c = self.c.clone();
                let o = if rng.chance(0.5) { std::mem::replace(&mut self.c, c) } else { c };
                self.old.push((o, self.els.clone(), self.emb.clone()));
                "clone".into()
            }
            7 => {
                let b = self.c.borrow();
                same_sum(&b, &self.els, &self.emb, self.dim, "borrowed")?;
                let mut b2 = b.clone();
                b2.push([]);
                let mut m = self.els.clone();
                m.push(vec![]);
                same_sum(&b2, &m, &self.emb, self.dim, "changed copy of a borrowed collection")?;
                "borrow".into()
            }
            8 if n > 0 => {
                let i = rng.below(n);
                if self.els[i].iter().all(|t| *t < self.emb.len()) {
                    let e = self.c.get_embedding(i);
                    self.taken.push((e.clone(), e));
                }
                "get".into()
            }
            9 => {
                let by = written(&self.c, "write")?;
                let mut eb = Vec::new();
                let k = self.c.write_embeddings(&mut eb).map_err(|e| e.to_string())?;
                ensure!(k == eb.len(), "write_embeddings reports {} bytes, {} were written", k, eb.len());
                ctx.count("bytes_written", (by.len() + k) as u64);
                let (f, g) = (temp_file(ctx, &eb), temp_file(ctx, &by));
                let c = unsafe { SumEmbeddings::from_files(&f, Some(&g)) }.map_err(|e| e.to_string())?;
                let o = std::mem::replace(&mut self.c, c);
                self.old.push((o, self.els.clone(), self.emb.clone()));
                "write+from_files".into()
            }
            _ => {
                let mut c = self.c.clone();
                let t = terms(rng, self.emb.len());
                c.push(&t);
                let mut m = self.els.clone();
                m.push(t);
                let p = permutation(rng, n + 1);
                c.permute(&p);
                let m = p.iter().map(|&i| m[i].clone()).collect();
                self.old.push((c, m, self.emb.clone()));
                "change a clone".into()
            }
        };
        self.log.push(what);
        Ok(())
    }

    pub fn check(&self) -> Res {
        same_sum(&self.c, &self.els, &self.emb, self.dim, "collection")?;
        for (c, m, e) in &self.old {
            same_sum(c, m, e, self.dim, "earlier copy")?;
        }
        for (a, b) in &self.taken {
            ensure!(a == b, "embedding taken earlier changed");
        }
        Ok(())
    }

    pub fn check_bytes(&self, rng: &mut Rng, ctx: &Ctx) -> Res {
        let by = written(&self.c, "write")?;
        ensure!(by == codec::encode_terms(&self.els), "{} elements are stored as {:?}...", self.els.len(), &by[..by.len().min(64)]);
        let mut eb = Vec::new();
        let k = no_panic("write_embeddings", || self.c.write_embeddings(&mut eb))?.map_err(|e| e.to_string())?;
        ensure!(k == eb.len(), "write_embeddings reports {} bytes, {} were written", k, eb.len());
        if !self.emb.is_empty() {
            ensure!(eb == codec::encode_f32(&self.emb, self.dim), "embeddings are stored as {:?}...", &eb[..eb.len().min(64)]);
        }
        ctx.count("bytes_written", (by.len() + k) as u64);
        let s = Shifted::new(&by, rng.below(16));
        let mut c = no_panic("from_bytes", || SumEmbeddings::from_bytes(Default::default(), s.get()))?;
        for e in &self.emb {
            c.push_embedding(e);
        }
        same_sum(&c, &self.els, &self.emb, self.dim, "loaded from bytes")?;
        ensure!(written(&c, "write")? == by, "writing what was loaded gives other bytes");
        let (f, g) = (temp_file(ctx, &eb), temp_file(ctx, &by));
        let c = no_panic("from_files", || unsafe { SumEmbeddings::from_files(&f, Some(&g)) })?.map_err(|e| format!("from_files: {}", e))?;
        drop((f, g));
        same_sum(&c, &self.els, &self.emb, self.dim, "loaded from files")?;
        ensure!(written(&c, "write")? == by, "writing what was loaded gives other bytes");
        let mut eb2 = Vec::new();
        c.write_embeddings(&mut eb2).map_err(|e| e.to_string())?;
        ensure!(eb2 == eb, "writing loaded embeddings gives other bytes");
        Ok(())
    }

    pub fn digest(&self) -> u64 {
        hash_bytes(&codec::encode_terms(&self.els)) ^ hash_bytes(self.log.join(",").as_bytes())
    }
}

fn same_sum(c: &SumEmbeddings, els: &[Vec<usize>], emb: &[Vec<f32>], dim: usize, what: &str) -> Res {
    ensure!(c.len() == els.len(), "{}: {} elements instead of {}", what, c.len(), els.len());
    ensure!(ElementContainer::len(c) == els.len(), "{}: container length", what);
    ensure!(c.num_embeddings() == emb.len(), "{}: {} embeddings instead of {}", what, c.num_embeddings(), emb.len());
    for (i, t) in els.iter().enumerate() {
        let g = c.get_terms(i);
        ensure!(&g == t, "{}: terms of element {} are {:?} instead of {:?}", what, i, g, t);
        if emb.is_empty() {
            continue;
        }
        if let Some(s) = sum_of(emb, t, dim) {
            let g = c.get_embedding(i);
            ensure!(close(&g, &s, t.len()), "{}: embedding of {:?} is {:?} instead of {:?}", what, t, g, s);
            let g = c.create_embedding(t);
            ensure!(close(&g, &s, t.len()), "{}: create_embedding({:?}) is {:?} instead of {:?}", what, t, g, s);
            let e = c.get(i);
            let norm = s.iter().map(|x| x.0 * x.0).sum::<f64>().sqrt();
            let loss: f64 = s.iter().map(|x| x.1).sum();
            if norm > f64::max(1e-3, 1e-4 * t.len() as f64) * loss {
                let ok = e.len() == dim && e.as_slice().iter().zip(&s).all(|(x, y)| (*x as f64 - y.0 / norm).abs() < 1e-3);
                ensure!(ok, "{}: element {} is {:?}, its sum {:?}", what, i, e.as_slice(), s);
            } else if t.is_empty() {
                ensure!(e.as_slice().iter().all(|x| *x == 0.0) && e.len() == dim, "{}: element without terms is {:?}", what, e.as_slice());
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- drivers
const WIDE: &[usize] = &[127, 128, 254, 255, 256, 257, 1000, 4096, 32_768, 65_535, 65_536, 65_537, 100_000];

macro_rules! drive {
    ($c:expr, $model:path, $bytes:expr) => {
        drive!($c, $model, $bytes, new, if $bytes { 8 } else { 25 })
    };
    ($c:expr, $model:path, $bytes:expr, $make:ident, $most:expr) => {{
        let mut rng = $c.rng.fork();
        type M = $model;
        let mut m = M::$make(&mut rng, $c.ctx)?;
        let steps = rng.range(0, $most);
        let r = (|| -> Res {
            m.check()?;
            for _ in 0..steps {
                m.step(&mut rng, $c.ctx)?;
                if $bytes {
                    m.check_bytes(&mut rng, $c.ctx)?;
                } else {
                    m.check()?;
                }
            }
            if $bytes {
                m.check_bytes(&mut rng, $c.ctx)?;
            }
            m.check()
        });
        let r = { let mut r = r; no_panic("operation", || r()) };
        $c.note(format!("{} dim={} {}", stringify!($model), m.dim, m.log.join(" ")));
        r??;
        $c.ctx.count("operations", m.log.len() as u64);
        if m.log.len() > 1 {
            $c.nontrivial(m.digest());
        }
        Ok(())
    }};
}

pub fn c18_f32(c: &mut Case) -> Res {
    drive!(c, f32s::Model, false)
}
pub fn c18_i8(c: &mut Case) -> Res {
    drive!(c, i8s::Model, false)
}
pub fn c18_sum(c: &mut Case) -> Res {
    drive!(c, SumModel, false)
}
pub fn c05_f32(c: &mut Case) -> Res {
    drive!(c, f32s::Model, true)
}
pub fn c05_i8(c: &mut Case) -> Res {
    drive!(c, i8s::Model, true)
}
pub fn c05_sum(c: &mut Case) -> Res {
    drive!(c, SumModel, true)
}

fn wide(c: &mut Case, bytes: bool) -> Res {
    match c.idx % 3 {
        0 => drive!(c, f32s::Model, bytes, wide, 4),
        1 => drive!(c, i8s::Model, bytes, wide, 4),
        _ => drive!(c, SumModel, bytes, wide, 4),
    }
}

/// large collections: more than one chunk of every chunked operation
fn large(c: &mut Case, bytes: bool) -> Res {
    let mut rng = c.rng.fork();
    let n = *rng.pick(&[9_999, 10_000, 10_001, 25_000, 66_000]);
    let how = rng.below(6);
    c.note(format!("large n={} kind={} permutation {}", n, c.idx % 3, how));
    // one long cycle, many short ones, few moves near either end
    let p: Vec<usize> = match how {
        0 => (0..n).rev().collect(),
        1 => {
            let mut p: Vec<usize> = (0..n).collect();
            p.chunks_exact_mut(2).for_each(|x| x.swap(0, 1));
            p
        }
        2 => {
            let k = rng.range(1, n - 1);
            (0..n).map(|i| (i + k) % n).collect()
        }
        3 => {
            let mut p: Vec<usize> = (0..n).collect();
            for _ in 0..rng.range(1, 20) {
                let (a, b) = (rng.below(n), rng.below(n));
                p.swap(a, b);
                p.swap(n - 1 - a % 50, n - 1 - b % 50);
            }
            p
        }
        4 => {
            let mut p: Vec<usize> = (0..n).collect();
            let k = *rng.pick(&[3usize, 10, 97, 1000]);
            for b in p.chunks_mut(k) {
                rng.shuffle(b);
            }
            p
        }
        _ => permutation(&mut rng, n),
    };
    match c.idx % 3 {
        0 => {
            let m: Vec<Vec<usize>> = (0..n).map(|_| { let k = rng.below(4); (0..k).map(|_| rng.below(20)).collect() }).collect();
            let mut s = SumEmbeddings::new();
            for t in &m {
                s.push(t);
            }
            s.permute(&p);
            let want: Vec<Vec<usize>> = p.iter().map(|&i| m[i].clone()).collect();
            ensure!(s.len() == n, "{} elements instead of {}", s.len(), n);
            for i in 0..n {
                ensure!(s.get_terms(i) == want[i], "terms of {} are {:?} instead of {:?}", i, s.get_terms(i), want[i]);
            }
            if bytes {
                ensure!(written(&s, "write")? == codec::encode_terms(&want), "bytes of {} elements differ", n);
            }
        }
        1 => {
            let m: Vec<Vec<f32>> = (0..n).map(|_| vec![rng.sf(), rng.sf()]).collect();
            let mut v = angular::Vectors::from_vec(m.concat(), 2);
            v.permute(&p);
            let want: Vec<Vec<f32>> = p.iter().map(|&i| m[i].clone()).collect();
            f32s::same(&v, &want, 2, "large")?;
            if bytes {
                ensure!(written(&v, "write")? == codec::encode_f32(&want, 2), "bytes of {} elements differ", n);
            }
        }
        _ => {
            let m: Vec<Vec<i8>> = (0..n).map(|_| vec![rng.next() as i8; 3]).collect();
            let mut v = angular_int::Vectors::from_vec(m.concat(), 3);
            v.permute(&p);
            let want: Vec<Vec<i8>> = p.iter().map(|&i| m[i].clone()).collect();
            i8s::same(&v, &want, 3, "large")?;
            if bytes {
                ensure!(written(&v, "write")? == codec::encode_i8(&want, 3), "bytes of {} elements differ", n);
            }
        }
    }
    c.nontrivial(rng.seed());
    Ok(())
}

/// more scalars and terms than 2^24, files of more than 64 MB
fn bulk(c: &mut Case) -> Res {
    let mut rng = c.rng.fork();
    let kind = c.idx % 3;
    c.note(format!("bulk kind={}", kind));
    let d = Dir::new(c.ctx);
    let store = |by: &[u8]| {
        std::fs::write(d.p("bulk"), by).expect("scratch file");
        std::fs::File::open(d.p("bulk")).expect("scratch file")
    };
    macro_rules! dense {
        ($m:ident, $t:ty, $total:expr, $gen:expr) => {{
            let dim = rng.range(1, 70);
            let n = $total / dim + rng.below(100) + 1;
            let k = rng.range(1, n - 1);
            let all: Vec<$t> = (0..n * dim).map(|_| $gen(&mut rng)).collect();
            let mut v = $m::Vectors::from_slice(&all[..k * dim], dim);
            no_panic("extend", || v.extend($m::Vectors::from_slice(&all[k * dim..], dim)))?;
            ensure!(v.len() == n && v.as_slice().iter().zip(&all).all(|(a, b)| a.to_le_bytes() == b.to_le_bytes()), "extending {} vectors by {} gives others", k, n - k);
            let by = written(&v, "write")?;
            let bytes: Vec<u8> = all.iter().flat_map(|x| x.to_le_bytes()).collect();
            ensure!(by[..8] == (dim as u64).to_le_bytes() && by[8..] == bytes[..], "the bytes of {} vectors of dimension {} differ", n, dim);
            let f = store(&by);
            let l = no_panic("from_file", || unsafe { $m::Vectors::from_file(&f) })?.map_err(|e| e.to_string())?;
            ensure!(l.len() == n && l.dim() == dim, "{} vectors of dimension {} loaded as {} of {}", n, dim, l.len(), l.dim());
            for i in (0..500).map(|_| rng.below(n)).chain([0, n - 1]) {
                let g = no_panic("get_element", || l.get_element(i).into_vec())?;
                ensure!(g.iter().zip(&all[i * dim..]).all(|(a, b)| a.to_le_bytes() == b.to_le_bytes()), "vector {} of {} loads as another one", i, n);
            }
            ensure!(written(&l, "write")? == by, "rewriting {} loaded vectors gives other bytes", n);
            c.ctx.count("bulk_bytes", by.len() as u64);
        }};
    }
    match kind {
        0 => dense!(angular, f32, 17_000_000, |r: &mut Rng| f32::from_bits(r.next() as u32 & 0x7f7f_ffff)),
        1 => dense!(angular_int, i8, 70_000_000, |r: &mut Rng| r.next() as i8),
        _ => {
            let n = rng.range(14_000, 40_000);
            let per = 17_200_000 / n;
            let m: Vec<Vec<usize>> = (0..n).map(|_| { let k = rng.range(per - 20, per + 60); (0..k).map(|_| rng.below(1 << 24)).collect() }).collect();
            let mut s = SumEmbeddings::new();
            for t in &m {
                s.push(t);
            }
            let by = written(&s, "write")?;
            ensure!(by == codec::encode_terms(&m), "the bytes of {} elements of about {} terms differ", n, per);
            let f = store(&by);
            let we = written(&angular::Vectors::from_vec(vec![1.0, 2.0], 2), "write")?;
            std::fs::write(d.p("words"), we).expect("scratch file");
            let fw = std::fs::File::open(d.p("words")).expect("scratch file");
            let l = no_panic("from_files", || unsafe { SumEmbeddings::from_files(&fw, Some(&f)) })?.map_err(|e| e.to_string())?;
            ensure!(l.len() == n, "{} elements loaded as {}", n, l.len());
            for (i, t) in m.iter().enumerate() {
                ensure!(&s.get_terms(i) == t && &l.get_terms(i) == t, "the terms of element {} of {} are others", i, n);
            }
            ensure!(written(&l, "write")? == by, "rewriting {} loaded elements gives other bytes", n);
            let p = permutation(&mut rng, n);
            s.permute(&p);
            for (i, j) in p.iter().enumerate() {
                ensure!(s.get_terms(i) == m[*j], "the terms of permuted element {} of {} are others", i, n);
            }
            c.ctx.count("bulk_bytes", by.len() as u64);
        }
    }
    c.nontrivial(rng.seed());
    Ok(())
}

/// several million elements (the parallel part of permuting works on 400 parts from there on)
fn millions(c: &mut Case) -> Res {
    let mut rng = c.rng.fork();
    let n = 4_000_000 + rng.range(1, 60_000);
    let per = 8;
    c.note(format!("millions n={}", n));
    let terms: Vec<u32> = (0..n * per).map(|_| rng.next() as u32 >> 8).collect();
    let len = |i: usize| 1 + terms[i * per] as usize % per;
    let of = |i: usize| terms[i * per..i * per + len(i)].iter().map(|x| *x as usize);
    let mut s = SumEmbeddings::new();
    let mut one = Vec::new();
    for i in 0..n {
        one.clear();
        one.extend(of(i));
        s.push(&one);
    }
    let total: usize = (0..n).map(len).sum();
    let p = permutation(&mut rng, n);
    no_panic("permute", || s.permute(&p))?;
    ensure!(s.len() == n, "{} elements permuted are {}", n, s.len());
    for (i, j) in p.iter().enumerate() {
        ensure!(s.get_terms(i).into_iter().eq(of(*j)), "the terms of permuted element {} of {} are {:?} instead of those of {}", i, n, s.get_terms(i), j);
    }
    let by = written(&s, "write")?;
    ensure!(by.len() == 8 + 5 * (n + 1) + 3 * total, "{} permuted elements of {} terms are written as {} bytes", n, total, by.len());
    c.ctx.count("permuted_elements", n as u64);
    c.nontrivial(rng.seed());
    Ok(())
}

pub fn run_c18(ctx: &Ctx) {
    ctx.rule("Random sequences of push, extend, permute, clone, borrow, into_owned, get, write+reload (bytes at any alignment, mapped files) and changes to copies, on dense float, dense integer and embedding-sum collections from random sources, mirrored on a plain list; after every operation the collection, all earlier copies and all elements taken earlier are compared with the mirror. Also four million elements permuted, and tens of thousands by long and short cycles. Non-trivial: at least one operation; distinct: different contents and operation log.");
    let w = ctx.workers;
    ctx.cases("f32", ctx.n(4000, 80000), w, c18_f32);
    ctx.cases("i8", ctx.n(3000, 60000), w, c18_i8);
    ctx.cases("sums", ctx.n(3000, 60000), w, c18_sum);
    ctx.cases("large", ctx.n(18, 120), w, |c| large(c, false));
    ctx.cases("wide", ctx.n(48, 1500), w, |c| wide(c, false));
    ctx.cases("millions", ctx.n(1, 8), 2, millions);
}

pub fn run_c05(ctx: &Ctx) {
    ctx.rule("Element collections from random sources after random operations (arbitrary float bit patterns, all integers, any 3-byte term ids, empty collections and elements) written to a stream: returned count, every byte against an independent encoder, and the contents after loading from a byte slice at a random alignment and from a mapped file, and rewriting; up to 66,000 elements, and collections of more than 2^24 terms or scalars and 64 MB. Non-trivial: at least one operation; distinct: different contents and operation log.");
    let w = ctx.workers;
    ctx.cases("f32", ctx.n(3000, 60000), w, c05_f32);
    ctx.cases("i8", ctx.n(3000, 60000), w, c05_i8);
    ctx.cases("sums", ctx.n(3000, 60000), w, c05_sum);
    ctx.cases("wide", ctx.n(48, 1500), w, |c| wide(c, true));
    ctx.cases("large", ctx.n(18, 120), w, |c| large(c, true));
    ctx.cases("bulk", ctx.n(3, 24), w.min(3), bulk);
}
