//! C06: the bytes on disk, against an independent reader and writer.
use crate::codec;
use crate::elems::{leak_shifted, written};
use crate::gen::*;
use crate::graph::*;
use crate::kinds::*;
use crate::util::*;
use crate::{any_kind, ensure};
use granne::{angular, angular_int, embeddings::SumEmbeddings, Builder, Granne, GranneBuilder, Index};

fn to_usize(l: &[Vec<Vec<u32>>]) -> View {
    View { layers: l.iter().map(|l| l.iter().map(|n| n.iter().map(|x| *x as usize).collect()).collect()).collect() }
}

/// what the library writes, read strictly
fn written_by_library<K: Kind>(c: &mut Case) -> Res {
    let mut rng = c.rng.fork();
    let t = built::<K>(&mut rng, &Opt { partial: true, ..Default::default() })?;
    c.note(t.desc.clone());
    let want = set_view(&t.b);
    let by = index_bytes(&t.b)?;
    let (_, l) = codec::decode_index(&by).map_err(|e| format!("written index: {}", e))?;
    ensure!(to_usize(&l) == want, "an independent reader sees other neighbors");
    c.ctx.count("nodes_decoded", l.iter().map(|x| x.len() as u64).sum());
    // the same through the other write paths
    let ix = Granne::from_bytes(&by, t.b.get_elements().clone());
    let by2 = index_bytes(&ix)?;
    let (_, l2) = codec::decode_index(&by2).map_err(|e| format!("rewritten index: {}", e))?;
    ensure!(to_usize(&l2) == want, "an independent reader of the rewritten index sees other neighbors");
    if t.b.len() == t.b.num_elements() {
        let mut ix = t.b.get_index().to_owned();
        no_panic("reorder", || ix.reorder(false))?;
        let by3 = index_bytes(&ix)?;
        let (_, l3) = codec::decode_index(&by3).map_err(|e| format!("reordered index: {}", e))?;
        ensure!(to_usize(&l3) == set_view(&ix), "an independent reader of the reordered index sees other neighbors");
    }
    if by.len() > 1024 + 200 {
        c.nontrivial(hash_bytes(&by));
    }
    Ok(())
}

/// random neighbor set with the given largest id
fn set(rng: &mut Rng, max: u32) -> Vec<u32> {
    let k = match rng.below(8) {
        0 => 0,
        1 => 1,
        2 => rng.range(1, 5),
        3 => rng.range(250, 255),
        4 => rng.range(40, 255),
        _ => rng.range(2, 40),
    };
    let mut v: Vec<u32> = match rng.below(7) {
        // evenly spaced over the whole range: differences of one size, up to lists that do not compress
        6 => (1..=k as u64).map(|i| (max as u64 * i / k as u64) as u32).collect(),
        // consecutive
        0 => {
            let k = k.min(max as usize + 1);
            let a = rng.below((max as usize + 1 - k) + 1) as u32;
            (a..a + k as u32).collect()
        }
        // differences exactly at the byte boundaries
        1 => {
            let mut at = 0u64;
            let mut v = Vec::new();
            for _ in 0..k {
                at += *rng.pick(&[0u64, 1, 127, 128, 255, 256, 65535, 65536, (1 << 24) - 1, 1 << 24]);
                if at <= max as u64 {
                    v.push(at as u32);
                }
            }
            v
        }
        // large ids
        2 => (0..k).map(|i| max - i as u32 * rng.range(1, 3) as u32 % (max / 2 + 1)).collect(),
        _ => (0..k).map(|_| rng.below(max as usize + 1) as u32).collect(),
    };
    v.sort_unstable();
    v.dedup();
    v
}

/// what an independent writer writes, loaded by the library
pub(crate) fn written_elsewhere(c: &mut Case) -> Res {
    let mut rng = c.rng.fork();
    let nl = *rng.pick(&[0, 1, 1, 1, 2, 3, 5, 8]);
    let mut sizes: Vec<usize> = (0..nl).map(|_| *rng.pick(&[1, 2, 10, 59, 60, 61, 119, 120, 121, 150])).collect();
    sizes.sort_unstable();
    loaded(c, rng, sizes)
}

/// more nodes than fit in two bytes
pub(crate) fn large_elsewhere(c: &mut Case) -> Res {
    let mut rng = c.rng.fork();
    let sizes = vec![rng.range(1, 300), rng.range(65_530, 90_000)];
    loaded(c, rng, sizes)
}

fn loaded(c: &mut Case, mut rng: Rng, sizes: Vec<usize>) -> Res {
    let nl = sizes.len();
    let max = *rng.pick(&[3u32, 200, 70_000, 1 << 24, u32::MAX - 1, u32::MAX - 1]);
    let layers: Vec<Vec<Vec<u32>>> = sizes.iter().map(|&s| (0..s).map(|_| set(&mut rng, max)).collect()).collect();
    c.note(format!("layers {:?} ids up to {}", sizes, max));
    let version = *rng.pick(&["0.5.2", "0.1.0", "0.4.9"]);
    let by = codec::encode_index(&layers, version);
    let (_, back) = codec::decode_index(&by).map_err(|e| format!("CONTRACT own reader refuses own file: {}", e))?;
    assert!(back == layers, "own codec");
    let n = sizes.last().copied().unwrap_or(0);
    let els: angular::Vectors = angular::Vectors::from_vec(vec![1.0; n], 1);
    let want = to_usize(&layers);
    let off = rng.below(16);
    let s = Shifted::new(&by, off);
    let ix = no_panic("from_bytes", || Granne::from_bytes(s.get(), els.clone()))?;
    let got = no_panic("reading", || view(&ix))?;
    ensure!(set_eq(&got, &want), "loaded from bytes: {}", first_diff(&got, &want));
    let f = temp_file(c.ctx, &by);
    let ix = no_panic("from_file", || unsafe { Granne::from_file(&f, els.clone()) })?.map_err(|e| e.to_string())?;
    let got = no_panic("reading", || view(&ix))?;
    ensure!(set_eq(&got, &want), "loaded from file: {}", first_diff(&got, &want));
    let own = no_panic("to_owned", || Granne::from_bytes(s.get(), &els).to_owned())?;
    let got = no_panic("reading", || view(&own))?;
    ensure!(set_eq(&got, &want), "loaded and owned: {}", first_diff(&got, &want));
    let cfg = Cfg { nn: 255, ms: 5, mult: 15.0, reinsert: false, expected: None, progress: false };
    let b = no_panic("GranneBuilder::from_bytes", || GranneBuilder::from_bytes(cfg.build(), s.get(), els.clone()))?;
    let got = no_panic("reading", || view(&b))?;
    ensure!(set_eq(&got, &want), "loaded into builder: {}", first_diff(&got, &want));
    // rewriting either way is canonical
    for (what, w) in [("index", index_bytes(&ix)?), ("owned index", index_bytes(&own)?), ("builder", index_bytes(&b)?)] {
        let (_, l) = codec::decode_index(&w).map_err(|e| format!("rewritten by {}: {}", what, e))?;
        ensure!(l == layers, "rewritten by {}: {}", what, first_diff(&to_usize(&l), &want));
        ensure!(w[1024..] == by[1024..], "rewritten by {}: graph bytes differ", what);
    }
    c.ctx.count("nodes_loaded", 4 * sizes.iter().sum::<usize>() as u64);
    if nl > 0 {
        c.nontrivial(hash_bytes(&by));
    }
    Ok(())
}

fn set_eq(a: &View, b: &View) -> bool {
    let mut a = a.clone();
    a.layers.iter_mut().flatten().for_each(|n| n.sort_unstable());
    &a == b
}

fn first_diff(a: &View, b: &View) -> String {
    if a.layers.len() != b.layers.len() {
        return format!("{} layers instead of {}", a.layers.len(), b.layers.len());
    }
    for (l, (x, y)) in a.layers.iter().zip(&b.layers).enumerate() {
        if x.len() != y.len() {
            return format!("layer {} has {} nodes instead of {}", l, x.len(), y.len());
        }
        for (i, (p, q)) in x.iter().zip(y).enumerate() {
            let mut p = p.clone();
            p.sort_unstable();
            if &p != q {
                return format!("node {} of layer {}: {:?} instead of {:?}", i, l, p, q);
            }
        }
    }
    "?".into()
}

/// elements: the documented little-endian layouts in both directions
fn elements(c: &mut Case) -> Res {
    let mut rng = c.rng.fork();
    let dim = rng.range(1, 40);
    let n = rng.below(50);
    c.note(format!("elements n={} dim={}", n, dim));
    let f: Vec<Vec<f32>> = (0..n).map(|_| (0..dim).map(|_| rng.sf() * 10f32.powi(rng.below(20) as i32 - 10)).collect()).collect();
    let by = codec::encode_f32(&f, dim);
    let v = angular::Vectors::from_bytes(leak_shifted(&by, rng.below(8)));
    crate::elems::f32s::same(&v, &f, dim, "float file")?;
    let mut w = angular::Vectors::new();
    for x in &f {
        w.push(&angular::Vector(x.clone().into()));
    }
    let mine = written(&w, "write")?;
    ensure!(n == 0 || mine == by, "float file differs from the documented layout");
    let q: Vec<Vec<i8>> = (0..n).map(|_| (0..dim).map(|_| rng.next() as i8).collect()).collect();
    let by = codec::encode_i8(&q, dim);
    let v = angular_int::Vectors::from_bytes(leak_shifted(&by, rng.below(8)));
    crate::elems::i8s::same(&v, &q, dim, "integer file")?;
    let mut w = angular_int::Vectors::new();
    for x in &q {
        w.push(&angular_int::Vector(x.clone().into()));
    }
    ensure!(n == 0 || written(&w, "write")? == by, "integer file differs from the documented layout");
    let t: Vec<Vec<usize>> = (0..n)
        .map(|_| {
            let k = rng.below(9);
            (0..k).map(|_| *rng.pick(&[0usize, 1, 255, 256, 65535, 65536, 1 << 23, (1 << 24) - 1])).collect()
        })
        .collect();
    let by = codec::encode_terms(&t);
    let s = SumEmbeddings::from_bytes(Default::default(), leak_shifted(&by, rng.below(8)));
    ensure!(s.len() == n, "term file: {} elements instead of {}", s.len(), n);
    for i in 0..n {
        ensure!(s.get_terms(i) == t[i], "term file: element {} is {:?} instead of {:?}", i, s.get_terms(i), t[i]);
    }
    let mut w = SumEmbeddings::new();
    for x in &t {
        w.push(x);
    }
    ensure!(written(&w, "write")? == by, "term file differs from the documented layout");
    if n > 0 {
        c.nontrivial(rng.seed());
    }
    Ok(())
}

/// files written by the release this code descends from, kept under golden/
fn golden(c: &mut Case) -> Res {
    let dir = std::path::Path::new(env!("CARGO_MANIFEST_DIR")).join("../golden");
    let names = ["angular", "angular_int", "embeddings", "empty", "single"];
    let name = names[c.idx as usize % names.len()];
    c.note(format!("golden {}", name));
    let rd = |s: &str| std::fs::read(dir.join(format!("{}.{}", name, s))).expect("golden file");
    let by = rd("index");
    let (_, l) = codec::decode_index(&by).map_err(|e| format!("golden: {}", e))?;
    let want = to_usize(&l);
    let text = String::from_utf8(rd("view")).unwrap();
    let listed: View = View { layers: serde_json::from_str(&text).unwrap() };
    assert!(listed == want, "golden view");
    let search: Vec<(usize, Vec<(usize, f32)>)> = serde_json::from_slice(&rd("search")).unwrap();
    let e = leak_shifted(&rd("elements"), 0);
    let b = leak_shifted(&by, 3);
    let chk = |w: Vec<(usize, f32)>, r: &Vec<(usize, f32)>| -> Res {
        let ok = w.len() == r.len() && w.iter().zip(r).all(|(a, b)| (a.1 - b.1).abs() < 1e-5) && w.iter().map(|x| x.0).collect::<Vec<_>>() == r.iter().map(|x| x.0).collect::<Vec<_>>();
        ensure!(ok, "stored index answers {:?} instead of {:?}", w, r);
        Ok(())
    };
    macro_rules! go {
        ($els:expr) => {{
            let els = $els;
            let ix = no_panic("from_bytes", || Granne::from_bytes(b, els))?;
            let got = view(&ix);
            ensure!(set_eq(&got, &want), "{}", first_diff(&got, &want));
            for (q, r) in &search {
                chk(ix.search(&ix.get_element(*q), 30, 10), r)?;
            }
            ensure!(index_bytes(&ix)?[1024..] == by[1024..], "rewriting the stored index gives other bytes");
            let mut w = Vec::new();
            ix.write_elements(&mut w).map_err(|e| e.to_string())?;
            ensure!(w == e, "rewriting the stored elements gives other bytes");
        }};
    }
    match name {
        "angular_int" => go!(angular_int::Vectors::from_bytes(e)),
        "embeddings" => {
            let emb = angular::Vectors::from_bytes(leak_shifted(&rd("emb"), 0));
            let mut s = SumEmbeddings::from_bytes(Default::default(), e);
            for i in 0..emb.len() {
                s.push_embedding(emb.get_element(i).as_slice());
            }
            go!(s)
        }
        _ => go!(angular::Vectors::from_bytes(e)),
    }
    c.nontrivial(hash_bytes(&by));
    Ok(())
}

/// what does not begin like an index is not taken for one
fn foreign(c: &mut Case) -> Res {
    let mut rng = c.rng.fork();
    let n = rng.range(1, 30);
    let dim = rng.range(1, 6);
    c.note(format!("foreign n={}", n));
    let e: angular::Vectors = (0..n).map(|_| (0..dim).map(|_| rng.sf()).collect::<angular::Vector>()).collect();
    let mut b = GranneBuilder::new(granne::BuildConfig::new().num_neighbors(rng.range(2, 9)), e.clone());
    no_panic("build", || b.build())?;
    let good = index_bytes(&b)?;
    let d = Dir::new(c.ctx);
    for k in 0..14 {
        let mut by = good.clone();
        let what = match k {
            0..=5 => {
                by[k] ^= 1 << rng.below(8);
                format!("byte {} of the marker changed", k)
            }
            6 => {
                by.drain(..6);
                by.insert(1018, b' ');
                "marker missing".into()
            }
            7 => {
                by[..6].copy_from_slice(b"GRANNE");
                "marker in capitals".into()
            }
            8 => {
                by[..6].copy_from_slice(b"      ");
                "blank marker".into()
            }
            9 => {
                by[..6].copy_from_slice(&[0; 6]);
                "zero marker".into()
            }
            10 => {
                by[..6].copy_from_slice(&[0xff; 6]);
                "marker that is no text".into()
            }
            11 => {
                by.insert(0, *rng.pick(b"g \n\0{"));
                "shifted by a byte".into()
            }
            12 => {
                by.drain(..1);
                "first byte missing".into()
            }
            _ => {
                by = written(&e, "write")?;
                "a file of vectors".into()
            }
        };
        std::fs::write(d.p("index"), &by).unwrap();
        let mem = leak_shifted(&by, rng.below(8));
        let from_file = rng.chance(0.5);
        let r = catch(|| {
            if from_file {
                unsafe { Granne::from_file(&std::fs::File::open(d.p("index")).unwrap(), e.borrow()) }.map(|x| x.len())
            } else {
                Ok(Granne::from_bytes(mem, e.borrow()).len())
            }
        });
        match r {
            Err(Panicked::Harness(m)) => panic!("{}", m),
            Ok(Ok(n)) => return Err(format!("{}: loaded as an index of {} elements", what, n)),
            _ => c.ctx.count("foreign_refused", 1),
        }
    }
    c.nontrivial(hash_bytes(&good));
    Ok(())
}

fn hole_file(d: &Dir, name: &str, len: u64, parts: &[(u64, &[u8])]) -> Option<std::fs::File> {
    use std::os::unix::fs::FileExt;
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(d.p(name)).expect("scratch file");
    // a file system that cannot hold such a file
    f.set_len(len).ok()?;
    for (at, b) in parts {
        f.write_all_at(b, *at).expect("scratch file");
    }
    Some(f)
}

/// files of many gigabytes (holes, except where something is looked at): positions beyond 2^32
fn sparse(c: &mut Case) -> Res {
    let mut rng = c.rng.fork();
    let d = Dir::new(c.ctx);
    c.note("sparse".into());
    let far = |rng: &mut Rng| (1u64 << 32) + rng.below(1 << 33) as u64;
    // vectors
    let dim = rng.range(1000, 2000);
    let n = rng.range(2_300_000, 3_000_000);
    let mut at: Vec<usize> = (0..6).map(|_| rng.below(n)).chain([0, n - 1, n - 2]).collect();
    at.sort_unstable();
    at.dedup();
    let vs: Vec<Vec<f32>> = at.iter().map(|_| (0..dim).map(|_| rng.sf()).collect()).collect();
    let by: Vec<Vec<u8>> = vs.iter().map(|v| v.iter().flat_map(|x| x.to_le_bytes()).collect()).collect();
    let head = (dim as u64).to_le_bytes();
    let mut parts: Vec<(u64, &[u8])> = at.iter().zip(&by).map(|(i, b)| (8 + (*i * dim * 4) as u64, &b[..])).collect();
    parts.push((0, &head));
    let f = match hole_file(&d, "vectors", 8 + (n * dim * 4) as u64, &parts) {
        None => return Ok(()),
        Some(f) => f,
    };
    let els = no_panic("from_file", || unsafe { angular::Vectors::from_file(&f) })?.map_err(|e| e.to_string())?;
    ensure!(els.len() == n && els.dim() == dim, "{} vectors of dimension {} in a file of {} of {}", els.len(), els.dim(), n, dim);
    for (i, v) in at.iter().zip(&vs) {
        let got = no_panic("get_element", || els.get_element(*i).into_vec())?;
        ensure!(got.iter().map(|x| x.to_bits()).eq(v.iter().map(|x| x.to_bits())), "vector {} of {} of dimension {} is another one", i, n, dim);
    }
    // quantized vectors
    let (dim8, n8) = (dim * 4, rng.range(1_500_000, 2_500_000));
    let vs8: Vec<Vec<i8>> = (0..4).map(|_| (0..dim8).map(|_| rng.below(255) as i8).collect()).collect();
    let at8 = [1, n8 / 2, n8 - 2, n8 - 1];
    let by8: Vec<Vec<u8>> = vs8.iter().map(|v| v.iter().map(|x| *x as u8).collect()).collect();
    let head8 = (dim8 as u64).to_le_bytes();
    let mut parts: Vec<(u64, &[u8])> = at8.iter().zip(&by8).map(|(i, b)| (8 + (*i * dim8) as u64, &b[..])).collect();
    parts.push((0, &head8));
    if let Some(f) = hole_file(&d, "quantized", 8 + (n8 * dim8) as u64, &parts) {
        let els = no_panic("from_file", || unsafe { angular_int::Vectors::from_file(&f) })?.map_err(|e| e.to_string())?;
        ensure!(els.len() == n8 && els.dim() == dim8, "{} vectors of dimension {} in a file of {} of {}", els.len(), els.dim(), n8, dim8);
        for (i, v) in at8.iter().zip(&vs8) {
            let got = no_panic("get_element", || els.get_element(*i).into_vec())?;
            ensure!(&got == v, "vector {} of {} of dimension {} is another one", i, n8, dim8);
        }
        c.ctx.count("far_vectors", 4);
    }
    c.ctx.count("far_vectors", at.len() as u64);
    // terms: one element holds the hole
    let (m, hole) = (rng.range(20, 300), rng.below(15));
    let terms: Vec<Vec<usize>> = (0..m).map(|_| (0..rng.below(6)).map(|_| at[rng.below(at.len())]).collect()).collect();
    let (mut table, mut run, mut where_) = ((m as u64).to_le_bytes().to_vec(), 0u64, Vec::new());
    let five = |t: &mut Vec<u8>, x: u64| t.extend(&x.to_le_bytes()[..5]);
    five(&mut table, 0);
    for i in 0..m {
        where_.push(run);
        run += terms[i].len() as u64 + if i == hole { far(&mut rng) } else { 0 };
        five(&mut table, run);
    }
    let data_at = table.len() as u64;
    let tb: Vec<Vec<u8>> = terms.iter().map(|t| t.iter().flat_map(|x| x.to_le_bytes()[..3].to_vec()).collect()).collect();
    let mut parts: Vec<(u64, &[u8])> = where_.iter().zip(&tb).map(|(w, b)| (data_at + 3 * w, &b[..])).collect();
    parts.push((0, &table));
    let fe = match hole_file(&d, "terms", data_at + 3 * run, &parts) {
        None => return Ok(()),
        Some(f) => f,
    };
    let sums = no_panic("from_files", || unsafe { SumEmbeddings::from_files(&f, Some(&fe)) })?.map_err(|e| e.to_string())?;
    ensure!(sums.len() == m && sums.num_embeddings() == n, "{} elements of {} embeddings instead of {} of {}", sums.len(), sums.num_embeddings(), m, n);
    for i in (0..m).filter(|i| *i != hole) {
        let got = no_panic("get_terms", || sums.get_terms(i))?;
        ensure!(got == terms[i], "element {} has the terms {:?} instead of {:?}", i, got, terms[i]);
        let mut want = vec![0f32; dim];
        for (k, t) in terms[i].iter().enumerate() {
            let v = &vs[at.binary_search(t).unwrap()];
            want.iter_mut().zip(v).for_each(|(w, x)| *w = if k == 0 { *x } else { *w + x });
        }
        let got = no_panic("get_embedding", || sums.get_embedding(i))?;
        ensure!(got.iter().map(|x| x.to_bits()).eq(want.iter().map(|x| x.to_bits())), "the embedding of element {} is not the sum of its terms", i);
        c.ctx.count("far_terms", terms[i].len() as u64);
    }
    // two layers, with a hole inside each of them
    let sizes = [rng.range(62, 300), m];
    let mut layers: Vec<Vec<Vec<u32>>> = Vec::new();
    let (mut file, mut lens, mut len): (Vec<(u64, Vec<u8>)>, Vec<u64>, u64) = (vec![], vec![], 1024);
    for &k in &sizes {
        // the node whose value contains the hole is the last one of a chunk of offsets
        let hole = if k >= 60 { Some(59) } else { None };
        let nodes: Vec<Vec<u32>> = (0..k)
            .map(|i| {
                let mut v: Vec<u32> = (0..if hole == Some(i) { 0 } else { rng.below(30) }).map(|_| rng.below(k) as u32).filter(|x| *x as usize != i && hole != Some(*x as usize)).collect();
                v.sort_unstable();
                v.dedup();
                v
            })
            .collect();
        let enc = codec::encode_layer(&nodes);
        let nb = u64::from_le_bytes(enc[..8].try_into().unwrap()) as usize;
        let mut table = enc[..8 + nb].to_vec();
        let data = &enc[8 + nb..];
        let gap = if hole.is_some() { far(&mut rng) } else { 0 };
        for ch in 1..nb / 128 {
            let p = 8 + ch * 128;
            let x = u64::from_le_bytes(table[p..p + 8].try_into().unwrap()) + gap;
            table[p..p + 8].copy_from_slice(&x.to_le_bytes());
        }
        let cut = if hole.is_some() { u64::from_le_bytes(enc[8 + 128..16 + 128].try_into().unwrap()) as usize } else { data.len() };
        let base = len + table.len() as u64;
        let size = table.len() as u64 + data.len() as u64 + gap;
        file.push((len, table));
        file.push((base, data[..cut].to_vec()));
        file.push((base + cut as u64 + gap, data[cut..].to_vec()));
        lens.push(size);
        len += size;
        layers.push(nodes);
    }
    let counts = sizes.to_vec();
    let meta = serde_json::json!({"granne_version": "0.5.2", "version": 2, "num_elements": m, "num_layers": 2, "num_neighbors": 9,
        "layer_counts": counts, "layer_sizes": lens, "compressed": true});
    let mut start = format!("granne{}", meta).into_bytes();
    start.resize(1024, b' ');
    file.push((0, start));
    let parts: Vec<(u64, &[u8])> = file.iter().map(|(a, b)| (*a, &b[..])).collect();
    if let Some(fi) = hole_file(&d, "index", len, &parts) {
        let ix = no_panic("from_file", || unsafe { Granne::from_file(&fi, sums) })?.map_err(|e| e.to_string())?;
        for (l, nodes) in layers.iter().enumerate() {
            ensure!(ix.layer_len(l) == nodes.len(), "layer {} has {} nodes instead of {}", l, ix.layer_len(l), nodes.len());
            for i in (0..nodes.len()).filter(|i| *i != 59) {
                let mut got = no_panic("get_neighbors", || ix.get_neighbors(i, l))?;
                got.sort_unstable();
                ensure!(got.iter().map(|x| *x as u32).eq(nodes[i].iter().copied()), "node {} of layer {} has the neighbors {:?} instead of {:?}", i, l, got, nodes[i]);
                c.ctx.count("far_nodes", 1);
            }
        }
    }
    c.nontrivial(hash_bytes(&table));
    Ok(())
}

pub fn run(ctx: &Ctx) {
    ctx.rule("(1) Index files written by the builder, by a loaded and by a reordered index are read by a strict independent reader that accounts for every byte and demands the canonical encoding; (2) index files by an independent writer with arbitrary neighbor sets (0-255 ids up to 2^32-2, sizes around the 60-offset chunks, also of 65,530 to 90,000 nodes) are loaded in every way, compared and rewritten; (3) element files both ways; (4) stored files of the original release; (5) files of up to 50 GB, nearly all of them holes, in which vectors, terms, embeddings and nodes lie beyond 4 GB; (6) files that do not begin with the marker are refused. Non-trivial: a file with nodes; distinct: different bytes.");
    let w = ctx.workers;
    ctx.cases("written", ctx.n(600, 10000), w, |c| any_kind!(c.rng, written_by_library, c));
    ctx.cases("loaded", ctx.n(1500, 30000), w, written_elsewhere);
    ctx.cases("loaded_large", ctx.n(2, 20), 2, large_elsewhere);
    ctx.cases("elements", ctx.n(600, 10000), w, elements);
    ctx.cases("foreign", ctx.n(60, 1000), w, foreign);
    ctx.cases("sparse", ctx.n(12, 200), w, sparse);
    ctx.cases("golden", 5, 1, golden);
}
