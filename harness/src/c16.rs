//! C16: distances against a double-precision reference; C17: normalization and quantization.
use crate::elems::leak_shifted;
use crate::ensure;
use crate::gen::*;
use crate::util::*;
use granne::embeddings::SumEmbeddings;
use granne::{angular, angular_int, Dist, ElementContainer, Writeable};

const EPS: f64 = f32::EPSILON as f64;

fn dim(rng: &mut Rng) -> usize {
    match rng.below(6) {
        0 => rng.range(1, 8),
        1 => *rng.pick(&[15, 16, 17, 31, 32, 33, 63, 64, 65, 95, 96, 97, 127, 128, 129]),
        2 => rng.range(1, 70),
        3 => rng.range(70, 400),
        4 => *rng.pick(&[300, 512, 768, 1023, 1024, 1025]),
        _ => rng.range(1, 40),
    }
}

/// finite vectors of ordinary magnitude
fn raw(rng: &mut Rng, d: usize) -> Vec<f32> {
    let scale = match rng.below(6) {
        0 => 10f32.powi(rng.range(0, 28) as i32 - 14),
        1 => 127.0,
        2 => 1e-6,
        _ => 1.0,
    };
    let mut v: Vec<f32> = match rng.below(10) {
        0 => (0..d).map(|_| rng.gauss() * scale).collect(),
        1 => {
            // one spike
            let mut v = vec![0.0; d];
            if d > 0 {
                let i = rng.below(d);
                v[i] = scale * if rng.chance(0.5) { 1.0 } else { -1.0 };
            }
            v
        }
        2 => vec![scale * if rng.chance(0.5) { 1.0 } else { -1.0 }; d],
        3 => (0..d).map(|_| -scale * rng.f01() as f32).collect(),
        4 => (0..d).map(|_| if rng.chance(0.8) { 0.0 } else { scale * rng.sf() }).collect(),
        5 => (0..d).map(|_| scale * (rng.below(255) as f32 - 127.0)).collect(),
        6 => {
            // very different magnitudes side by side
            (0..d).map(|_| scale * rng.sf() * 10f32.powi(-(rng.below(7) as i32))).collect()
        }
        _ => (0..d).map(|_| scale * rng.sf()).collect(),
    };
    match rng.below(20) {
        0 => v.iter_mut().for_each(|x| *x = 0.0),
        1 => v.iter_mut().for_each(|x| *x = -0.0),
        // a dominating negative component
        2 | 3 if d > 0 => {
            let m = v.iter().fold(0f32, |a, x| a.max(x.abs()));
            let i = rng.below(d);
            v[i] = -1.5 * m;
        }
        // differences only at the very end, where remainders are handled
        4 | 5 if d > 1 => {
            let m = v.len();
            v[..m - 1].iter_mut().for_each(|x| *x *= 1e-3);
        }
        _ => {}
    }
    v
}

/// a second vector, sometimes related to the first
fn other(rng: &mut Rng, v: &[f32]) -> Vec<f32> {
    match rng.below(8) {
        0 => v.to_vec(),
        1 => v.iter().map(|x| -x).collect(),
        2 => v.iter().map(|x| x * 3.7).collect(),
        3 => v.iter().map(|x| x * (1.0 + 0.01 * rng.gauss())).collect(),
        4 => {
            // orthogonal in pairs
            let mut w = v.to_vec();
            for p in w.chunks_mut(2) {
                if p.len() == 2 {
                    p.swap(0, 1);
                    p[0] = -p[0];
                }
            }
            w
        }
        5 if v.len() > 1 => {
            let mut w = v.to_vec();
            let i = if rng.chance(0.5) { v.len() - 1 } else { rng.below(v.len()) };
            w[i] = -w[i];
            w
        }
        _ => raw(rng, v.len()),
    }
}

fn norm(v: &[f64]) -> f64 {
    // scaled, so that nothing over- or underflows
    let m = v.iter().fold(0f64, |a, x| a.max(x.abs()));
    if m == 0.0 {
        return 0.0;
    }
    m * v.iter().map(|x| (x / m) * (x / m)).sum::<f64>().sqrt()
}
fn cos(a: &[f64], b: &[f64]) -> Option<f64> {
    let (x, y) = (norm(a), norm(b));
    if x == 0.0 || y == 0.0 {
        return None;
    }
    Some(a.iter().zip(b).map(|(p, q)| (p / x) * (q / y)).sum())
}
fn wide(v: &[f32]) -> Vec<f64> {
    v.iter().map(|x| *x as f64).collect()
}

/// all ways a collection can be asked for the distance of two of its elements
macro_rules! collection_agrees {
    ($c:expr, $m:ident, $rng:expr, $vs:expr, $what:expr) => {{
        let (c, vs) = ($c, $vs);
        let n = vs.len();
        for i in 0..n {
            let j = $rng.below(n);
            let want = vs[i].dist(&vs[j]).into_inner().to_bits();
            let all = c.dists(i, &(0..n).collect::<Vec<_>>());
            ensure!(all.len() == n, "{}: dists returns {} distances for {} ids", $what, all.len(), n);
            let got = [
                c.dist(i, j).into_inner(),
                c.dist(j, i).into_inner(),
                c.dist_to_element(i, &c.get(j)).into_inner(),
                c.dist_to_element(j, &vs[i]).into_inner(),
                all[j].into_inner(),
                (&c).dists(j, &[i, j, i])[2].into_inner(),
                (&c).dist(i, j).into_inner(),
                (&c).dist_to_element(i, &vs[j]).into_inner(),
                (&c).dists(i, &[j])[0].into_inner(),
            ];
            for (k, g) in got.iter().enumerate() {
                ensure!(g.to_bits() == want, "{}: way {} of asking for the distance of {} and {} gives {}, directly it is {}", $what, k, i, j, g, f32::from_bits(want));
            }
        }
    }};
}

fn c16_f32(c: &mut Case) -> Res {
    let mut rng = c.rng.fork();
    let d = if rng.chance(0.02) { 0 } else { dim(&mut rng) };
    c.note(format!("float dim={}", d));
    let tol = (d as f64 + 40.0) * EPS;
    let mut raws: Vec<Vec<f32>> = Vec::new();
    for i in 0..6 {
        let v = if i == 0 || rng.chance(0.4) { raw(&mut rng, d) } else { let k = rng.below(raws.len()); other(&mut rng, &raws[k].clone()) };
        raws.push(v);
    }
    let vs: Vec<angular::Vector<'static>> = raws.iter().map(|v| angular::Vector::from(v.clone())).collect();
    for i in 0..vs.len() {
        for j in 0..vs.len() {
            let got = vs[i].dist(&vs[j]).into_inner();
            let back = vs[j].dist(&vs[i]).into_inner();
            ensure!(got.to_bits() == back.to_bits(), "distance {} one way, {} the other: {:?} {:?}", got, back, raws[i], raws[j]);
            let want = match cos(&wide(&raws[i]), &wide(&raws[j])) {
                Some(x) => 1.0 - x,
                None => 1.0,
            };
            let err = (got as f64 - want).abs();
            ensure!(!got.is_nan() && got >= 0.0, "distance {}: {:?} {:?}", got, raws[i], raws[j]);
            ensure!(got as f64 <= 2.0 + tol, "distance {} exceeds 2: {:?} {:?}", got, raws[i], raws[j]);
            ensure!(err <= tol, "distance {} instead of {} in {} dimensions: {:?} {:?}", got, want, d, raws[i], raws[j]);
            c.ctx.max("float_error_in_eps_per_tolerance", err / tol);
            if i == j && norm(&wide(&raws[i])) > 0.0 {
                ensure!((got as f64) <= tol, "distance {} to itself: {:?}", got, raws[i]);
            }
            c.ctx.count("distances", 1);
        }
    }
    // however stored
    let owned: angular::Vectors = vs.iter().cloned().collect();
    if d > 0 {
        ensure!(owned.len() == vs.len(), "collected {} of {} vectors", owned.len(), vs.len());
        let mut by = Vec::new();
        owned.write(&mut by).map_err(|e| e.to_string())?;
        let lent = angular::Vectors::from_bytes(leak_shifted(&by, rng.below(8)));
        let file = temp_file(c.ctx, &by);
        let mapped = unsafe { angular::Vectors::from_file(&file) }.map_err(|e| e.to_string())?;
        collection_agrees!(&owned, angular, rng, &vs, "owned");
        collection_agrees!(&owned.borrow(), angular, rng, &vs, "borrowed");
        collection_agrees!(&lent, angular, rng, &vs, "from bytes");
        collection_agrees!(&mapped, angular, rng, &vs, "mapped");
        let slice = angular::Vectors::from_slice(owned.as_slice(), d);
        collection_agrees!(&slice, angular, rng, &vs, "from slice");
        let v = angular::Vectors::from_vec(owned.as_slice().to_vec(), d);
        collection_agrees!(&v, angular, rng, &vs, "from vec");
        collection_agrees!(&vs, angular, rng, &vs, "Vec");
        collection_agrees!(&vs.as_slice(), angular, rng, &vs, "slice");
        // unaligned and odd starting points for the kernels
        let off = rng.below(4);
        let flat: Vec<f32> = std::iter::repeat(0.0).take(off).chain(owned.as_slice().iter().cloned()).collect();
        let shifted = angular::Vectors::from_slice(&flat[off..], d);
        collection_agrees!(&shifted, angular, rng, &vs, "shifted slice");
    }
    c.nontrivial(hash_bytes(format!("{:?}", raws).as_bytes()));
    Ok(())
}

fn c16_i8(c: &mut Case) -> Res {
    let mut rng = c.rng.fork();
    let d = if rng.chance(0.02) { 0 } else { dim(&mut rng) };
    c.note(format!("integer dim={}", d));
    let vs: Vec<angular_int::Vector<'static>> = (0..6)
        .map(|_| match rng.below(6) {
            0 => angular_int::Vector(vec![0i8; d].into()),
            1 => angular_int::Vector(vec![*rng.pick(&[127i8, -127, 1, -1]); d].into()),
            2 => {
                let v = raw(&mut rng, d);
                angular_int::Vector::from(v)
            }
            3 => {
                let mut v = vec![0i8; d];
                if d > 0 {
                    v[d - 1] = 127;
                }
                angular_int::Vector(v.into())
            }
            _ => angular_int::Vector((0..d).map(|_| (rng.below(255) as i32 - 127) as i8).collect::<Vec<_>>().into()),
        })
        .collect();
    for i in 0..vs.len() {
        for j in 0..vs.len() {
            let got = vs[i].dist(&vs[j]).into_inner();
            let back = vs[j].dist(&vs[i]).into_inner();
            let (x, y) = (vs[i].as_slice(), vs[j].as_slice());
            ensure!(got.to_bits() == back.to_bits(), "distance {} one way, {} the other: {:?} {:?}", got, back, x, y);
            let s = |a: &[i8], b: &[i8]| a.iter().zip(b).map(|(p, q)| *p as i64 * *q as i64).sum::<i64>();
            let (r, dx, dy) = (s(x, y), s(x, x), s(y, y));
            let want = if dx == 0 || dy == 0 { 1.0 } else { 1.0 - r as f64 / ((dx as f64).sqrt() * (dy as f64).sqrt()) };
            ensure!(!got.is_nan() && got >= 0.0 && got as f64 <= 2.0 + 10.0 * EPS, "distance {}: {:?} {:?}", got, x, y);
            let err = (got as f64 - want).abs();
            ensure!(err <= 12.0 * EPS, "distance {} instead of {}: {:?} {:?}", got, want, x, y);
            if dx == 0 || dy == 0 {
                ensure!(got == 1.0, "the zero vector is at distance {}", got);
            }
            c.ctx.max("integer_error_in_eps", err / EPS);
            c.ctx.count("distances", 1);
        }
    }
    let owned: angular_int::Vectors = vs.iter().cloned().collect();
    if d > 0 {
        let mut by = Vec::new();
        owned.write(&mut by).map_err(|e| e.to_string())?;
        let lent = angular_int::Vectors::from_bytes(leak_shifted(&by, rng.below(8)));
        let file = temp_file(c.ctx, &by);
        let mapped = unsafe { angular_int::Vectors::from_file(&file) }.map_err(|e| e.to_string())?;
        collection_agrees!(&owned, angular_int, rng, &vs, "owned");
        collection_agrees!(&owned.borrow(), angular_int, rng, &vs, "borrowed");
        collection_agrees!(&lent, angular_int, rng, &vs, "from bytes");
        collection_agrees!(&mapped, angular_int, rng, &vs, "mapped");
        let slice = angular_int::Vectors::from_slice(owned.as_slice(), d);
        collection_agrees!(&slice, angular_int, rng, &vs, "from slice");
        let v = angular_int::Vectors::from_vec(owned.as_slice().to_vec(), d);
        collection_agrees!(&v, angular_int, rng, &vs, "from vec");
        collection_agrees!(&vs, angular_int, rng, &vs, "Vec");
        collection_agrees!(&vs.as_slice(), angular_int, rng, &vs, "slice");
    }
    c.nontrivial(hash_bytes(format!("{:?}", vs.iter().map(|v| v.as_slice().to_vec()).collect::<Vec<_>>()).as_bytes()));
    Ok(())
}

fn c16_sum(c: &mut Case) -> Res {
    let mut rng = c.rng.fork();
    let d = dim(&mut rng).min(200);
    let words = rng.range(1, 12);
    c.note(format!("sums dim={} words={}", d, words));
    let mut e = SumEmbeddings::new();
    let table: Vec<Vec<f32>> = (0..words).map(|_| (0..d).map(|_| rng.sf() * 3.0).collect()).collect();
    for t in &table {
        e.push_embedding(t);
    }
    let n = 6;
    let mut sums: Vec<Vec<f64>> = Vec::new();
    for _ in 0..n {
        let k = rng.below(7);
        let terms: Vec<usize> = (0..k).map(|_| rng.below(words)).collect();
        sums.push((0..d).map(|i| terms.iter().map(|&t| table[t][i] as f64).sum()).collect());
        e.push(terms);
    }
    let tol = (d as f64 + 40.0) * EPS;
    for i in 0..n {
        for j in 0..n {
            // relative to cancellation in the sum
            let weak = |s: &Vec<f64>| norm(s) < 1e-2 * (d as f64).sqrt();
            let got = e.dist(i, j).into_inner();
            ensure!(!got.is_nan() && got >= 0.0 && got as f64 <= 2.0 + tol, "distance {}", got);
            ensure!(got.to_bits() == e.dist(j, i).into_inner().to_bits(), "the distance depends on the order");
            if let (Some(x), false, false) = (cos(&sums[i], &sums[j]), weak(&sums[i]), weak(&sums[j])) {
                let err = (got as f64 - (1.0 - x)).abs();
                ensure!(err <= tol * 30.0, "distance {} instead of {} in {} dimensions", got, 1.0 - x, d);
                c.ctx.max("sum_error_per_tolerance", err / (tol * 30.0));
            }
            c.ctx.count("distances", 1);
        }
    }
    let vs: Vec<angular::Vector<'static>> = (0..n).map(|i| e.get(i)).collect();
    collection_agrees!(&e, angular, rng, &vs, "sums");
    collection_agrees!(&e.borrow(), angular, rng, &vs, "borrowed sums");
    c.nontrivial(hash_bytes(format!("{:?}", sums).as_bytes()));
    Ok(())
}

/// very long vectors
fn c16_long(c: &mut Case) -> Res {
    let mut rng = c.rng.fork();
    let d = *rng.pick(&[4096, 10_007, 32_768, 50_000, 65_535, 65_536, 65_537, 65_567, 70_001, 99_999, 100_000]);
    c.note(format!("long dim={}", d));
    let (a, b) = (raw(&mut rng, d), raw(&mut rng, d));
    let (x, y) = (angular::Vector::from(a.clone()), angular::Vector::from(b.clone()));
    let want = cos(&wide(&a), &wide(&b)).map_or(1.0, |x| 1.0 - x);
    let got = x.dist(&y).into_inner() as f64;
    ensure!((got - want).abs() <= (d as f64 / 2.0 + 100.0) * EPS, "distance {} instead of {} in {} dimensions", got, want, d);
    // few components, the last ones among them: little to round
    let k = rng.range(1, 30);
    let mut a = vec![0.0f32; d];
    let mut b = vec![0.0f32; d];
    for _ in 0..k {
        let i = if rng.chance(0.5) { d - 1 - rng.below(70) } else { rng.below(d) };
        a[i] = rng.sf();
        b[i] = if rng.chance(0.3) { a[i] } else { rng.sf() };
    }
    let (x, y) = (angular::Vector::from(a.clone()), angular::Vector::from(b.clone()));
    let want = cos(&wide(&a), &wide(&b)).map_or(1.0, |x| 1.0 - x);
    let got = x.dist(&y).into_inner() as f64;
    ensure!((got - want).abs() <= (4 * k + 30) as f64 * EPS, "distance {} instead of {} in {} dimensions, all but {} zero", got, want, d, k);
    // as large as sums of squares get
    let full = angular_int::Vector(vec![127i8; d].into());
    let half: Vec<i8> = (0..d).map(|i| if i % 2 == 0 { 127 } else { -127 }).collect();
    let half = angular_int::Vector(half.into());
    ensure!(full.dist(&full).into_inner() as f64 <= 12.0 * EPS, "distance {} to itself", full.dist(&full));
    let want = 1.0 - ((d % 2) as f64) / d as f64;
    ensure!((full.dist(&half).into_inner() as f64 - want).abs() <= 12.0 * EPS, "distance {} instead of {}", full.dist(&half), want);
    let (a, b) = if rng.chance(0.5) { (a, b) } else { (raw(&mut rng, d), raw(&mut rng, d)) };
    let (x, y) = (angular_int::Vector::from(a.clone()), angular_int::Vector::from(b.clone()));
    let w = |v: &angular_int::Vector| v.as_slice().iter().map(|&q| q as f64).collect::<Vec<_>>();
    let want = cos(&w(&x), &w(&y)).map_or(1.0, |x| 1.0 - x);
    ensure!((x.dist(&y).into_inner() as f64 - want).abs() <= 20.0 * EPS, "integer distance {} instead of {}", x.dist(&y), want);
    c.nontrivial(rng.seed());
    c.ctx.count("distances", 5);
    Ok(())
}

pub fn run_c16(ctx: &Ctx) {
    ctx.rule("Groups of six related vectors (equal, opposite, scaled, perturbed, orthogonal, differing in one component, zero, spikes, mixed magnitudes, scales 1e-14 to 1e14) of 0 to 100,000 dimensions around the block sizes of the kernels. Every pairwise distance is compared with a double-precision (for integers: exact) reference, both ways round, and with every other way to obtain it: collections owned, borrowed, from bytes at odd addresses, mapped, from slices and vectors, references. Non-trivial and distinct: different vectors.");
    let w = ctx.workers;
    ctx.cases("float", ctx.n(6000, 200000), w, c16_f32);
    ctx.cases("integer", ctx.n(5000, 150000), w, c16_i8);
    ctx.cases("sums", ctx.n(2000, 60000), w, c16_sum);
    ctx.cases("long", ctx.n(60, 1000), w, c16_long);
}

// ---------------------------------------------------------------- C17
fn c17_case(c: &mut Case) -> Res {
    let mut rng = c.rng.fork();
    let d = if rng.chance(0.03) { 0 } else { dim(&mut rng) };
    let v = raw(&mut rng, d);
    c.note(format!("dim={} first {:?}", d, &v[..d.min(4)]));
    let w = wide(&v);
    let n = norm(&w);
    let tol = (d as f64 + 40.0) * EPS;
    // floats, however created
    let a = no_panic("Vector::from", || angular::Vector::from(v.clone()))?;
    let ways: Vec<(&str, Vec<u32>)> = vec![
        ("collected", v.iter().cloned().collect::<angular::Vector>().as_slice().iter().map(|x| x.to_bits()).collect()),
        ("into", { let x: angular::Vector = v.clone().into(); x.into_vec().iter().map(|x| x.to_bits()).collect() }),
        ("pushed", { let mut c = angular::Vectors::new(); if d > 0 { c.push(&a); c.get_element(0).into_owned().into_vec().iter().map(|x| x.to_bits()).collect() } else { vec![] } }),
    ];
    ensure!(a.len() == d, "a vector of {} components became one of {}", d, a.len());
    let bits: Vec<u32> = a.as_slice().iter().map(|x| x.to_bits()).collect();
    for (k, b) in ways {
        ensure!(b == bits, "the {} vector differs", k);
    }
    if n == 0.0 {
        ensure!(a.as_slice().iter().all(|x| *x == 0.0), "the zero vector became {:?}", a.as_slice());
        c.ctx.count("zero_vectors", 1);
    } else {
        let len = norm(&wide(a.as_slice()));
        ensure!((len - 1.0).abs() <= tol, "length {} after normalization: {:?}", len, v);
        for i in 0..d {
            let want = w[i] / n;
            let got = a.as_slice()[i] as f64;
            ensure!((got - want).abs() <= tol * want.abs() + 1e-38, "component {} is {} instead of {}: {:?}", i, got, want, v);
        }
        c.ctx.max("length_error_per_tolerance", (len - 1.0).abs() / tol);
    }
    // integers
    let q = no_panic("quantizing", || angular_int::Vector::from(v.clone()))?;
    ensure!(q.len() == d, "a vector of {} components was quantized to {}", d, q.len());
    let q2: angular_int::Vector = v.iter().cloned().collect();
    ensure!(q.as_slice() == q2.as_slice(), "collecting and converting quantize differently");
    let m = w.iter().fold(0f64, |a, x| a.max(x.abs()));
    for i in 0..d {
        let got = q.as_slice()[i] as i64;
        if m == 0.0 {
            ensure!(got == 0, "a zero component was quantized to {}", got);
            continue;
        }
        let t = w[i] * 127.0 / m;
        let ok = got == (t * (1.0 - 4.0 * EPS)) as i64 || got == (t * (1.0 + 4.0 * EPS)) as i64;
        ensure!(ok && got.abs() <= 127, "component {} ({} of at most {}) was quantized to {} instead of {}", i, v[i], m, got, t as i64);
        if w[i].abs() == m {
            ensure!(got.abs() == 127 && (got > 0) == (v[i] > 0.0), "the largest component {} was quantized to {}", v[i], got);
        }
    }
    if d > 0 {
        ensure!(m == 0.0 || q.as_slice().iter().any(|x| x.abs() == 127), "nothing was quantized to 127");
    }
    // rescaling by powers of two is exact in floating point, others up to rounding
    let (lo, hi) = w.iter().filter(|x| **x != 0.0).fold((f64::MAX, 0f64), |a, x| (a.0.min(x.abs()), a.1.max(x.abs())));
    let s = 2f32.powi(rng.range(0, 20) as i32 - 10);
    if n > 0.0 && hi * (s as f64) < 1e15 && lo * (s as f64) > 1e-25 && hi > 1e-14 {
        let u: Vec<f32> = v.iter().map(|x| x * s).collect();
        let b = angular::Vector::from(u.clone());
        for i in 0..d {
            let (x, y) = (a.as_slice()[i] as f64, b.as_slice()[i] as f64);
            ensure!((x - y).abs() <= 8.0 * EPS * x.abs() + 1e-37, "rescaling by {} changes component {} from {} to {}", s, i, x, y);
        }
        let r = angular_int::Vector::from(u);
        for i in 0..d {
            let (x, y) = (q.as_slice()[i] as i64, r.as_slice()[i] as i64);
            let t = w[i] * 127.0 / m;
            let edge = (t - t.round()).abs() < 1e-4;
            ensure!(x == y || (edge && (x - y).abs() == 1), "rescaling by {} changes the quantized component {} from {} to {}", s, i, x, y);
        }
        c.ctx.count("rescaled", 1);
    }
    c.ctx.count("components", d as u64);
    c.nontrivial(hash_bytes(format!("{:?}", v).as_bytes()));
    Ok(())
}

/// quantized distances stay close to the unquantized ones
fn c17_close(c: &mut Case) -> Res {
    let mut rng = c.rng.fork();
    let d = dim(&mut rng);
    let (a, b) = (raw(&mut rng, d), raw(&mut rng, d));
    c.note(format!("closeness dim={}", d));
    let b = if rng.chance(0.5) { other(&mut rng, &a) } else { b };
    let (wa, wb) = (wide(&a), wide(&b));
    let x = match cos(&wa, &wb) {
        Some(x) => x,
        None => return Ok(()),
    };
    // error bound of truncation: each component is off by less than one step of max/127
    let bound = |w: &[f64]| {
        let m = w.iter().fold(0f64, |a, x| a.max(x.abs()));
        (w.iter().filter(|x| **x != 0.0).count() as f64).sqrt() * (m / 127.0) / norm(w)
    };
    let lim = 2.0 * (bound(&wa) + bound(&wb)) + 1e-5;
    let got = angular_int::Vector::from(a.clone()).dist(&angular_int::Vector::from(b.clone())).into_inner() as f64;
    let f = angular::Vector::from(a.clone()).dist(&angular::Vector::from(b.clone())).into_inner() as f64;
    ensure!((got - f).abs() <= lim && (got - (1.0 - x)).abs() <= lim, "quantized distance {}, unquantized {} (bound {}): {:?} {:?}", got, f, lim, a, b);
    c.ctx.max("quantization_error", (got - f).abs());
    c.ctx.max("quantization_error_per_bound", (got - f).abs() / lim);
    c.nontrivial(hash_bytes(format!("{:?}{:?}", a, b).as_bytes()));
    Ok(())
}

pub fn run_c17(ctx: &Ctx) {
    ctx.rule("Random, constant, single-spike, sparse, negative-dominated, mixed-magnitude and zero vectors of 0 to 1025 dimensions (scales 1e-14 to 1e14), created in every way; components compared with a double-precision reference of normalization and of proportional truncation, and again after rescaling. Quantized against unquantized distances within the analytic truncation bound. Non-trivial and distinct: different vectors.");
    let w = ctx.workers;
    ctx.cases("vectors", ctx.n(20000, 1000000), w, c17_case);
    ctx.cases("closeness", ctx.n(12000, 500000), w, c17_close);
}
