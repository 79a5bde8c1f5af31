//! C03: recall against brute force, and how it moves with the configuration.
use crate::ensure;
use crate::gen::*;
use crate::graph::*;
use crate::kinds::*;
use crate::util::*;
use granne::{Builder, ElementContainer, ExtendableElementContainer, Granne, GranneBuilder, Index};

pub struct Q {
    pub wide: f64,
    pub mid: f64,
    pub narrow: f64,
    pub own: f64,
    pub own_last: f64,
    pub own_first: f64,
}

impl Q {
    fn show(&self) -> String {
        format!("recall {:.4}/{:.4}/{:.4} own {:.4} last {:.4} first {:.4}", self.wide, self.mid, self.narrow, self.own, self.own_last, self.own_first)
    }
}

pub fn quality<C>(ix: &Granne<C>, qs: &[C::Element]) -> Q
where
    C: ElementContainer,
{
    let n = ix.len();
    let r = |ms| {
        let (h, a) = recall(ix, qs, ms, 10);
        h / a
    };
    let s = |ids: Vec<usize>| {
        let k = ids.len();
        self_found(ix, &ids, 20).0 as f64 / k as f64
    };
    Q {
        wide: r(200),
        mid: r(50),
        narrow: r(10),
        own: s((0..n).step_by(1 + n / 400).collect()),
        own_last: s((n - 200.min(n)..n).collect()),
        own_first: s((0..200.min(n)).collect()),
    }
}

/// a data set of `n` elements in `dim` dimensions and queries of the same distribution
fn data<K: Kind>(rng: &mut Rng, flavor: Flavor, noise: f32, dim: usize, n: usize, nq: usize) -> (K::C, Vec<K::E>) {
    let mut spec = Spec::new(rng, dim, flavor);
    spec.noise = noise;
    if flavor == Flavor::Clustered {
        spec.centers = (0..40).map(|_| (0..dim).map(|_| rng.gauss()).collect()).collect();
    }
    let mut c = K::empty_large(rng, &spec, 400);
    let empty = c.clone();
    for _ in 0..n {
        let it = K::item(rng, &spec, &c);
        c.push(it);
    }
    let mut q = empty;
    let at = q.len();
    let qs = (0..nq)
        .map(|i| {
            let it = K::item(rng, &spec, &q);
            q.push(it);
            q.get(at + i)
        })
        .collect();
    (c, qs)
}

#[derive(Clone, Copy)]
pub struct Plan {
    pub threads: usize,
    pub steps: usize,
}

pub fn make<K: Kind>(els: K::C, cfg: &Cfg, p: Plan) -> Result<Granne<'static, K::C>, String> {
    let n = els.len();
    let mut b = GranneBuilder::new(cfg.build(), els);
    in_pool(p.threads, || {
        no_panic("build", || {
            for k in 1..p.steps {
                b.build_partial(n * k / p.steps);
            }
            b.build();
        })
    })?;
    let by = index_bytes(&b)?;
    let ix = Granne::from_bytes(leak_aligned(&by), b.get_elements().clone());
    Ok(ix)
}

/// (flavor, spread, dimension, elements, lower limits for width 200 / 50 / 10)
type Set = (Flavor, f32, usize, usize, [f64; 3]);

fn absolute<K: Kind>(c: &mut Case, set: Set) -> Res {
    let (flavor, noise, dim, n, limits) = set;
    let mut rng = c.rng.fork();
    let cfg = Cfg { nn: 30, ms: *rng.pick(&[100, 200]), mult: 15.0, reinsert: rng.chance(0.7), expected: None, progress: false };
    let p = Plan { threads: *rng.pick(&[1, 4]), steps: *rng.pick(&[1, 1, 3]) };
    c.note(format!("{} {:?}/{} dim={} n={} {:?} threads={} steps={}", K::NAME, flavor, noise, dim, n, cfg, p.threads, p.steps));
    let (els, qs) = data::<K>(&mut rng, flavor, noise, dim, n, 150);
    let ix = make::<K>(els, &cfg, p)?;
    let q = quality(&ix, &qs);
    let tag = format!("{}_{:?}_{}_{}", K::NAME, flavor, noise, dim);
    for (k, v) in [("wide", q.wide), ("mid", q.mid), ("narrow", q.narrow), ("own", q.own), ("own_last", q.own_last), ("own_first", q.own_first)] {
        c.ctx.min(&format!("{}_{}", tag, k), v);
    }
    c.ctx.count("queries", 3 * qs.len() as u64 + 800);
    let what = q.show();
    ensure!(q.wide >= limits[0], "recall with width 200 below {}: {}", limits[0], what);
    ensure!(q.mid >= limits[1], "recall with width 50 below {}: {}", limits[1], what);
    ensure!(q.narrow >= limits[2], "recall with width 10 below {}: {}", limits[2], what);
    ensure!(q.own >= 0.985, "elements not found by their own vector: {}", what);
    ensure!(q.own_last >= 0.98, "elements added last not found by their own vector: {}", what);
    ensure!(q.own_first >= 0.98, "elements added first not found by their own vector: {}", what);
    c.nontrivial(hash_bytes(what.as_bytes()) ^ c.idx);
    Ok(())
}

fn relations<K: Kind>(c: &mut Case, set: Set) -> Res {
    let (flavor, noise, dim, n, _) = set;
    let mut rng = c.rng.fork();
    let base = Cfg { nn: 20, ms: 60, mult: 15.0, reinsert: true, expected: None, progress: false };
    c.note(format!("{} {:?}/{} dim={} n={} variants of {:?}", K::NAME, flavor, noise, dim, n, base));
    let (els, qs) = data::<K>(&mut rng, flavor, noise, dim, n, 200);
    let one = Plan { threads: 1, steps: 1 };
    let go = |cfg: Cfg, p: Plan| -> Result<Q, String> { Ok(quality(&make::<K>(els.clone(), &cfg, p)?, &qs)) };
    let a = go(base.clone(), one)?;
    let variants = [
        ("without reinsertion", go(Cfg { reinsert: false, ..base.clone() }, one)?, 1.0),
        ("with more neighbors", go(Cfg { nn: 30, ..base.clone() }, one)?, -1.0),
        ("with a wider search", go(Cfg { ms: 200, ..base.clone() }, one)?, -1.0),
        ("in parallel", go(base.clone(), Plan { threads: 8, steps: 1 })?, 0.0),
        ("in five steps", go(base.clone(), Plan { threads: 1, steps: 5 })?, 0.0),
        ("announced size", go(Cfg { expected: Some(n), ..base.clone() }, Plan { threads: 1, steps: 5 })?, 0.0),
    ];
    let tol = 0.045;
    for (name, q, sign) in &variants {
        for (w, x, y) in [("narrow", a.narrow, q.narrow), ("mid", a.mid, q.mid), ("wide", a.wide, q.wide)] {
            let d = if *sign == 0.0 { (x - y).abs() } else { sign * (y - x) };
            c.ctx.max(&format!("{}_{:?}_{}_{}", K::NAME, flavor, name, w), d);
            ensure!(d <= tol, "built {}: {} recall {:.4}, otherwise {:.4} (all: {} / {})", name, w, y, x, q.show(), a.show());
        }
        ensure!(q.narrow <= q.mid + 0.01 && q.mid <= q.wide + 0.01, "a wider search finds less: {}", q.show());
        // without reinsertion whole small clusters may be found only with a wider search
        let (own, last) = if *name == "without reinsertion" { (0.92, 0.9) } else { (0.98, 0.97) };
        c.ctx.min(&format!("{}_{:?}_{}_own", K::NAME, flavor, name), q.own);
        c.ctx.min(&format!("{}_{:?}_{}_last", K::NAME, flavor, name), q.own_last);
        ensure!(q.own >= own && q.own_last >= last, "built {}: elements not found by their own vector: {}", name, q.show());
    }
    c.nontrivial(hash_bytes(a.show().as_bytes()) ^ c.idx);
    c.ctx.count("queries", 7 * (3 * qs.len() as u64 + 800));
    Ok(())
}

/// Clusters inserted one after the other: the upper layers have to lead to the right cluster while
/// building. A single build can be unlucky, the mean over several is stable.
fn ordered<K: Kind>(c: &mut Case) -> Res {
    let (clusters, dim, n, builds) = (40, 16, 2500, 6);
    let mut rng = c.rng.fork();
    let mut sum = [0.0; 3];
    let threads = *rng.pick(&[1, 4]);
    c.note(format!("{} {} clusters one after the other, dim={} n={} threads={}, mean over {} builds", K::NAME, clusters, dim, n, threads, builds));
    for _ in 0..builds {
        let cfg = Cfg { nn: 30, ms: 100, mult: 15.0, reinsert: true, expected: None, progress: false };
        let mut spec = Spec::new(&mut rng, dim, Flavor::Clustered);
        spec.noise = 0.02;
        let centers: Vec<Vec<f32>> = (0..clusters).map(|_| (0..dim).map(|_| rng.gauss()).collect()).collect();
        spec.centers = centers.clone();
        let mut els = K::empty_large(&mut rng, &spec, 400);
        let mut q = els.clone();
        for i in 0..n {
            spec.centers = vec![centers[i * clusters / n].clone()];
            let it = K::item(&mut rng, &spec, &els);
            els.push(it);
        }
        spec.centers = centers;
        let at = q.len();
        let qs: Vec<K::E> = (0..200)
            .map(|i| {
                let it = K::item(&mut rng, &spec, &q);
                q.push(it);
                q.get(at + i)
            })
            .collect();
        let ix = make::<K>(els, &cfg, Plan { threads, steps: 1 })?;
        let r = |ms| {
            let (h, a) = recall(&ix, &qs, ms, 10);
            h / a
        };
        let ids: Vec<usize> = (0..n).step_by(7).collect();
        let own = self_found(&ix, &ids, 100).0 as f64 / ids.len() as f64;
        for (s, v) in sum.iter_mut().zip([r(200), r(50), own]) {
            *s += v / builds as f64;
        }
    }
    let tag = format!("{}_ordered", K::NAME);
    for (k, v) in ["wide", "mid", "own100"].iter().zip(sum) {
        c.ctx.min(&format!("{}_{}", tag, k), v);
    }
    c.ctx.count("queries", (builds * (400 + n / 7)) as u64);
    c.nontrivial(hash_bytes(format!("{:?}", sum).as_bytes()) ^ c.idx);
    ensure!(sum[0] >= 0.965, "mean recall with width 200 on clusters inserted in order: {:.4}", sum[0]);
    ensure!(sum[1] >= 0.945, "mean recall with width 50 on clusters inserted in order: {:.4}", sum[1]);
    ensure!(sum[2] >= 0.965, "elements of clusters inserted in order not found by their own vector: {:.4}", sum[2]);
    Ok(())
}

/// large collections: every single element has to be linked, and practically all are found
fn large<K: Kind>(c: &mut Case, n: usize) -> Res {
    let mut rng = c.rng.fork();
    let cfg = Cfg { nn: *rng.pick(&[10, 12, 20]), ms: *rng.pick(&[20, 30]), mult: *rng.pick(&[6.0, 15.0, 40.0]), reinsert: rng.chance(0.3), expected: None, progress: false };
    let p = Plan { threads: *rng.pick(&[1, 4]), steps: *rng.pick(&[1, 1, 2, 5]) };
    c.note(format!("large {} n={} {:?} threads={} steps={}", K::NAME, n, cfg, p.threads, p.steps));
    let (els, _) = data::<K>(&mut rng, Flavor::Uniform, 0.0, 8, n, 0);
    let ix = make::<K>(els, &cfg, p)?;
    let l = ix.num_layers() - 1;
    for i in 0..n {
        ensure!(!ix.get_neighbors(i, l).is_empty(), "element {} of {} has no links", i, n);
    }
    let ids: Vec<usize> = (0..n).collect();
    let found = self_found(&ix, &ids, 100).0;
    let lost = n - found;
    c.ctx.max(&format!("{}_large_lost", K::NAME), lost as f64 / n as f64);
    ensure!(lost as f64 <= 3.0 + LOST * n as f64, "{} of {} elements are not found by their own vector with width 100", lost, n);
    c.ctx.count("large_elements", n as u64);
    c.nontrivial(hash_bytes(c.desc.as_bytes()));
    Ok(())
}
const LOST: f64 = 0.002;

pub fn run(ctx: &Ctx) {
    ctx.rule("Random data sets (uniform, loosely and tightly clustered, embedding sums) indexed with default-like settings; the true 10 nearest neighbors of fresh queries by brute force against the results with widths 200, 50 and 10, and searches for indexed elements (all over, the first, the last); collections of up to 72,000 elements, each of which must be linked and practically all found. Limits calibrated on this code with wide margins. Non-trivial: every case; distinct: different measured recalls.");
    let u: Set = (Flavor::Uniform, 0.0, 16, 2500, [0.995, 0.98, 0.85]);
    let h: Set = (Flavor::Uniform, 0.0, 48, 2000, [0.99, 0.93, 0.56]);
    let l: Set = (Flavor::Clustered, 0.2, 16, 2500, [0.995, 0.985, 0.94]);
    let t: Set = (Flavor::Clustered, 0.01, 16, 2500, [0.99, 0.985, 0.92]);
    let e: Set = (Flavor::Uniform, 0.0, 16, 2000, [0.995, 0.98, 0.85]);
    ctx.cases("absolute", ctx.n(24, 400), ctx.workers, |c| match c.idx % 8 {
        0 => absolute::<F32>(c, u),
        1 => absolute::<F32>(c, l),
        2 => absolute::<I8>(c, u),
        3 => absolute::<Sum>(c, e),
        4 => absolute::<I8>(c, l),
        5 => absolute::<F32>(c, t),
        6 => absolute::<F32>(c, h),
        _ => absolute::<Sum>(c, (Flavor::Clustered, 0.2, 12, 2000, [0.995, 0.98, 0.9])),
    });
    ctx.cases("relations", ctx.n(8, 120), ctx.workers, |c| match c.idx % 4 {
        0 => relations::<F32>(c, (Flavor::Uniform, 0.0, 24, 2000, [0.0; 3])),
        1 => relations::<I8>(c, (Flavor::Uniform, 0.0, 16, 2000, [0.0; 3])),
        2 => relations::<Sum>(c, (Flavor::Uniform, 0.0, 16, 1500, [0.0; 3])),
        _ => relations::<F32>(c, (Flavor::Clustered, 0.1, 16, 2000, [0.0; 3])),
    });
    ctx.cases("ordered", ctx.n(4, 40), ctx.workers, |c| match c.idx % 2 {
        0 => ordered::<F32>(c),
        _ => ordered::<I8>(c),
    });
    ctx.cases("large", ctx.n(6, 60), ctx.workers, |c| {
        let n = match c.idx % 6 {
            0 => c.rng.range(66_000, 72_000),
            1 => c.rng.range(32_000, 36_000),
            2 => c.rng.range(16_300, 17_000),
            _ => c.rng.range(4_000, 12_000),
        };
        match c.idx % 3 {
            0 => large::<F32>(c, n),
            1 => large::<I8>(c, n),
            _ => large::<Grid>(c, n),
        }
    });
}
