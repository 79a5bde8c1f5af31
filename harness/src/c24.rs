//! C24: reordering puts similar elements next to each other and makes the index file smaller.
use crate::ensure;
use crate::gen::*;
use crate::graph::*;
use crate::kinds::*;
use crate::util::*;
use granne::{embeddings::SumEmbeddings, Builder, ElementContainer, ExtendableElementContainer, GranneBuilder, Index};

/// mean distance in id between linked nodes of the last layer, as a share of its size
fn gap(ix: &impl Index) -> f64 {
    let l = ix.num_layers() - 1;
    let n = ix.layer_len(l);
    let (mut sum, mut k) = (0f64, 0f64);
    for i in 0..n {
        for j in ix.get_neighbors(i, l) {
            sum += (i as f64 - j as f64).abs();
            k += 1.0;
        }
    }
    sum / k.max(1.0) / n as f64
}

/// mean distance between elements whose ids are adjacent, per layer range
fn adjacent<C: ElementContainer>(els: &C, lens: &[usize]) -> f64 {
    let (mut from, mut sum, mut k) = (0, 0f64, 0f64);
    for &to in lens {
        for i in from + 1..to {
            let e = els.get(i);
            sum += els.dist_to_element(i - 1, &e).into_inner() as f64;
            k += 1.0;
        }
        from = to.max(from);
    }
    sum / k.max(1.0)
}

/// limits for (distance of adjacent ids, gap of links, file size), after / before
type Limits = [f64; 3];

fn auto<K: Kind>(c: &mut Case, clustered: bool, mults: &[f32], limits: Limits) -> Res {
    let mut rng = c.rng.fork();
    let builds = 5;
    let mut mean = [0f64; 3];
    let mut worst = [0f64; 3];
    let progress = false;
    c.note(format!("auto {} {} {:?}", K::NAME, if clustered { "clustered" } else { "uniform" }, mults));
    for _ in 0..builds {
        let n = rng.range(1800, 3200);
        let mut spec = Spec::new(&mut rng, if clustered { 12 } else { 5 }, if clustered { Flavor::Clustered } else { Flavor::Uniform });
        spec.noise = 0.1;
        spec.centers = (0..40).map(|_| (0..spec.dim).map(|_| rng.gauss()).collect()).collect();
        let cfg = Cfg { nn: rng.range(10, 20), ms: 40, mult: *rng.pick(mults), reinsert: false, expected: None, progress: false };
        c.note(format!("{}; n={} dim={} {:?}", c.desc, n, spec.dim, cfg));
        let mut els = K::empty_large(&mut rng, &spec, 3000);
        for _ in 0..n {
            let it = K::item(&mut rng, &spec, &els);
            els.push(it);
        }
        let mut b = GranneBuilder::new(cfg.build(), els);
        in_pool(2, || no_panic("build", || b.build()))?;
        let mut ix = b.get_index().to_owned();
        let lens: Vec<usize> = (0..ix.num_layers()).map(|l| ix.layer_len(l)).collect();
        let before = [adjacent(ix.get_elements(), &lens), gap(&ix), index_bytes(&ix)?.len() as f64];
        no_panic("reorder", || ix.reorder(progress))?;
        let after = [adjacent(ix.get_elements(), &lens), gap(&ix), index_bytes(&ix)?.len() as f64];
        for i in 0..3 {
            let q = after[i] / before[i];
            mean[i] += q / builds as f64;
            worst[i] = worst[i].max(q);
        }
        c.ctx.count("indexes_reordered", 1);
    }
    let tag = format!("{}{}_{}", if mults[0] > 20.0 { "shallow_" } else { "" }, if clustered { "clustered" } else { "uniform" }, K::NAME);
    for (k, what) in ["distance of elements with adjacent ids", "distance in id between linked elements", "size of the index file"].iter().enumerate() {
        c.ctx.max(&format!("{} {}: after/before, mean", tag, what), mean[k]);
        c.ctx.max(&format!("{} {}: after/before, single", tag, what), worst[k]);
        ensure!(mean[k] <= limits[k], "reordering changes the mean {} by a factor of {:.3} (limit {})", what, mean[k], limits[k]);
    }
    c.nontrivial(hash_bytes(format!("{:?}", mean).as_bytes()));
    Ok(())
}

/// keys from embeddings: elements that share their heaviest terms end up side by side
fn keys(c: &mut Case) -> Res {
    let mut rng = c.rng.fork();
    let (dim, words) = (rng.range(2, 12), rng.range(2, 60));
    let n = rng.range(20, 900);
    let mult = *rng.pick(&[2.0f32, 5.0, 15.0]);
    let most = *rng.pick(&[3usize, 6, 14]);
    let mut rank: Vec<usize> = (0..words).collect();
    rng.shuffle(&mut rank);
    let mut els = SumEmbeddings::new();
    for w in 0..words {
        let v: Vec<f32> = (0..dim).map(|_| rng.gauss()).collect();
        let norm = v.iter().map(|x| x * x).sum::<f32>().sqrt().max(1e-3);
        let s = 1.03f32.powi(rank[w] as i32) / norm;
        els.push_embedding(&v.iter().map(|x| x * s).collect::<Vec<f32>>());
    }
    for _ in 0..n {
        let k = rng.below(most + 1);
        els.push((0..k).map(|_| rng.below(words)).collect::<Vec<usize>>());
    }
    c.note(format!("keys of {} elements up to {} terms of {} words dim={} multiplier={}", n, most, words, dim, mult));
    let cfg = Cfg { nn: 5, ms: 5, mult, reinsert: false, expected: None, progress: false };
    let mut b = GranneBuilder::new(cfg.build(), els);
    no_panic("build", || b.build())?;
    let mut ix = b.get_index().to_owned();
    let keys = no_panic("compute_keys_for_reordering", || granne::embeddings::compute_keys_for_reordering(ix.get_elements()))?;
    no_panic("reorder_by_keys", || ix.reorder_by_keys(&keys, false))?;
    let heavy: Vec<Vec<usize>> = (0..n)
        .map(|i| {
            let mut t = ix.get_elements().get_terms(i);
            t.sort_by_key(|&w| std::cmp::Reverse(rank[w]));
            t
        })
        .collect();
    let mut from = 0;
    let mut shared = 0;
    for l in 0..ix.num_layers() {
        let to = ix.layer_len(l);
        for k in 1..=8 {
            // among the elements with at least k terms, each list of k heaviest ones is one run
            let mut done = std::collections::HashSet::new();
            let mut last: Option<&[usize]> = None;
            for i in from..to {
                if heavy[i].len() < k {
                    continue;
                }
                let p = &heavy[i][..k];
                if last != Some(p) {
                    ensure!(done.insert(p), "in [{}, {}) the elements with heaviest terms {:?} are not side by side: element {} comes later", from, to, p, i);
                    last = Some(p);
                } else {
                    shared += 1;
                }
            }
        }
        from = to;
    }
    c.ctx.count("neighbors_by_id_sharing_heaviest_terms", shared);
    if shared > 0 {
        c.nontrivial(hash_bytes(format!("{:?}", heavy).as_bytes()));
    }
    Ok(())
}

pub fn run(ctx: &Ctx) {
    ctx.rule("Indexes over clustered and uniform data in random order, reordered automatically: distance between elements with adjacent ids, distance in id between linked elements, and size of the index file, after against before, mean over five builds, with limits calibrated on this code with margins. Indexes of embedding sums reordered by the keys made for them: in each layer, elements sharing their k heaviest terms (k up to 8) must be one run of ids. Non-trivial: every automatic case; keys: some adjacent elements share terms; distinct: different measurements or orders.");
    let w = ctx.workers;
    const C: Limits = [0.25, 0.65, 0.97];
    const U: Limits = [0.34, 0.75, 0.99];
    const SC: Limits = [0.7, 0.7, 0.97];
    const SU: Limits = [0.8, 0.8, 0.99];
    const M: &[f32] = &[8.0, 10.0, 15.0];
    const S: &[f32] = &[50.0, 100.0, 200.0];
    ctx.cases("auto", ctx.n(36, 600), w, |c| match c.idx % 12 {
        0 => auto::<F32>(c, true, M, C),
        1 => auto::<I8>(c, true, M, C),
        2 => auto::<Grid>(c, true, M, C),
        3 => auto::<F32>(c, false, M, U),
        4 => auto::<I8>(c, false, M, U),
        5 => auto::<Sum>(c, false, M, U),
        6 => auto::<F32>(c, true, S, SC),
        7 => auto::<I8>(c, true, S, SC),
        8 => auto::<Grid>(c, true, S, SC),
        9 => auto::<F32>(c, false, S, SU),
        10 => auto::<I8>(c, false, S, SU),
        _ => auto::<Sum>(c, false, S, SU),
    });
    ctx.cases("keys", ctx.n(400, 10000), w, keys);
}
