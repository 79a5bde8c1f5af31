//! C01: built graphs are well-formed.
use crate::gen::*;
use crate::graph::*;
use crate::kinds::*;
use crate::util::*;
use crate::{any_kind, any_noisy_kind, ensure};
use granne::{Builder, ElementContainer, GranneBuilder, Index};

fn history<K: Kind>(c: &mut Case, big: bool) -> Res {
    let rng = &mut c.rng;
    let dim = *rng.pick(&[1, 2, 3, 5, 8, 17, 33, 40]);
    let spec = Spec::random(rng, dim);
    let mut cfg = Cfg::random(rng);
    let threads = *rng.pick(&[1, 2, 2, 3, 4, 8]);
    let total = if big {
        rng.range(500, 1500)
    } else {
        match rng.below(5) {
            0 => rng.range(1, 6),
            1 => rng.range(7, 70),
            2 => cfg.nn + rng.below(4),
            _ => rng.range(40, 400),
        }
    };
    let one_shot = rng.chance(0.35);
    if rng.chance(0.3) || (!one_shot && rng.chance(0.5)) {
        cfg.expected = Some(if rng.chance(0.8) { total } else { rng.range(1, 2 * total) });
    }
    let desc = format!("{} n={} dim={} {:?} {:?} threads={} one_shot={}", K::NAME, total, dim, spec.flavor, cfg, threads, one_shot);
    c.note(desc);
    let rng = &mut c.rng;
    let mut b = GranneBuilder::new(cfg.build(), K::empty(rng, &spec));
    let mut steps = 0;
    let mut sizes = Vec::new();
    let mut known_size = true;
    while b.len() < total || steps == 0 {
        let have = b.num_elements();
        let add = if one_shot { total } else { rng.range(if have < total { 1 } else { 0 }, (total - have).max(1)).min(total - have) };
        for _ in 0..add {
            let it = K::item(rng, &spec, b.get_elements());
            b.push(it);
        }
        let have = b.num_elements();
        let upto = if one_shot || rng.chance(0.5) { have } else { rng.range(b.len(), have) };
        // the size the layers are planned for
        known_size &= have.max(cfg.expected.unwrap_or(0)) == total.max(cfg.expected.unwrap_or(0));
        let full = upto == have && rng.chance(0.7);
        let before = b.len();
        let r = in_pool(threads, || no_panic("build", || if full { b.build() } else { b.build_partial(upto) }));
        r?;
        let want = if upto == 0 { before } else { upto };
        let f = well_formed(&b, want, cfg.nn).map_err(|e| format!("builder after step {}: {}", steps, e))?;
        well_formed(&b.get_index(), want, cfg.nn).map_err(|e| format!("index of builder after step {}: {}", steps, e))?;
        ensure!(b.num_elements() == have, "building changed the number of elements");
        sizes.push((f.nodes, f.edges));
        c.ctx.count("neighbor_lists", f.nodes as u64);
        c.ctx.count("links", f.edges as u64);
        c.ctx.count("full_lists", f.full as u64);
        steps += 1;
        if steps > 60 {
            break;
        }
    }
    if known_size {
        layer_law(&b, cfg.mult)?;
        c.ctx.count("layer_laws_checked", 1);
    }
    ensure!(b.get_elements().len() >= b.len(), "more nodes than elements");
    if b.len() > 1 {
        c.nontrivial(hash_bytes(format!("{:?}{}", sizes, c.desc).as_bytes()));
    }
    Ok(())
}

/// Few elements, many threads: no list can fill up, so every link made must still be there, in
/// both directions, and everything must hang together.
fn tiny<K: Kind>(c: &mut Case) -> Res {
    let rng = &mut c.rng;
    // lists of hundreds of links are rare, since there are as many times more of them
    let wide = !cfg!(feature = "shim") && rng.chance(0.03);
    let dim = if wide { rng.range(12, 20) } else { rng.range(2, 12) };
    let flavor = *rng.pick(&[Flavor::Uniform, Flavor::Clustered]);
    let spec = Spec::new(rng, dim, flavor);
    let n = if wide { rng.range(100, 300) } else { rng.range(2, 24) };
    let mut cfg = Cfg::random(rng);
    if wide {
        cfg.ms = rng.range(100, 400);
        cfg.reinsert = rng.chance(0.2);
    }
    // upper layers use half of it
    cfg.nn = if rng.chance(0.4) { n - 1 + rng.below(2) } else { 2 * (n - 1) + rng.below(6) };
    cfg.nn = cfg.nn.max(2);
    #[cfg(feature = "shim")]
    parking_lot::shim::set(*rng.pick(&[1, 2, 3, 10, 40]), rng.seed());
    let threads = rng.range(2, 8);
    let desc = format!("{} n={} dim={} {:?} threads={}", K::NAME, n, dim, cfg, threads);
    c.note(desc);
    let rng = &mut c.rng;
    let els = fill::<K>(rng, &spec, n);
    // near-duplicates may legitimately stay unlinked
    for i in 0..n {
        for j in 0..i {
            if els.dist(i, j).into_inner() < 1e-4 {
                return Ok(());
            }
        }
        if els.dist(i, i).into_inner() > 1e-6 {
            return Ok(());
        }
    }
    let mut b = GranneBuilder::new(cfg.build(), els);
    let part = if rng.chance(0.5) { rng.range(1, n) } else { 0 };
    in_pool(threads, || {
        no_panic("build", || {
            b.build_partial(part);
            b.build()
        })
    })?;
    well_formed(&b, n, cfg.nn)?;
    let v = view(&b);
    if v.layers.iter().any(|l| l.len() - 1 > if l.len() == n { cfg.nn } else { (cfg.nn / 2).max(1) }) {
        c.count("tiny_with_an_upper_layer_that_can_fill_its_lists", 1);
        return Ok(());
    }
    if wide {
        c.count("tiny_with_lists_for_hundreds", 1);
    }
    if cfg.nn == n - 1 {
        c.count("tiny_with_room_for_exactly_all_others", 1);
    }
    for (l, layer) in v.layers.iter().enumerate() {
        for (i, nb) in layer.iter().enumerate() {
            for &j in nb {
                ensure!(layer[j].contains(&i), "layer {}: link {}->{} exists but {}->{} was lost: {:?}", l, i, j, j, i, layer);
            }
        }
        let r = reach(layer, 0);
        ensure!(r.iter().all(|x| *x), "layer {}: not everything hangs together: {:?}", l, layer);
        c.count("tiny_links", layer.iter().map(|x| x.len() as u64).sum());
    }
    c.nontrivial(hash_bytes(format!("{:?}", v).as_bytes()));
    Ok(())
}

/// lists of hundreds of links, or tens of thousands of nodes
fn extreme<K: Kind>(c: &mut Case, many: bool) -> Res {
    let mut rng = c.rng.fork();
    let mut cfg = Cfg { expected: None, ..Cfg::random(&mut rng) };
    let (n, dim, parts) = if many {
        cfg.nn = rng.range(2, 6);
        cfg.ms = rng.range(1, 4);
        (if rng.chance(0.3) { rng.range(66_000, 90_000) } else { rng.range(3_000, 40_000) }, rng.range(2, 4), rng.below(3))
    } else {
        cfg.nn = *rng.pick(&[50, 63, 64, 65, 100, 127, 128, 129, 200, 254, 255, 256, 257, 300]);
        cfg.ms = *rng.pick(&[1, 20, 100, 400]);
        cfg.reinsert = rng.chance(0.2);
        (rng.range(cfg.nn / 2, cfg.nn + 100), rng.range(2, 20), rng.below(3))
    };
    let threads = *rng.pick(&[1, 2, 4, 8]);
    let flavor = if many { Flavor::Uniform } else { *rng.pick(&[Flavor::Uniform, Flavor::Clustered]) };
    let spec = Spec::new(&mut rng, dim, flavor);
    let mut cuts: Vec<usize> = (0..parts).map(|_| rng.range(1, n)).collect();
    cuts.sort_unstable();
    c.note(format!("extreme {} n={} dim={} {:?} {:?} threads={} steps at {:?}", K::NAME, n, dim, flavor, cfg, threads, cuts));
    let mut b = GranneBuilder::new(cfg.build(), fill::<K>(&mut rng, &spec, n));
    cuts.push(n);
    for k in cuts {
        in_pool(threads, || no_panic("build", || b.build_partial(k)))?;
        let f = well_formed(&b, k, cfg.nn)?;
        c.ctx.count("neighbor_lists", f.nodes as u64);
        c.ctx.count("links", f.edges as u64);
        c.ctx.count("full_lists", f.full as u64);
    }
    layer_law(&b, cfg.mult)?;
    c.nontrivial(hash_bytes(format!("{}{:?}", c.desc, b.get_neighbors(n / 2, b.num_layers() - 1)).as_bytes()));
    Ok(())
}

pub fn run(ctx: &Ctx) {
    ctx.rule("Seeded random histories of push/build/build_partial (element kind, data flavor, configuration, pool size 1-8, injected delays in distance calls) and, separately, collections of 2-24 elements built by 2-8 threads with neighbor lists that cannot fill. After every build step the whole graph is read back through the public interface and checked. Non-trivial: more than one node; distinct: different description and per-step node/link counts, or different tiny graph.");
    ctx.cases("history", ctx.n(700, 8000), ctx.workers, |c| any_noisy_kind!(c.rng, history, c, false));
    ctx.cases("big", ctx.n(16, 200), ctx.workers.min(3), |c| any_noisy_kind!(c.rng, history, c, true));
    ctx.cases("wide", ctx.n(300, 4000), ctx.workers.min(4), |c| match c.idx % 3 {
        0 => extreme::<F32>(c, false),
        1 => extreme::<I8>(c, false),
        _ => extreme::<Sum>(c, false),
    });
    ctx.cases("large", ctx.n(8, 120), ctx.workers.min(4), |c| any_kind!(c.rng, extreme, c, true));
    ctx.cases("tiny", ctx.n(4000, 60000), ctx.workers.min(4), |c| any_noisy_kind!(c.rng, tiny, c));
}
