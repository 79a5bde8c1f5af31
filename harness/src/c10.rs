//! C10: building in steps, with saving and loading in between.
use crate::codec;
use crate::elems::written;
use crate::gen::*;
use crate::graph::*;
use crate::kinds::*;
use crate::util::*;
use crate::{any_kind, ensure};
use granne::{Builder, ElementContainer, ExtendableElementContainer, Granne, GranneBuilder, Index, RwGranneBuilder};
use std::io::Cursor;

/// layers above the last one must stay, node by node and link by link
fn kept(before: &View, after: &View, step: usize) -> Res {
    ensure!(after.layers.len() >= before.layers.len(), "step {}: {} layers became {}", step, before.layers.len(), after.layers.len());
    for l in 0..before.layers.len().saturating_sub(1) {
        ensure!(before.layers[l] == after.layers[l], "step {}: layer {} of {} was complete ({} nodes) but changed", step, l, before.layers.len(), before.layers[l].len());
    }
    if let (Some(a), Some(b)) = (before.layers.last(), after.layers.get(before.layers.len().wrapping_sub(1))) {
        ensure!(b.len() >= a.len(), "step {}: the last layer shrank from {} to {}", step, a.len(), b.len());
    }
    Ok(())
}

fn sizes(v: &View) -> Vec<usize> {
    v.layers.iter().map(|l| l.len()).collect()
}

fn history<K: Kind>(c: &mut Case, large: bool) -> Res {
    let mut rng = c.rng.fork();
    let dim = *rng.pick(&[2, 3, 8]);
    let flavor = *rng.pick(ANY);
    let spec = Spec::new(&mut rng, dim, flavor);
    let mut cfg = Cfg::random(&mut rng);
    cfg.ms = cfg.ms.min(50);
    if large {
        cfg.nn = rng.range(3, 10);
        cfg.ms = rng.range(1, 5);
    }
    let total = match rng.below(4) {
        _ if large => *rng.pick(&[1000, 2025, 3375, 5000, 10_000, 20_000]) + rng.below(3),
        0 => rng.range(1, 8),
        1 => *rng.pick(&[15, 16, 60, 61, 225]),
        _ => rng.range(5, 250),
    };
    let announced = rng.chance(0.6);
    if announced {
        cfg.expected = Some(total);
    } else if rng.chance(0.3) {
        cfg.expected = Some(rng.range(1, 2 * total));
    }
    let threads = *rng.pick(&[1, 1, 2, 4]);
    c.note(format!("{} total={} {:?} announced={} threads={} {:?}", K::NAME, total, flavor, announced, threads, cfg));
    let empty = K::empty(&mut rng, &spec);
    let items: Vec<K::I> = (0..total).map(|_| K::item(&mut rng, &spec, &empty)).collect();
    let mut b = GranneBuilder::new(cfg.build(), empty.clone());
    let mut before = set_view(&b);
    let mut step = 0;
    let mut reloads = 0;
    let mut zero = 0;
    let mut planned_before = 0;
    while b.len() < total {
        step += 1;
        let have = b.num_elements();
        let add = if rng.chance(0.3) { 0 } else { rng.range(0, (total - have).min(1 + total / 3)) };
        for it in &items[have..have + add] {
            b.push(it.clone());
        }
        let have = have + add;
        ensure!(b.num_elements() == have, "num_elements() is {} after {} pushes", b.num_elements(), have);
        ensure!(set_view(&b) == before, "step {}: pushing changed the graph", step);
        let upto = rng.range(b.len(), have);
        let full = rng.chance(0.3);
        let target = if full { have } else { upto };
        let nothing_new = target == b.len() && target > 0;
        // more elements make the last layer a (thinner) upper layer of a taller plan: no promise about its links then
        let planned = have.max(cfg.expected.unwrap_or(0));
        let unchanged = !cfg.reinsert && planned == planned_before;
        planned_before = planned;
        in_pool(threads, || no_panic("build", || if full { b.build() } else { b.build_partial(upto) }))?;
        let after = set_view(&b);
        ensure!(b.len() == if target == 0 { 0 } else { target }, "step {}: len() is {}, {} were asked for", step, b.len(), target);
        kept(&before, &after, step)?;
        if target == 0 {
            ensure!(after == before, "step {}: building zero elements changed the graph", step);
            zero += 1;
        }
        if nothing_new {
            ensure!(sizes(&before) == sizes(&after), "step {}: building again with nothing new changed layer sizes {:?} to {:?}", step, sizes(&before), sizes(&after));
            if unchanged || b.len() >= planned {
                ensure!(after == before, "step {}: building again with nothing new changed links", step);
            }
            c.ctx.count("repeated_builds", 1);
        }
        well_formed(&b, b.len(), cfg.nn).map_err(|e| format!("step {}: {}", step, e))?;
        // contents never move
        for i in 0..have.min(5) {
            let i = have - 1 - i * have / 5.max(1);
            ensure!(K::read(b.get_elements(), i) == K::ikey(&items[i]), "step {}: element {} is not the one pushed", step, i);
        }
        if rng.chance(0.4) {
            // save, load, continue
            let by = index_bytes(&b)?;
            let e = written(b.get_elements(), "write")?;
            let els = K::reload(&empty, &e);
            let mut cfg2 = cfg.clone();
            if rng.chance(0.2) {
                cfg2.nn += rng.below(3);
            }
            let nb = if rng.chance(0.5) {
                no_panic("from_bytes", || GranneBuilder::from_bytes(cfg2.build(), &by, els))?
            } else {
                let mut f = temp_file(c.ctx, &by);
                no_panic("from_file", || GranneBuilder::from_file(cfg2.build(), &mut f, els))?.map_err(|e| format!("from_file: {}", e))?
            };
            cfg = cfg2;
            ensure!(set_view(&nb) == after, "step {}: the graph is different after saving and loading into a builder", step);
            ensure!(nb.num_elements() == have, "step {}: {} elements after loading, {} before", step, nb.num_elements(), have);
            b = nb;
            reloads += 1;
        }
        before = after;
        if step > 400 {
            return Err("no progress".into());
        }
    }
    for i in 0..total {
        ensure!(K::read(b.get_elements(), i) == K::ikey(&items[i]), "element {} is not the one pushed", i);
    }
    if announced {
        let mut els = empty.clone();
        items.iter().for_each(|i| els.push(i.clone()));
        let mut one = GranneBuilder::new(cfg.build(), els);
        no_panic("build", || one.build())?;
        let (a, o) = (sizes(&set_view(&b)), sizes(&set_view(&one)));
        ensure!(a == o, "layers of {:?} nodes instead of {:?} when built at once", a, o);
        c.ctx.count("sizes_compared", 1);
    }
    c.count("steps", step as u64);
    c.count("reloads", reloads);
    c.count("builds_of_zero", zero);
    if step > 1 && total > 2 {
        c.nontrivial(hash_bytes(format!("{}{:?}", c.desc, sizes(&before)).as_bytes()));
    }
    Ok(())
}

/// quality does not suffer from steps and reloads
fn quality<K: Kind>(c: &mut Case) -> Res {
    let mut rng = c.rng.fork();
    let n = rng.range(500, 1500);
    let dim = rng.range(4, 25);
    let spec = Spec::new(&mut rng, dim, Flavor::Uniform);
    let cfg = Cfg {
        nn: *rng.pick(&[8, 15, 20, 30]),
        ms: *rng.pick(&[20, 50, 100]),
        mult: *rng.pick(&[5.0, 10.0, 15.0]),
        reinsert: rng.chance(0.5),
        expected: Some(n),
        progress: false,
    };
    let steps = rng.range(2, 12);
    c.note(format!("quality {} n={} dim={} steps={} {:?}", K::NAME, n, dim, steps, cfg));
    let empty = K::empty_large(&mut rng, &spec, 2000);
    let mut els = empty.clone();
    for _ in 0..n {
        let it = K::item(&mut rng, &spec, &empty);
        els.push(it);
    }
    let qs: Vec<K::E> = (0..60)
        .map(|_| {
            let mut t = empty.clone();
            let it = K::item(&mut rng, &spec, &empty);
            t.push(it);
            t.get(t.len() - 1)
        })
        .collect();
    let mut one = GranneBuilder::new(cfg.build(), els.clone());
    no_panic("build", || one.build())?;
    let mut b = GranneBuilder::new(cfg.build(), els.clone());
    let mut cuts: Vec<usize> = (0..steps - 1).map(|_| rng.range(1, n)).collect();
    cuts.sort_unstable();
    for k in cuts {
        no_panic("build_partial", || b.build_partial(k.max(1)))?;
        if rng.chance(0.4) {
            let by = index_bytes(&b)?;
            b = no_panic("from_bytes", || GranneBuilder::from_bytes(cfg.build(), &by, els.clone()))?;
        }
    }
    no_panic("build", || b.build())?;
    let q = |b: &GranneBuilder<K::C>| {
        let ix = b.get_index().to_owned();
        let (h, a) = recall(&ix, &qs, 12, 10);
        let ids: Vec<usize> = (0..n).collect();
        (h / a, self_found(&ix, &ids, 5).0 as f64 / n as f64)
    };
    let ((r1, s1), (r2, s2)) = (q(&one), q(&b));
    c.ctx.min("recall_at_once", r1);
    c.ctx.min("recall_in_steps", r2);
    c.ctx.min("recall_difference", r2 - r1);
    c.ctx.min("self_found_in_steps", s2);
    c.ctx.min("self_found_difference", s2 - s1);
    ensure!(r2 >= r1 - 0.06, "recall {:.3} when built in {} steps, {:.3} at once", r2, steps, r1);
    ensure!(s2 >= s1 - 0.03, "{:.3} of the elements find themselves when built in {} steps, {:.3} at once", s2, steps, s1);
    c.nontrivial(hash_bytes(c.desc.as_bytes()));
    Ok(())
}

/// indexes of other origin can be extended without touching what is there
fn foreign<K: Kind>(c: &mut Case) -> Res {
    let mut rng = c.rng.fork();
    let spec = Spec::new(&mut rng, 3, Flavor::Uniform);
    let mut cfg = Cfg::random(&mut rng);
    cfg.ms = cfg.ms.min(30);
    cfg.nn = cfg.nn.max(4);
    let a = rng.range(1, 5);
    let n = a + rng.range(1, 40);
    let layers: Vec<Vec<Vec<u32>>> = [a, n]
        .iter()
        .map(|&m| {
            (0..m)
                .map(|i| {
                    let mut s: Vec<u32> = (0..rng.below(5)).map(|_| rng.below(m) as u32).filter(|&j| j as usize != i).collect();
                    s.sort_unstable();
                    s.dedup();
                    s
                })
                .collect()
        })
        .collect();
    let by = codec::encode_index(&layers, "0.5.2");
    let more = rng.range(1, 60);
    c.note(format!("foreign {} {}+{} {:?}", K::NAME, n, more, cfg));
    let els = fill::<K>(&mut rng, &spec, n + more);
    let mut b = no_panic("from_bytes", || GranneBuilder::from_bytes(cfg.build(), &by, els.clone()))?;
    let before = set_view(&b);
    ensure!(sizes(&before) == vec![a, n], "loaded sizes {:?}", sizes(&before));
    no_panic("build", || b.build())?;
    let after = set_view(&b);
    kept(&before, &after, 0)?;
    well_formed(&b, n + more, cfg.nn)?;
    let by2 = index_bytes(&b)?;
    let ix = Granne::from_bytes(&by2, els);
    ensure!(set_view(&ix) == after, "saved and loaded differently");
    c.nontrivial(hash_bytes(&by2));
    Ok(())
}

/// a builder that goes on as a concurrent one, whose capacity is the announced size
fn concurrent<K: Kind>(c: &mut Case) -> Res {
    let mut rng = c.rng.fork();
    let flavor = *rng.pick(ANY);
    let spec = Spec::new(&mut rng, 3, flavor);
    let mut cfg = Cfg::random(&mut rng);
    cfg.ms = cfg.ms.min(30);
    let cap = match rng.below(3) {
        0 => rng.range(1, 20),
        1 => *rng.pick(&[15, 16, 60, 61, 225]),
        _ => rng.range(20, 400),
    };
    let first = rng.below(cap + 1);
    let how = rng.below(4);
    cfg.expected = match how {
        0 => None,
        1 => Some(rng.range(1, 2 * cap)),
        _ => Some(cap),
    };
    let pool = *rng.pick(&[1, 1, 4]);
    let empty = K::empty(&mut rng, &spec);
    let items: Vec<K::I> = (0..cap).map(|_| K::item(&mut rng, &spec, &empty)).collect();
    let mut all = empty.clone();
    let mut pre = empty.clone();
    for (i, it) in items.iter().enumerate() {
        all.push(it.clone());
        if i < first {
            pre.push(it.clone());
        }
    }
    c.note(format!("{} {} of {} then concurrently, built before: {} pool={} {:?}", K::NAME, first, cap, ["no", "no, another size announced", "yes", "partly"][how], pool, cfg));
    let mut plan = cfg.clone();
    plan.expected = Some(cap);
    let mut one = GranneBuilder::new(plan.build(), all.clone());
    no_panic("build", || one.build())?;
    let want = sizes(&set_view(&one));
    let mut b = GranneBuilder::new(cfg.build(), pre);
    match how {
        2 => no_panic("build", || b.build())?,
        3 if first > 0 => no_panic("build_partial", || b.build_partial(rng.range(1, first)))?,
        _ => {}
    }
    let mut before = set_view(&b);
    let rw = no_panic("RwGranneBuilder::new", || RwGranneBuilder::new(b, cap, pool))?;
    let mut at = first;
    let mut step = 0;
    loop {
        let (mut a, mut e) = (Cursor::new(Vec::new()), Vec::new());
        no_panic("write", || rw.write(&mut a, &mut e))?.map_err(|e| format!("write: {}", e))?;
        let a = a.into_inner();
        let ix = no_panic("from_bytes", || Granne::from_bytes(&a, K::reload(&empty, &e)))?;
        ensure!(ix.len() == at, "step {}: {} elements of {} in the snapshot", step, ix.len(), at);
        let now = set_view(&ix);
        kept(&before, &now, step)?;
        let s = sizes(&now);
        ensure!(s.len() <= want.len() && s.iter().zip(&want).all(|(x, y)| x <= y), "step {}: layers {:?} with {} of {} elements, a build of all at once has {:?}", step, s, at, cap, want);
        if at == cap {
            ensure!(s == want, "filled up in {} steps the layers are {:?}, built at once {:?}", step, s, want);
            break;
        }
        before = now;
        let k = if rng.chance(0.3) { cap - at } else { rng.range(1, 1 + (cap - at) / 2).min(cap - at) };
        let ids = no_panic("insert_batch", || rw.insert_batch(items[at..at + k].to_vec()))?;
        ensure!(ids.iter().copied().eq(at..at + k), "{} inserted after {} got {:?}", k, at, ids);
        at += k;
        step += 1;
    }
    c.count("filled_concurrently", 1);
    if step > 0 {
        c.nontrivial(hash_bytes(c.desc.as_bytes()));
    }
    Ok(())
}

pub fn run(ctx: &Ctx) {
    ctx.rule("Random histories of pushes, partial and full builds, saves and reloads into a builder (bytes or file, same or larger neighbor count), over all element kinds and configurations, with and without an announced size. After each step: ids and contents, completed upper layers bit-equal, repeated and zero builds, well-formedness; at the end layer sizes against a build at once. Separately, search quality against a build at once, extension of indexes written by an independent encoder, and builders that are filled up as concurrent ones (layers of the snapshot after each batch). Non-trivial: more than one step; distinct: different history and sizes.");
    let w = ctx.workers;
    ctx.cases("history", ctx.n(900, 20000), w, |c| any_kind!(c.rng, history, c, false));
    ctx.cases("large", ctx.n(12, 160), w, |c| any_kind!(c.rng, history, c, true));
    ctx.cases("foreign", ctx.n(300, 5000), w, |c| any_kind!(c.rng, foreign, c));
    ctx.cases("concurrent", ctx.n(400, 8000), w, |c| any_kind!(c.rng, concurrent, c));
    ctx.cases("quality", ctx.n(32, 500), w, |c| match c.rng.below(3) {
        0 => quality::<F32>(c),
        1 => quality::<I8>(c),
        _ => quality::<Sum>(c),
    });
}
