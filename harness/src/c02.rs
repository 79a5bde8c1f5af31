//! C02: every search result is valid, exact, ordered, closed and stable.
use crate::codec;
use crate::gen::*;
use crate::graph::*;
use crate::kinds::*;
use crate::util::*;
use crate::{any_kind, ensure};
use granne::{Builder, ElementContainer, Granne, GranneBuilder, Index};

/// all oracles for one query against one index
fn check_query<C: ElementContainer>(
    c: &Case,
    ix: &Granne<C>,
    v: &View,
    strong: bool,
    q: &C::Element,
    ms: usize,
    rng: &mut Rng,
) -> Result<Vec<(usize, u32)>, String> {
    let n = ix.len();
    let els = ix.get_elements();
    let k = *rng.pick(&[0, 1, 1, 2, 3, 10, 50, 1000]);
    let r = no_panic("search", || ix.search(q, ms, k))?;
    valid_result(els, n, q, ms, k, &r)?;
    let full = no_panic("search", || ix.search(q, ms, usize::max_value()))?;
    valid_result(els, n, q, ms, usize::max_value(), &full)?;
    ensure!(bits(&full[..k.min(full.len())]) == bits(&r), "asking for {} gives {:?}, asking for all gives {:?}", k, r, full);
    c.ctx.count("results", (r.len() + full.len()) as u64);
    let bottom = match v.layers.last() {
        None => {
            ensure!(full.is_empty(), "results from an index without elements: {:?}", full);
            return Ok(vec![]);
        }
        Some(b) => b,
    };
    ensure!(!full.is_empty(), "no result from an index of {} elements", n);
    let inside: std::collections::HashSet<usize> = full.iter().map(|x| x.0).collect();
    let worst = full.last().unwrap().1;
    let saturated = full.len() >= ms;
    for &(id, _) in &full {
        for &nb in &bottom[id] {
            if !inside.contains(&nb) {
                let d = els.dist_to_element(nb, q).into_inner();
                ensure!(saturated, "{} is linked from result {} and the width {} is not used up by {} results", nb, id, ms, full.len());
                ensure!(!(d < worst), "{} at {} is linked from result {}, but the farthest result is at {} (width {})", nb, d, id, worst, ms);
            }
        }
    }
    // how many must there be
    if v.layers.len() == 1 {
        let rs = reach_ids(bottom, 0);
        ensure!(full.len() == ms.min(rs.len()), "{} results, {} reachable from the start, width {}", full.len(), rs.len(), ms);
        if ms >= rs.len() {
            let mut want = brute_of(els, &rs, q);
            want.truncate(full.len());
            ensure!(same_up_to_ties(&want, &full), "width covers everything: expected {:?} got {:?}", want, full);
            c.ctx.count("exhaustive_exact", 1);
        }
    } else {
        let upper = v.layers[v.layers.len() - 2].len();
        if strong {
            ensure!(full.len() == ms.min(n), "{} results from {} connected elements with width {}", full.len(), n, ms);
        }
        if full.len() < ms || ms >= n {
            // everything reachable from wherever the upper layers lead to
            let ok = full.iter().map(|x| x.0).filter(|x| *x < upper).any(|e| reach_ids(bottom, e).len() == full.len());
            ensure!(ok, "the {} results are not what can be reached from a node of the layer above", full.len());
            let ids: Vec<usize> = full.iter().map(|x| x.0).collect();
            let want = brute_of(els, &ids, q);
            ensure!(same_up_to_ties(&want, &full), "expected {:?} got {:?}", want, full);
            c.ctx.count("exhaustive_closed", 1);
        }
    }
    Ok(bits(&full))
}

fn brute_of<C: ElementContainer>(els: &C, ids: &[usize], q: &C::Element) -> Vec<(usize, f32)> {
    let mut v: Vec<(usize, f32)> = ids.iter().map(|&i| (i, els.dist_to_element(i, q).into_inner())).collect();
    v.sort_by(|a, b| a.1.partial_cmp(&b.1).unwrap().then(a.0.cmp(&b.0)));
    v
}

fn same_up_to_ties(a: &[(usize, f32)], b: &[(usize, f32)]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.1.to_bits() == y.1.to_bits())
}

fn queries<C>(c: &mut Case, ix: &Granne<C>, qs: &[C::Element]) -> Res
where
    C: ElementContainer + Sync,
    C::Element: Sync,
{
    let n = ix.len();
    let v = view(ix);
    let strong = v.layers.last().map_or(true, |l| strongly_connected(l));
    let mut seen = Vec::new();
    let mut rng = c.rng.fork();
    for q in qs {
        let ms = match rng.below(6) {
            0 => 1,
            1 => 2,
            2 => rng.range(1, 12),
            3 => n + rng.below(5) + 1,
            4 => 1 + rng.below(n + 1),
            _ => rng.range(10, 60),
        };
        let r = check_query(c, ix, &v, strong, q, ms, &mut rng)?;
        seen.push((ms, r));
        c.ctx.count("queries", 1);
    }
    // again, from several threads at once
    if rng.chance(0.5) {
        let seen = &seen;
        let bad: Vec<String> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..3)
                .map(|t| {
                    s.spawn(move || {
                        for k in 0..qs.len() {
                            let i = (k * 7 + t * 3) % qs.len();
                            let r = bits(&ix.search(&qs[i], seen[i].0, usize::max_value()));
                            if r != seen[i].1 {
                                return Some(format!("concurrent search differs: {:?} / {:?}", r, seen[i].1));
                            }
                        }
                        None
                    })
                })
                .collect();
            hs.into_iter().filter_map(join).collect()
        });
        ensure!(bad.is_empty(), "{}", bad[0]);
        c.ctx.count("concurrent_searches", 3 * qs.len() as u64);
    }
    for (q, s) in qs.iter().zip(&seen) {
        let r = bits(&ix.search(q, s.0, usize::max_value()));
        ensure!(r == s.1, "repeated search differs: {:?} / {:?}", r, s.1);
    }
    ensure!(view(ix) == v, "searching changed the index");
    if n > 1 {
        c.nontrivial(hash_bytes(format!("{:?}", seen).as_bytes()));
    }
    Ok(())
}

fn from_builder<K: Kind>(c: &mut Case) -> Res {
    let o = Opt { partial: true, ..Default::default() };
    let t = built::<K>(&mut c.rng, &o)?;
    let how = c.rng.below(4);
    c.note(format!("{} view={}", t.desc, how));
    let mut rng = c.rng.fork();
    let qs: Vec<K::E> = (0..12).map(|_| K::query(&mut rng, &t.spec, t.b.get_elements())).collect();
    match how {
        0 | 1 => {
            let ix = t.b.get_index();
            let ix2: Granne<K::C> = own(&ix);
            queries(c, &ix2, &qs)
        }
        2 => {
            let by = index_bytes(&t.b)?;
            let s = Shifted::new(&by, rng.below(16));
            let ix = Granne::from_bytes(s.get(), t.b.get_elements().clone());
            queries(c, &ix, &qs)
        }
        _ => {
            let by = index_bytes(&t.b)?;
            let f = temp_file(c.ctx, &by);
            let ix = unsafe { Granne::from_file(&f, t.b.get_elements().clone()) }.map_err(|e| e.to_string())?;
            queries(c, &ix, &qs)
        }
    }
}

pub fn own<C: ElementContainer + Clone>(ix: &Granne<&C>) -> Granne<'static, C> {
    ix.to_owned()
}

/// random directed graphs that no builder would produce, one or several nested layers, ties
fn crafted<K: Kind>(c: &mut Case) -> Res {
    let rng = &mut c.rng;
    let spec = Spec::random(rng, 3);
    let n = rng.range(1, 90);
    let nl = if rng.chance(0.6) { 1 } else { rng.range(2, 4) };
    let mut sizes: Vec<usize> = (0..nl - 1).map(|_| rng.range(1, n)).collect();
    sizes.push(n);
    sizes.sort_unstable();
    let deg = *rng.pick(&[1, 2, 3, 6, 20]);
    let layers: Vec<Vec<Vec<u32>>> = sizes
        .iter()
        .map(|&m| {
            (0..m)
                .map(|i| {
                    let mut v: Vec<u32> = (0..rng.below(deg + 1)).map(|_| rng.below(m) as u32).filter(|j| *j as usize != i).collect();
                    if rng.chance(0.5) && i + 1 < m {
                        v.push(i as u32 + 1);
                    }
                    v.sort_unstable();
                    v.dedup();
                    v
                })
                .collect()
        })
        .collect();
    let by = codec::encode_index(&layers, "0.5.2");
    c.note(format!("{} crafted sizes={:?} degree<={} {:?}", K::NAME, sizes, deg, spec.flavor));
    let mut rng = c.rng.fork();
    let els = fill::<K>(&mut rng, &spec, n);
    let qs: Vec<K::E> = (0..16).map(|_| K::query(&mut rng, &spec, &els)).collect();
    let ix = Granne::from_bytes(&by, els);
    queries(c, &ix, &qs)
}

/// many nodes, some of them with very many links, and widths far beyond any usual setting
fn large<K: Kind>(c: &mut Case) -> Res {
    let rng = &mut c.rng;
    let spec = Spec { flavor: Flavor::Uniform, ..Spec::random(rng, 3) };
    let n = *rng.pick(&[1500usize, 4097, 9000, 20000, 66000]) + rng.below(40);
    let nl = rng.range(1, 3);
    let mut sizes: Vec<usize> = (0..nl - 1).map(|_| rng.range(1, n)).collect();
    sizes.push(n);
    sizes.sort_unstable();
    let (deg, hubs) = (rng.range(2, 6), *rng.pick(&[0, 3, 20]));
    let layers: Vec<Vec<Vec<u32>>> = sizes
        .iter()
        .map(|&m| {
            (0..m)
                .map(|i| {
                    let k = if rng.below(m) < hubs || (hubs > 0 && i == 0) { rng.range(60, 254) } else { rng.below(deg + 1) };
                    let mut v: Vec<u32> = (0..k).map(|_| rng.below(m) as u32).filter(|j| *j as usize != i).collect();
                    if i + 1 < m {
                        v.push(i as u32 + 1);
                    }
                    v.sort_unstable();
                    v.dedup();
                    v
                })
                .collect()
        })
        .collect();
    let by = codec::encode_index(&layers, "0.5.2");
    c.note(format!("{} crafted sizes={:?} degree<={} hubs={} {:?}", K::NAME, sizes, deg, hubs, spec.flavor));
    let mut rng = c.rng.fork();
    let els = fill::<K>(&mut rng, &spec, n);
    let ix = Granne::from_bytes(&by, els);
    let v = view(&ix);
    ensure!(v.layers.len() == layers.len(), "{} layers written, {} read", layers.len(), v.layers.len());
    let mut seen = Vec::new();
    for i in 0..4 {
        let q = K::query(&mut rng, &spec, ix.get_elements());
        let ms = if i == 0 { n + 1 } else { *rng.pick(&[1usize, 40, 260, 1000, 5000, 40000]) };
        seen.push(check_query(c, &ix, &v, false, &q, ms, &mut rng)?);
        c.ctx.count("queries", 1);
    }
    c.ctx.count("large_nodes", n as u64);
    c.nontrivial(hash_bytes(format!("{:?}", seen).as_bytes()));
    Ok(())
}

/// a borrowed slice of plain elements, and an index over fewer elements than the collection holds
fn slices(c: &mut Case) -> Res {
    let mut rng = c.rng.fork();
    let spec = Spec::random(&mut rng, 3);
    let n = rng.range(1, 120);
    let cfg = Cfg::random(&mut rng);
    let els = fill::<F32>(&mut rng, &spec, n);
    let v: Vec<_> = (0..n).map(|i| els.get(i)).collect();
    let part = rng.range(1, n);
    c.note(format!("slice n={} indexed={} {:?} {:?}", n, part, spec.flavor, cfg));
    let mut b = GranneBuilder::new(cfg.build(), &v[..]);
    no_panic("build_partial", || b.build_partial(part))?;
    let by = index_bytes(&b)?;
    let ix = Granne::from_bytes(&by, &v[..]);
    let qs: Vec<_> = (0..8).map(|_| F32::query(&mut rng, &spec, &els)).collect();
    queries(c, &ix, &qs)?;
    let mut b = GranneBuilder::new(cfg.build(), v.clone());
    no_panic("build", || b.build())?;
    let ix = own(&b.get_index());
    queries(c, &ix, &qs)
}

pub fn run(ctx: &Ctx) {
    ctx.rule("Indexes of all element kinds (built by random schedules, loaded from bytes or a mapped file, or random directed graphs written by an independent writer) searched with random queries, widths and result counts; every returned list is checked against the collection's own distances, the prefix and closure certificates over the links read back, the set reachable from the start, and repetitions from several threads. Non-trivial: an index of more than one element; distinct: different result lists.");
    let w = ctx.workers;
    ctx.cases("built", ctx.n(700, 12000), w, |c| any_kind!(c.rng, from_builder, c));
    ctx.cases("crafted", ctx.n(2500, 50000), w, |c| any_kind!(c.rng, crafted, c));
    ctx.cases("large", ctx.n(24, 300), w, |c| any_kind!(c.rng, large, c));
    ctx.cases("slices", ctx.n(200, 3000), w, slices);
}
