//! C23: the work of a search is the work its width stands for, and building needs about as many
//! distances per element however many there are.
use crate::gen::*;
use crate::graph::*;
use crate::kinds::*;
use crate::util::*;
use crate::ensure;
use granne::{Builder, ElementContainer, Granne, GranneBuilder, Index, RwGranneBuilder};
use std::cmp::Reverse;
use std::collections::{BinaryHeap, HashSet};
use std::io::Cursor;
use std::sync::atomic::Ordering::SeqCst;

/// Distances a best-first search of width `ms` over `layer` computes from `from`, and the nearest.
fn best_first<C: ElementContainer>(layer: &[Vec<usize>], from: usize, els: &C, q: &C::Element, ms: usize) -> (u64, usize) {
    let d = |i: usize| els.dist_to_element(i, q);
    let (mut open, mut best, mut seen) = (BinaryHeap::new(), BinaryHeap::new(), HashSet::new());
    open.push(Reverse((d(from), from)));
    seen.insert(from);
    let mut work = 1;
    while let Some(Reverse((x, i))) = open.pop() {
        if best.len() >= ms && x > best.peek().map(|b: &(ordered_float::NotNan<f32>, usize)| b.0).unwrap() {
            break;
        }
        best.push((x, i));
        if best.len() > ms {
            best.pop();
        }
        for &j in &layer[i] {
            if seen.insert(j) {
                work += 1;
                let x = d(j);
                if best.len() < ms || x < best.peek().unwrap().0 {
                    open.push(Reverse((x, j)));
                }
            }
        }
    }
    let nearest = best.into_sorted_vec().first().map_or(from, |b| b.1);
    (work, nearest)
}

fn allowance<C: ElementContainer>(v: &View, els: &C, q: &C::Element, ms: usize) -> u64 {
    let (mut at, mut work) = (0, 0);
    let last = v.layers.len().saturating_sub(1);
    for (l, layer) in v.layers.iter().enumerate() {
        let (w, n) = best_first(layer, at, els, q, if l == last { ms } else { 1 });
        work += w;
        at = n;
    }
    work
}

/// runs searches and compares what they computed with what the links call for
fn check<K: Kind>(
    c: &Case,
    rng: &mut Rng,
    v: &View,
    els: &Mon<K::C>,
    spec: &Spec,
    what: &str,
    mut search: impl FnMut(&K::E, usize, usize) -> Vec<(usize, f32)>,
) -> Result<(u64, u64), String>
where
    K::C: ElementContainer<Element = K::E>,
{
    let layers = v.layers.len() as u64;
    let (mut used, mut may) = (0, 0);
    for _ in 0..12 {
        let q = K::query(rng, spec, &els.inner);
        let n = els.inner.len();
        let ms = match rng.below(5) {
            0 => 1,
            1 => 2,
            2 => rng.range(3, 20),
            3 => rng.range(10, 80),
            _ => n + 1,
        };
        let k = *rng.pick(&[1, 10, 1000]);
        let before = els.noise.calls.load(SeqCst);
        let r = no_panic("search", || search(&q, ms, k))?;
        let calls = els.noise.calls.load(SeqCst) - before;
        let a = allowance(v, &els.inner, &q, ms);
        ensure!(
            calls <= a + a / 2 + 3 * layers + 3,
            "{}: a search of width {} computed {} distances, a best-first search over the same links computes {} ({} layers, {} elements, {} results)",
            what, ms, calls, a, layers, n, r.len()
        );
        used += calls;
        may += a;
        c.ctx.count("searches", 1);
        c.ctx.count("distances_of_searches", calls);
        c.ctx.count("distances_of_best_first", a);
    }
    ensure!(used <= may + may / 8 + 12 * (3 * layers + 3), "{}: 12 searches computed {} distances, best-first searches over the same links compute {}", what, used, may);
    Ok((used, may))
}

fn random<K>(c: &mut Case) -> Res
where
    K: Kind,
    Counted<K>: Kind<C = Mon<K::C>, E = K::E, I = K::I>,
{
    let mut rng = c.rng.fork();
    let o = Opt { max: 900, partial: true, ..Default::default() };
    let t = built::<Counted<K>>(&mut rng, &o)?;
    let how = rng.below(4);
    c.note(format!("{} view={}", t.desc, how));
    let v = view(&t.b);
    let els = t.b.get_elements().clone();
    let (spec, el) = (t.spec, els.clone());
    let r = match how {
        0 => {
            let ix = t.b.get_index();
            check::<K>(c, &mut rng, &v, &el, &spec, "borrowed", |q, m, k| ix.search(q, m, k))?
        }
        1 => {
            let ix = t.b.get_index().to_owned();
            check::<K>(c, &mut rng, &v, &el, &spec, "owned", |q, m, k| ix.search(q, m, k))?
        }
        2 => {
            let by = index_bytes(&t.b)?;
            let ix = Granne::from_bytes(&by, els);
            check::<K>(c, &mut rng, &v, &el, &spec, "loaded", |q, m, k| ix.search(q, m, k))?
        }
        _ => {
            let by = index_bytes(&t.b)?;
            let f = temp_file(c.ctx, &by);
            let ix = unsafe { Granne::from_file(&f, els) }.map_err(|e| e.to_string())?;
            check::<K>(c, &mut rng, &v, &el, &spec, "mapped", |q, m, k| ix.search(q, m, k))?
        }
    };
    if v.layers.last().map_or(0, |l| l.len()) > 1 {
        c.nontrivial(hash_bytes(format!("{} {:?}", c.desc, r).as_bytes()));
    }
    Ok(())
}

/// the concurrent builder, at rest
fn concurrent<K>(c: &mut Case) -> Res
where
    K: Kind,
    Counted<K>: Kind<C = Mon<K::C>, E = K::E, I = K::I>,
{
    let mut rng = c.rng.fork();
    let mut cfg = Cfg::random(&mut rng);
    cfg.ms = cfg.ms.min(60);
    let cap = rng.range(2, 500);
    let n = rng.range(1, cap);
    let pre = if rng.chance(0.4) { rng.below(n) } else { 0 };
    let (dim, fl) = (rng.range(2, 10), *rng.pick(ANY));
    let spec = Spec::new(&mut rng, dim, fl);
    let mut els = <Counted<K>>::empty(&mut rng, &spec);
    let empty = els.clone();
    let items: Vec<K::I> = (0..n).map(|_| K::item(&mut rng, &spec, &els.inner)).collect();
    items[..pre].iter().for_each(|i| granne::ExtendableElementContainer::push(&mut els, i.clone()));
    c.note(format!("concurrent {} n={} of {} prefill={} {:?} {:?}", K::NAME, n, cap, pre, fl, cfg));
    let rw = no_panic("RwGranneBuilder::new", || RwGranneBuilder::new(GranneBuilder::new(cfg.build(), els), cap, 2))?;
    no_panic("insert", || rw.insert_batch(items[pre..].to_vec()))?;
    let (mut a, mut b) = (Cursor::new(Vec::new()), Vec::new());
    no_panic("write", || rw.write(&mut a, &mut b))?.map_err(|e| e.to_string())?;
    let a = a.into_inner();
    let els = rw.get_elements().clone();
    let v = view(&Granne::from_bytes(&a, <Counted<K>>::reload(&empty, &b)));
    let r = check::<K>(c, &mut rng, &v, &els, &spec, "concurrent builder", |q, m, k| rw.search(q, m, k))?;
    if n > 1 {
        c.nontrivial(hash_bytes(format!("{} {:?}", c.desc, r).as_bytes()));
    }
    Ok(())
}

/// mean distances per search and per element of building, for two sizes of the same data
fn growth<K>(c: &mut Case) -> Res
where
    K: Kind,
    Counted<K>: Kind<C = Mon<K::C>, E = K::E, I = K::I>,
{
    let mut rng = c.rng.fork();
    let dim = rng.range(3, 12);
    let spec = Spec::new(&mut rng, dim, Flavor::Uniform);
    let cfg = Cfg { nn: rng.range(5, 10), ms: rng.range(8, 25), mult: *rng.pick(&[5.0, 10.0, 15.0]), reinsert: rng.chance(0.5), expected: None, progress: false };
    let ms = rng.range(5, 20);
    let live = rng.chance(0.4);
    let (small, large) = (rng.range(900, 1300), rng.range(5000, 7000));
    let empty = <Counted<K>>::empty_large(&mut rng, &spec, 3000);
    let items: Vec<K::I> = (0..large).map(|_| K::item(&mut rng, &spec, &empty.inner)).collect();
    c.note(format!("growth {} {} and {} elements dim={} width={} live={} {:?}", K::NAME, small, large, dim, ms, live, cfg));
    let mut res = Vec::new();
    for n in [small, large] {
        let mut els = empty.clone();
        els.noise = Default::default();
        let noise = els.noise.clone();
        let qs: Vec<K::E> = (0..40).map(|_| K::query(&mut rng, &spec, &empty.inner)).collect();
        let per_search;
        let build;
        if live {
            let rw = no_panic("RwGranneBuilder::new", || RwGranneBuilder::new(GranneBuilder::new(cfg.build(), els), n, 2))?;
            no_panic("insert", || rw.insert_batch(items[..n].to_vec()))?;
            build = noise.calls.load(SeqCst);
            no_panic("search", || qs.iter().for_each(|q| drop(rw.search(q, ms, 10))))?;
            per_search = (noise.calls.load(SeqCst) - build) as f64 / qs.len() as f64;
        } else {
            items[..n].iter().for_each(|i| granne::ExtendableElementContainer::push(&mut els, i.clone()));
            let before = noise.calls.load(SeqCst);
            let mut b = GranneBuilder::new(cfg.build(), els);
            in_pool(2, || no_panic("build", || b.build()))?;
            let after = noise.calls.load(SeqCst);
            build = after - before;
            let ix = b.get_index();
            no_panic("search", || qs.iter().for_each(|q| drop(ix.search(q, ms, 10))))?;
            per_search = (noise.calls.load(SeqCst) - after) as f64 / qs.len() as f64;
        }
        res.push((n as f64, build as f64 / n as f64, per_search));
    }
    let ((n0, b0, s0), (n1, b1, s1)) = (res[0], res[1]);
    c.ctx.max("share_seen_by_a_search", s1 / n1);
    c.ctx.max("search_growth", s1 / s0);
    c.ctx.max("building_growth", b1 / b0);
    c.ctx.max("distances_per_built_element", b1);
    ensure!(s1 / n1 < 0.3, "a search of width {} computes {:.0} distances in an index of {} elements", ms, s1, n1);
    ensure!(s1 / s0 < 3.0, "a search of width {} computes {:.0} distances among {} elements and {:.0} among {}", ms, s0, n0, s1, n1);
    ensure!(b1 / b0 < 2.5, "building computes {:.0} distances per element for {} elements and {:.0} for {}", b0, n0, b1, n1);
    c.nontrivial(hash_bytes(c.desc.as_bytes()));
    Ok(())
}

pub fn run(ctx: &Ctx) {
    ctx.rule("Collections that count their distance computations, in indexes of all kinds (borrowed, owned, loaded, mapped, concurrent builder at rest): each search is compared with the number of distances that a best-first search of the same width over the links read back computes; and pairs of builds of different sizes, comparing distances per search and per built element. Non-trivial: more than one element; distinct: different configuration or counts.");
    let w = ctx.workers;
    fn a(c: &mut Case) -> Res {
        match c.rng.below(4) {
            0 => random::<F32>(c),
            1 => random::<I8>(c),
            2 => random::<Sum>(c),
            _ => random::<Grid>(c),
        }
    }
    fn b(c: &mut Case) -> Res {
        match c.rng.below(4) {
            0 => concurrent::<F32>(c),
            1 => concurrent::<I8>(c),
            2 => concurrent::<Sum>(c),
            _ => concurrent::<Grid>(c),
        }
    }
    fn g(c: &mut Case) -> Res {
        match c.rng.below(3) {
            0 => growth::<F32>(c),
            1 => growth::<I8>(c),
            _ => growth::<Grid>(c),
        }
    }
    ctx.cases("random", ctx.n(1500, 40000), w, a);
    ctx.cases("concurrent", ctx.n(500, 10000), w, b);
    ctx.cases("growth", ctx.n(32, 600), w, g);
}
