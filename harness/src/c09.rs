//! C09: reordering only renames elements.
use crate::codec;
use crate::elems::leak_shifted;
use crate::gen::*;
use crate::graph::*;
use crate::kinds::*;
use crate::util::*;
use crate::{any_kind, ensure};
use granne::{Builder, ElementContainer, Granne, GranneBuilder, Index};

/// How the order is chosen.
#[derive(Clone, Copy, Debug, PartialEq)]
enum How {
    Auto,
    Equal,
    Small,
    Text,
    Descending,
    Tuple,
}

const HOWS: &[How] = &[How::Auto, How::Auto, How::Auto, How::Equal, How::Small, How::Text, How::Descending, How::Tuple];

struct Keys {
    small: Vec<u8>,
    text: Vec<String>,
    tuple: Vec<(i64, u8)>,
}
impl Keys {
    fn new(rng: &mut Rng, n: usize) -> Keys {
        let m = rng.range(1, n + 1);
        Keys {
            small: (0..n).map(|_| rng.below(7) as u8).collect(),
            text: (0..n).map(|_| format!("k{}", rng.below(m))).collect(),
            tuple: (0..n).map(|_| (rng.below(5) as i64 - 2, rng.below(250) as u8)).collect(),
        }
    }
}

/// reorders and returns the permutation and, per new position, the rank of its key
fn apply<C>(ix: &mut Granne<'_, C>, how: How, k: &Keys, progress: bool) -> Result<Vec<usize>, String>
where
    C: ElementContainer + granne::Permutable + Sync,
{
    let n = ix.len();
    let lens: Vec<usize> = (0..ix.num_layers()).map(|l| ix.layer_len(l)).collect();
    fn sorted<T: Ord + std::fmt::Debug>(lens: &[usize], p: &[usize], k: &[T]) -> Res {
        let mut from = 0;
        for &to in lens {
            for i in from + 1..to {
                ensure!(k[p[i - 1]] <= k[p[i]], "elements appearing in [{}, {}) are not sorted by key: {:?} before {:?} at {}", from, to, k[p[i - 1]], k[p[i]], i);
            }
            from = to.max(from);
        }
        Ok(())
    }
    let what = format!("reordering by {:?}", how);
    macro_rules! by {
        ($k:expr) => {{
            let k = $k;
            let p = no_panic(&what, || ix.reorder_by_keys(&k, progress))?;
            ensure!(p.len() == n, "{}: the permutation has {} entries for {} nodes", what, p.len(), n);
            ensure!(p.iter().all(|&i| i < n), "{}: not a permutation: {:?}", what, p);
            sorted(&lens, &p, &k)?;
            p
        }};
    }
    Ok(match how {
        How::Auto => no_panic(&what, || ix.reorder(progress))?,
        How::Equal => by!(vec![7u8; n]),
        How::Small => by!(k.small.clone()),
        How::Text => by!(k.text.clone()),
        How::Descending => by!((0..n).rev().collect::<Vec<usize>>()),
        How::Tuple => by!(k.tuple.clone()),
    })
}

/// `new` must be `old` renamed by `p`
fn renamed(old: &View, new: &View, p: &[usize]) -> Res {
    let n = old.layers.last().map_or(0, |l| l.len());
    ensure!(p.len() == n, "the permutation has {} entries for {} nodes", p.len(), n);
    let mut inv = vec![usize::MAX; n];
    for (i, &j) in p.iter().enumerate() {
        ensure!(j < n && inv[j] == usize::MAX, "not a permutation: position {} has {}", i, j);
        inv[j] = i;
    }
    ensure!(new.layers.len() == old.layers.len(), "{} layers became {}", old.layers.len(), new.layers.len());
    for (l, (a, b)) in old.layers.iter().zip(&new.layers).enumerate() {
        ensure!(a.len() == b.len(), "layer {} had {} nodes and has {}", l, a.len(), b.len());
        for i in 0..b.len() {
            ensure!(p[i] < a.len(), "layer {}: position {} now holds element {}, which is not in that layer", l, i, p[i]);
            let mut want: Vec<usize> = a[p[i]].iter().map(|&j| inv[j]).collect();
            want.sort_unstable();
            ensure!(b[i] == want, "layer {}: element {} (formerly {}) has neighbors {:?}, renamed they would be {:?}", l, i, p[i], b[i], want);
        }
    }
    Ok(())
}

fn elements_renamed<K: Kind>(old: &K::C, new: &K::C, p: &[usize]) -> Res {
    ensure!(old.len() == new.len(), "{} elements became {}", old.len(), new.len());
    for (i, &j) in p.iter().enumerate() {
        ensure!(K::read(new, i) == K::read(old, j), "element {} is not the former element {}", i, j);
    }
    Ok(())
}

fn searches<K: Kind>(c: &Case, rng: &mut Rng, spec: &Spec, old: &Granne<'_, K::C>, new: &Granne<'_, K::C>, p: &[usize], how: How, v: &View) -> Res {
    let n = old.len();
    if n == 0 {
        return Ok(());
    }
    let connected = v.layers.last().map_or(false, |l| l.len() <= 400 && strongly_connected(l));
    for _ in 0..4 {
        let q = K::query(rng, spec, old.get_elements());
        let all = brute(old.get_elements(), n, &q);
        let distinct = all.windows(2).all(|w| w[0].1 < w[1].1);
        let (ms, k) = (*rng.pick(&[1, 5, 20, 200]), *rng.pick(&[1, 5, 1000]));
        let res = no_panic("search", || new.search(&q, ms, k))?;
        valid_result(new.get_elements(), n, &q, ms, k, &res)?;
        if how == How::Auto && distinct {
            let a = old.search(&q, ms, k);
            let b: Vec<(usize, u32)> = res.iter().map(|x| (p[x.0], x.1.to_bits())).collect();
            ensure!(bits(&a) == b, "a search answers {:?}, before reordering {:?}", b, bits(&a));
            c.ctx.count("identical_searches", 1);
        }
        if connected {
            let res = no_panic("search", || new.search(&q, n, n))?;
            ensure!(res.iter().map(|x| x.1.to_bits()).eq(all.iter().map(|x| x.1.to_bits())), "an exhaustive search finds other distances than before reordering ({} of {})", res.len(), n);
            c.ctx.count("exhaustive_searches", 1);
        }
    }
    Ok(())
}

fn check<K: Kind>(c: &mut Case, by: &[u8], els: K::C, spec: &Spec, rng: &mut Rng) -> Res {
    let old = Granne::from_bytes(by, els.clone());
    let n = old.len();
    let mut view0 = set_view(&old);
    let rounds = rng.range(1, 3);
    // the same index from different sources
    let file = temp_file(c.ctx, by);
    let shifted = leak_shifted(by, rng.below(8));
    let mut ix: Granne<'_, K::C> = match rng.below(3) {
        0 => Granne::from_bytes(shifted, els.clone()),
        1 => unsafe { Granne::from_file(&file, els.clone()) }.map_err(|e| e.to_string())?,
        _ => Granne::from_bytes(by, &els).to_owned(),
    };
    let mut before = old;
    let mut moved = false;
    for round in 0..rounds {
        let how = *rng.pick(HOWS);
        let keys = Keys::new(rng, n);
        let by0 = index_bytes(&before)?;
        let p = apply(&mut ix, how, &keys, false)?;
        let w = |e: String| format!("{} [round {} {:?}]", e, round, how);
        let now = set_view(&ix);
        renamed(&view0, &now, &p).map_err(w)?;
        elements_renamed::<K>(before.get_elements(), ix.get_elements(), &p).map_err(w)?;
        searches::<K>(c, rng, spec, &before, &ix, &p, how, &view0).map_err(w)?;
        moved |= p.iter().enumerate().any(|(i, &j)| i != j);
        // the same again, with other threads and with progress shown
        let (t, progress) = (*rng.pick(&[1, 2, 5]), rng.chance(0.3));
        let mut twin = Granne::from_bytes(leak_shifted(&by0, 0), before.get_elements().clone());
        let p2 = in_pool(t, || apply(&mut twin, how, &keys, progress))?;
        ensure!(p == p2, "{:?} with {} threads gives another permutation", how, t);
        let by1 = index_bytes(&ix)?;
        ensure!(index_bytes(&twin)? == by1, "{:?} with {} threads gives another index", how, t);
        // saved and loaded
        let loaded = no_panic("loading", || Granne::from_bytes(leak_shifted(&by1, 0), ix.get_elements().clone()))?;
        renamed(&view0, &set_view(&loaded), &p).map_err(|e| format!("{} [saved and loaded]", e))?;
        ensure!(index_bytes(&loaded)? == by1, "saving the loaded reordered index gives other bytes");
        c.ctx.count("reorderings", 1);
        c.ctx.count("neighbor_lists_compared", now.layers.iter().map(|l| l.len() as u64).sum());
        view0 = now;
        before = loaded;
        if rng.chance(0.5) {
            ix = Granne::from_bytes(leak_shifted(&by1, 0), before.get_elements().clone());
        }
    }
    if moved {
        c.nontrivial(hash_bytes(by) ^ hash_bytes(c.desc.as_bytes()));
    }
    Ok(())
}

fn built_case<K: Kind>(c: &mut Case) -> Res {
    let mut rng = c.rng.fork();
    let o = Opt { max: 250, ..Default::default() };
    let t = built::<K>(&mut rng, &o)?;
    c.note(t.desc.clone());
    let by = index_bytes(&t.b)?;
    let els = t.b.get_elements().clone();
    // straight from the builder too
    let v = set_view(&t.b);
    let mut own = t.b.get_index().to_owned();
    let p = no_panic("reorder", || own.reorder(false))?;
    renamed(&v, &set_view(&own), &p)?;
    elements_renamed::<K>(&els, own.get_elements(), &p)?;
    check::<K>(c, &by, els, &t.spec, &mut rng)
}

/// no nodes, one layer, layers of equal size, many layers, arbitrary graphs; large ones cross the
/// chunks work is split into
fn synthetic<K: Kind>(c: &mut Case, big: bool) -> Res {
    let mut rng = c.rng.fork();
    let (lens, deg) = if big {
        // ids of more than two bytes too
        let n = if c.idx % 6 == 5 { rng.range(65_537, 150_000) } else { *rng.pick(&[10_001, 19_999, 20_001, 25_000]) };
        (vec![rng.range(1, 30), rng.range(100, 10_500), n], 4)
    } else {
        let l = rng.below(12);
        let mut v = vec![rng.range(1, 4)];
        for i in 1..l {
            let a = v[i - 1] + rng.below(v[i - 1].min(10) + 1);
            v.push(a);
        }
        if l == 0 {
            v.clear();
        }
        (v, rng.range(0, 12))
    };
    let n = lens.last().cloned().unwrap_or(0);
    let layers: Vec<Vec<Vec<u32>>> = lens
        .iter()
        .map(|&m| {
            (0..m)
                .map(|i| {
                    let mut s: Vec<u32> = (0..rng.below(deg + 1)).map(|_| rng.below(m) as u32).filter(|&j| j as usize != i).collect();
                    s.sort_unstable();
                    s.dedup();
                    s
                })
                .collect()
        })
        .collect();
    c.note(format!("synthetic {} layers {:?} degree {}", K::NAME, lens, deg));
    let by = codec::encode_index(&layers, "0.5.2");
    let spec = Spec::new(&mut rng, 2, Flavor::Uniform);
    let els = fill::<K>(&mut rng, &spec, n);
    check::<K>(c, &by, els, &spec, &mut rng)
}

/// lists around the longest the compressed form can hold: renamed in full, or refused
fn wide<K: Kind>(c: &mut Case) -> Res {
    let mut rng = c.rng.fork();
    let n = rng.range(200, 350);
    let cfg = Cfg { nn: *rng.pick(&[200, 254, 255, 256, 300]), ms: 300, mult: *rng.pick(&[5.0, 300.0]), reinsert: false, expected: None, progress: false };
    let spec = Spec::new(&mut rng, 4, Flavor::Uniform);
    c.note(format!("wide {} n={} {:?}", K::NAME, n, cfg));
    let mut b = GranneBuilder::new(cfg.build(), fill::<K>(&mut rng, &spec, n));
    in_pool(2, || no_panic("build", || b.build()))?;
    let v = set_view(&b);
    let longest = v.layers.iter().flatten().map(|x| x.len()).max().unwrap_or(0);
    let els = b.get_elements().clone();
    let mut own = b.get_index().to_owned();
    let keys: Vec<usize> = (0..n).map(|_| rng.below(n)).collect();
    let auto = rng.chance(0.5);
    let r = catch(|| if auto { own.reorder(false) } else { own.reorder_by_keys(&keys, false) });
    c.nontrivial(hash_bytes(c.desc.as_bytes()));
    match r {
        Ok(p) => {
            renamed(&v, &set_view(&own), &p)?;
            elements_renamed::<K>(&els, own.get_elements(), &p)
        }
        Err(Panicked::Lib(_)) if longest > 255 => {
            c.ctx.count("refused_as_too_wide", 1);
            Ok(())
        }
        Err(Panicked::Lib(m)) => Err(format!("reordering: {}", m)),
        Err(Panicked::Harness(m)) => std::panic::panic_any(m),
    }
}

/// the keys made for embeddings
fn embedding_keys(c: &mut Case) -> Res {
    let mut rng = c.rng.fork();
    let t = built::<Sum>(&mut rng, &Opt { max: 200, ..Default::default() })?;
    c.note(format!("embedding keys {}", t.desc));
    let els = t.b.get_elements().clone();
    let v = set_view(&t.b);
    let keys = no_panic("compute_keys_for_reordering", || granne::embeddings::compute_keys_for_reordering(&els))?;
    ensure!(keys.len() == els.len(), "{} keys for {} elements", keys.len(), els.len());
    let mut ix = t.b.get_index().to_owned();
    let p = no_panic("reorder_by_keys", || ix.reorder_by_keys(&keys, false))?;
    renamed(&v, &set_view(&ix), &p)?;
    elements_renamed::<Sum>(&els, ix.get_elements(), &p)?;
    let mut from = 0;
    for l in 0..ix.num_layers() {
        for i in from + 1..ix.layer_len(l) {
            ensure!(keys[p[i - 1]] <= keys[p[i]], "elements are not sorted by key at {}", i);
        }
        from = ix.layer_len(l);
    }
    let k2 = in_pool(1, || granne::embeddings::compute_keys_for_reordering(&els));
    ensure!(keys.iter().zip(&k2).all(|(a, b)| a == b), "keys depend on the number of threads");
    c.nontrivial(hash_bytes(c.desc.as_bytes()));
    Ok(())
}

pub fn run(ctx: &Ctx) {
    ctx.rule("Built indexes of all kinds and synthetic ones from an independent encoder (0-12 layers of equal or growing size, arbitrary graphs, up to 150,000 nodes), loaded from bytes, from mapped files, owned or taken from the builder, are reordered one to three times, automatically and by keys (equal, few, text, descending, tuples), saved and loaded in between. The old graph renamed by the returned permutation must be the new one, element by element and list by list; searches are compared. Non-trivial: some element moved; distinct: different index.");
    let w = ctx.workers;
    let _: Option<GranneBuilder<<F32 as Kind>::C>> = None;
    ctx.cases("built", ctx.n(500, 10000), w, |c| any_kind!(c.rng, built_case, c));
    ctx.cases("synthetic", ctx.n(600, 12000), w, |c| any_kind!(c.rng, synthetic, c, false));
    ctx.cases("big", ctx.n(12, 150), w, |c| any_kind!(c.rng, synthetic, c, true));
    ctx.cases("wide", ctx.n(16, 200), w, |c| any_kind!(c.rng, wide, c));
    ctx.cases("embedding_keys", ctx.n(100, 2000), w, embedding_keys);
}
