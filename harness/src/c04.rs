//! C04: an index survives saving and loading unchanged.
use crate::elems::leak_shifted;
use crate::gen::*;
use crate::graph::*;
use crate::kinds::*;
use crate::util::*;
use crate::{any_kind, ensure};
use granne::{Builder, ElementContainer, Granne, GranneBuilder, Index};
use std::io::{Cursor, Seek, SeekFrom, Write};

type Answers = Vec<(usize, Vec<(usize, u32)>)>;

fn answers<C: ElementContainer>(ix: &Granne<C>, qs: &[(C::Element, usize)]) -> Answers {
    qs.iter().map(|(q, ms)| (*ms, bits(&ix.search(q, *ms, usize::max_value())))).collect()
}

fn same(what: &str, ix: &dyn IndexDyn, want: &View) -> Res {
    let got = set_view(ix);
    if &got == want {
        return Ok(());
    }
    ensure!(got.layers.len() == want.layers.len(), "{}: {} layers instead of {}", what, got.layers.len(), want.layers.len());
    for (l, (a, b)) in got.layers.iter().zip(&want.layers).enumerate() {
        ensure!(a.len() == b.len(), "{}: layer {} has {} nodes instead of {}", what, l, a.len(), b.len());
        for (i, (x, y)) in a.iter().zip(b).enumerate() {
            ensure!(x == y, "{}: node {} of layer {} has neighbors {:?} instead of {:?}", what, i, l, x, y);
        }
    }
    Err(format!("{}: views differ", what))
}

fn check<K: Kind>(c: &Case, b: &GranneBuilder<K::C>, cfg: &Cfg, spec: &Spec, rng: &mut Rng) -> Res
where
    K::C: Clone,
{
    let want = set_view(b);
    let els = b.get_elements();
    let n = b.len();
    ensure!(n == want.layers.last().map_or(0, |l| l.len()), "length");
    let qs: Vec<(K::E, usize)> = (0..6)
        .map(|_| (K::query(rng, spec, els), *rng.pick(&[1, 2, 7, 30, 200, n + 1])))
        .collect();
    let a = answers(&b.get_index(), &qs.iter().map(|(q, m)| (q.clone(), *m)).collect::<Vec<_>>());
    let by = index_bytes(b)?;
    c.ctx.count("index_bytes", by.len() as u64);
    same("borrowed view", &b.get_index(), &want)?;
    ensure!(index_bytes(&b.get_index())? == by, "borrowed view writes other bytes");
    let own = b.get_index().to_owned();
    same("owned view", &own, &want)?;
    ensure!(index_bytes(&own)? == by, "owned view writes other bytes");
    ensure!(answers(&own, &qs) == a, "owned view answers differently");

    // from bytes at some address
    let off = rng.below(16);
    let s = Shifted::new(&by, off);
    let ix = no_panic("from_bytes", || Granne::from_bytes(s.get(), els.clone()))?;
    same(&format!("loaded from bytes at {} mod 16", off), &ix, &want)?;
    let got = answers(&ix, &qs);
    ensure!(got == a, "loaded from bytes answers {:?} instead of {:?}", got, a);
    let again = index_bytes(&ix)?;
    ensure!(again == by, "writing what was loaded from bytes gives other bytes");

    // from bytes with borrowed elements, then owned
    let ix = no_panic("from_bytes", || Granne::from_bytes(s.get(), els))?.to_owned();
    same("loaded and owned", &ix, &want)?;
    ensure!(answers(&ix, &qs) == a, "loaded and owned answers differently");
    ensure!(index_bytes(&ix)? == by, "writing what was loaded and owned gives other bytes");

    // from a mapped file
    let f = temp_file(c.ctx, &by);
    let ix = no_panic("from_file", || unsafe { Granne::from_file(&f, els.clone()) })?.map_err(|e| format!("from_file: {}", e))?;
    same("loaded from file", &ix, &want)?;
    ensure!(answers(&ix, &qs) == a, "loaded from file answers differently");
    ensure!(index_bytes(&ix)? == by, "writing what was loaded from file gives other bytes");
    let ix = no_panic("from_file", || unsafe { Granne::from_file(&f, els) })?.map_err(|e| format!("from_file: {}", e))?.to_owned();
    same("loaded from file and owned", &ix, &want)?;

    // into a builder, with at least as many neighbors
    let cfg2 = Cfg { nn: cfg.nn + rng.below(3), ..cfg.clone() };
    let b2 = no_panic("GranneBuilder::from_bytes", || GranneBuilder::from_bytes(cfg2.build(), s.get(), els.clone()))?;
    same("builder from bytes", &b2, &want)?;
    ensure!(answers(&b2.get_index(), &qs.iter().map(|(q, m)| (q.clone(), *m)).collect::<Vec<_>>()) == a, "builder from bytes answers differently");
    ensure!(index_bytes(&b2)? == by, "builder from bytes writes other bytes");
    let b3 = no_panic("GranneBuilder::from_file", || GranneBuilder::from_file(cfg2.build(), &f, els.clone()))?.map_err(|e| format!("from_file: {}", e))?;
    same("builder from file", &b3, &want)?;
    ensure!(index_bytes(&b3)? == by, "builder from file writes other bytes");

    // somewhere in a larger stream
    let at = rng.below(3000);
    let before: Vec<u8> = (0..at).map(|i| i as u8 ^ 0x5A).collect();
    let tail = rng.below(100);
    let mut old = before.clone();
    old.extend(std::iter::repeat(0xEE).take(by.len() + tail));
    let into_file = rng.chance(0.3);
    let got = if into_file {
        let mut f = temp_file(c.ctx, &old);
        f.seek(SeekFrom::Start(at as u64)).map_err(|e| e.to_string())?;
        no_panic("write_index", || ix.write_index(&mut f))?.map_err(|e| e.to_string())?;
        f.flush().map_err(|e| e.to_string())?;
        read_all(&mut f)
    } else {
        let mut cur = Cursor::new(old);
        cur.set_position(at as u64);
        no_panic("write_index", || if tail % 2 == 0 { b.write_index(&mut cur) } else { ix.write_index(&mut cur) })?.map_err(|e| e.to_string())?;
        cur.into_inner()
    };
    ensure!(got.len() == at + by.len() + tail, "stream of {} bytes became {}", at + by.len() + tail, got.len());
    ensure!(got[..at] == before[..], "writing at position {} changed what was before it", at);
    ensure!(got[at..at + by.len()] == by[..], "writing at position {} gives other bytes", at);
    ensure!(got[at + by.len()..].iter().all(|x| *x == 0xEE), "writing at position {} changed what was after it", at);
    let ix = Granne::from_bytes(&got[at..at + by.len()], els.clone());
    same("read back from the stream", &ix, &want)?;
    if n > 1 {
        c.nontrivial(hash_bytes(&by));
    }
    Ok(())
}

fn random<K: Kind>(c: &mut Case) -> Res {
    let mut rng = c.rng.fork();
    let t = built::<K>(&mut rng, &Opt { partial: true, ..Default::default() })?;
    c.note(t.desc.clone());
    check::<K>(c, &t.b, &t.cfg, &t.spec, &mut rng)
}

/// neighbor lists up to the format's limit
fn wide<K: Kind>(c: &mut Case) -> Res {
    let mut rng = c.rng.fork();
    let n = if c.idx % 2 == 0 { rng.range(262, 350) } else { rng.range(60, 262) };
    let nn = [64, 100, 200, 254, 255, 256, 300, 255][c.idx as usize / 2 % 8];
    let cfg = Cfg { nn, ms: 300, mult: *rng.pick(&[5.0, 300.0]), reinsert: rng.chance(0.5), expected: None, progress: false };
    let spec = Spec::new(&mut rng, 4, Flavor::Uniform);
    c.note(format!("wide {} n={} {:?}", K::NAME, n, cfg));
    let mut b = GranneBuilder::new(cfg.build(), fill::<K>(&mut rng, &spec, n));
    in_pool(2, || no_panic("build", || b.build()))?;
    let v = view(&b);
    let longest = v.layers.iter().flatten().map(|x| x.len()).max().unwrap_or(0);
    c.ctx.max("longest_list", longest as f64);
    if longest > 255 {
        // the format has one byte for the length: such an index must be refused, not cut
        c.nontrivial(hash_bytes(c.desc.as_bytes()));
        let mut to = std::io::Cursor::new(Vec::new());
        let r = catch(|| b.write_index(&mut to));
        c.ctx.count("refused_as_too_wide", 1);
        if let Ok(Ok(())) = r {
            let got = set_view(&no_panic("from_bytes", || Granne::from_bytes(to.get_ref(), b.get_elements()))?);
            ensure!(got == set_view(&b), "lists of up to {} neighbors were saved without an error, but are different when loaded", longest);
        }
        return Ok(());
    }
    check::<K>(c, &b, &cfg, &spec, &mut rng)
}

/// more nodes than fit in two bytes
fn large(c: &mut Case) -> Res {
    let mut rng = c.rng.fork();
    let n = rng.range(66_000, 80_000);
    let cfg = Cfg { nn: 4, ms: 2, mult: 15.0, reinsert: false, expected: None, progress: false };
    let spec = Spec::new(&mut rng, 2, Flavor::Uniform);
    c.note(format!("large n={} {:?}", n, cfg));
    let mut b = GranneBuilder::new(cfg.build(), fill::<Grid>(&mut rng, &spec, n));
    in_pool(4, || no_panic("build", || b.build()))?;
    check::<Grid>(c, &b, &cfg, &spec, &mut rng)
}

/// a mapped slice keeps working after the source file is gone, and elements may be mapped as well
fn mapped(c: &mut Case) -> Res {
    let mut rng = c.rng.fork();
    let t = built::<F32>(&mut rng, &Opt { max: 150, ..Default::default() })?;
    c.note(format!("mapped {}", t.desc));
    let want = set_view(&t.b);
    let by = index_bytes(&t.b)?;
    let eb = crate::elems::written(t.b.get_elements(), "write")?;
    let d = Dir::new(c.ctx);
    std::fs::write(d.p("i"), &by).map_err(|e| e.to_string())?;
    std::fs::write(d.p("e"), &eb).map_err(|e| e.to_string())?;
    let els = unsafe { granne::angular::Vectors::from_file(&std::fs::File::open(d.p("e")).unwrap()) }.map_err(|e| e.to_string())?;
    let ix = unsafe { Granne::from_file(&std::fs::File::open(d.p("i")).unwrap(), els) }.map_err(|e| e.to_string())?;
    std::fs::remove_file(d.p("i")).unwrap();
    std::fs::remove_file(d.p("e")).unwrap();
    same("mapped", &ix, &want)?;
    for _ in 0..5 {
        let q = F32::query(&mut rng, &t.spec, t.b.get_elements());
        let (x, y) = (ix.search(&q, 20, 10), t.b.get_index().search(&q, 20, 10));
        ensure!(bits(&x) == bits(&y), "mapped index and elements answer differently: {:?} / {:?}", x, y);
    }
    let mut e2 = Vec::new();
    ix.write_elements(&mut e2).map_err(|e| e.to_string())?;
    ensure!(e2 == eb, "elements written by the index differ");
    let mut e3 = Vec::new();
    t.b.write_elements(&mut e3).map_err(|e| e.to_string())?;
    ensure!(e3 == eb, "elements written by the builder differ");
    ensure!(index_bytes(&ix)? == by, "mapped index writes other bytes");
    let _ = leak_shifted;
    c.nontrivial(hash_bytes(&by));
    Ok(())
}

pub fn run(ctx: &Ctx) {
    ctx.rule("Indexes of all element kinds from random build histories (also with lists up to 255 links, longer ones must be refused, and more than 65536 nodes), and indexes by an independent writer with arbitrary neighbor sets (0-255 ids up to 2^32-2, differences at all byte boundaries), each read as builder, borrowed, owned, from bytes at a random address, from a mapped file, and as a builder from bytes and file: layers and neighbor sets, answers to random searches bit for bit, bytes when written again, and writing in the middle of a stream. Non-trivial: more than one node; distinct: different index bytes.");
    let w = ctx.workers;
    ctx.cases("random", ctx.n(900, 20000), w, |c| any_kind!(c.rng, random, c));
    ctx.cases("wide", ctx.n(24, 400), w, |c| any_kind!(c.rng, wide, c));
    ctx.cases("large", ctx.n(1, 6), 2, large);
    // the independent writer's indexes, with all differences of ids and lengths of lists
    ctx.cases("crafted", ctx.n(800, 16000), w, crate::c06::written_elsewhere);
    ctx.cases("crafted_large", ctx.n(1, 10), 1, crate::c06::large_elsewhere);
    ctx.cases("mapped", ctx.n(100, 2000), w, mapped);
}
