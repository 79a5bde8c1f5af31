//! C07: failing, short, interrupted and cut-off saves.
use crate::elems::written;
use crate::gen::*;
use crate::graph::*;
use crate::kinds::*;
use crate::util::*;
use crate::{any_kind, ensure};
use granne::embeddings::{parsing, SumEmbeddings};
use granne::{angular, Builder, Granne, GranneBuilder, Index, RwGranneBuilder, Writeable};
use std::io::{Error, ErrorKind, Result as IoResult, Seek, SeekFrom, Write};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fault {
    None,
    /// the k-th operation fails once
    Once(usize, ErrorKind),
    /// everything from the k-th operation on fails
    From(usize, ErrorKind),
    /// the k-th operation, if a write, takes nothing
    Zero(usize),
    /// nothing fits behind this many bytes
    Full(usize),
    /// writes take few bytes at a time, and are interrupted now and then
    Slow(u64),
}

/// A destination in memory that fails as told and logs what reached it.
pub struct Disk {
    pub data: Vec<u8>,
    pos: u64,
    pub ops: usize,
    pub fault: Fault,
    /// a failure (not an interruption) was reported to the writer
    pub hit: bool,
    pub log: Vec<(u64, Vec<u8>)>,
    pub fails: usize,
}

impl Disk {
    pub fn new(fault: Fault) -> Disk {
        Disk { data: vec![], pos: 0, ops: 0, fault, hit: false, log: vec![], fails: 0 }
    }
    fn put(&mut self, b: &[u8]) {
        let end = self.pos as usize + b.len();
        if self.data.len() < end {
            self.data.resize(end, 0);
        }
        self.data[self.pos as usize..end].copy_from_slice(b);
        self.log.push((self.pos, b.to_vec()));
        self.pos = end as u64;
    }
    fn fails(&mut self) -> IoResult<()> {
        let k = self.ops;
        self.ops += 1;
        let e = match self.fault {
            Fault::Once(at, e) if at == k => Some(e),
            Fault::From(at, e) if at <= k => Some(e),
            _ => None,
        };
        if let Some(e) = e {
            self.hit = true;
            self.fails += 1;
            return Err(Error::new(e, "injected failure"));
        }
        Ok(())
    }
}

impl Write for Disk {
    fn write(&mut self, b: &[u8]) -> IoResult<usize> {
        let k = self.ops;
        self.fails()?;
        match self.fault {
            Fault::Zero(at) if at == k && !b.is_empty() => {
                self.hit = true;
                Ok(0)
            }
            Fault::Full(n) => {
                let room = n.saturating_sub(self.pos as usize).min(b.len());
                if room == 0 && !b.is_empty() {
                    self.hit = true;
                    self.fails += 1;
                    return Err(Error::from_raw_os_error(28));
                }
                self.put(&b[..room]);
                Ok(room)
            }
            Fault::Slow(seed) => {
                let h = mix(seed ^ k as u64);
                if h % 5 == 0 {
                    return Err(Error::new(ErrorKind::Interrupted, "interrupted"));
                }
                let n = (1 + (h >> 8) as usize % 700).min(b.len());
                self.put(&b[..n]);
                Ok(n)
            }
            _ => {
                self.put(b);
                Ok(b.len())
            }
        }
    }
    fn flush(&mut self) -> IoResult<()> {
        self.fails()
    }
}
impl Seek for Disk {
    fn seek(&mut self, p: SeekFrom) -> IoResult<u64> {
        self.fails()?;
        self.pos = match p {
            SeekFrom::Start(x) => x,
            SeekFrom::Current(d) => (self.pos as i64 + d) as u64,
            SeekFrom::End(d) => (self.data.len() as i64 + d) as u64,
        };
        Ok(self.pos)
    }
}

const KINDS: &[ErrorKind] = &[ErrorKind::Other, ErrorKind::PermissionDenied, ErrorKind::WouldBlock, ErrorKind::BrokenPipe, ErrorKind::UnexpectedEof];

/// Runs `save` against every failure of a bounded family and checks what it reports.
fn all_faults(c: &Case, what: &str, rng: &mut Rng, want: &[u8], cap: usize, save: &dyn Fn(&mut Disk) -> IoResult<()>) -> Res {
    let mut clean = Disk::new(Fault::None);
    no_panic(what, || save(&mut clean))?.map_err(|e| format!("{} fails on a healthy destination: {}", what, e))?;
    ensure!(clean.data == want, "{}: {} bytes reached a healthy destination, expected {}", what, clean.data.len(), want.len());
    let ops = clean.ops;
    c.ctx.max("operations_per_save", ops as f64);
    let mut faults = Vec::new();
    for k in 0..ops {
        let e = *rng.pick(KINDS);
        faults.push(Fault::Once(k, e));
        faults.push(Fault::From(k, e));
        faults.push(Fault::Zero(k));
    }
    for _ in 0..6 {
        faults.push(Fault::Full(rng.below(want.len().max(1))));
    }
    faults.push(Fault::Full(want.len().saturating_sub(1)));
    faults.push(Fault::Full(0));
    for _ in 0..3 {
        faults.push(Fault::Slow(rng.seed()));
    }
    while faults.len() > cap {
        let i = rng.below(faults.len());
        faults.swap_remove(i);
    }
    for f in faults {
        let mut d = Disk::new(f);
        let r = no_panic(&format!("{} with {:?}", what, f), || save(&mut d))?;
        c.ctx.count("faulty_saves", 1);
        match (&r, d.hit) {
            (Ok(()), true) => return Err(format!("{} reports success although {:?} happened ({} of {} bytes reached the destination)", what, f, d.data.len(), want.len())),
            (Err(e), false) => return Err(format!("{} fails with {:?} although no operation failed ({:?})", what, e, f)),
            (Err(_), true) => c.ctx.count("failures_reported", 1),
            (Ok(()), false) => ensure!(d.data == want, "{} reports success with {:?} but {} of {} bytes are right", what, f, d.data.iter().zip(want).filter(|(a, b)| a == b).count(), want.len()),
        }
    }
    Ok(())
}

/// every prefix of the writes (torn ones included) on a new file is refused or is the intended index
fn crashes<K: Kind>(c: &Case, rng: &mut Rng, log: &[(u64, Vec<u8>)], els: &K::C, want: &View) -> Res {
    let mut file: Vec<u8> = Vec::new();
    let mut points = 0u64;
    let mut complete = 0u64;
    let mut last_ok = false;
    for (k, (pos, b)) in log.iter().enumerate() {
        let mut cuts: Vec<usize> = vec![0, b.len()];
        if *pos == 0 {
            // the header: every byte matters
            cuts.extend((0..b.len()).step_by(1));
        } else {
            for _ in 0..4 {
                cuts.push(rng.below(b.len() + 1));
            }
        }
        cuts.sort_unstable();
        cuts.dedup();
        for cut in cuts {
            let mut f = file.clone();
            let end = *pos as usize + cut;
            if f.len() < end {
                f.resize(end, 0);
            }
            f[*pos as usize..end].copy_from_slice(&b[..cut]);
            points += 1;
            let loaded = match catch(|| Granne::from_bytes(&f, els.clone())) {
                Err(_) => None,
                Ok(ix) => match catch(|| set_view(&ix)) {
                    Ok(v) => Some(v),
                    Err(Panicked::Lib(m)) => return Err(format!("cut off after {} writes and {} bytes, the file is loaded but cannot be read: {}", k, cut, m)),
                    Err(Panicked::Harness(m)) => panic!("{}", m),
                },
            };
            last_ok = loaded.is_some();
            if let Some(v) = loaded {
                complete += 1;
                ensure!(&v == want, "cut off after {} writes and {} bytes, the file loads as another index: layers {:?} instead of {:?}", k, cut,
                    v.layers.iter().map(|l| l.len()).collect::<Vec<_>>(), want.layers.iter().map(|l| l.len()).collect::<Vec<_>>());
            }
        }
        let end = *pos as usize + b.len();
        if file.len() < end {
            file.resize(end, 0);
        }
        file[*pos as usize..end].copy_from_slice(b);
    }
    ensure!(last_ok, "the complete file is refused");
    c.ctx.count("crash_points", points);
    c.ctx.count("crash_points_complete", complete);
    Ok(())
}

fn index<K: Kind>(c: &mut Case, big: bool) -> Res {
    let mut rng = c.rng.fork();
    let o = Opt { max: if big { 900 } else { 150 }, partial: true, flavors: PLAIN, ..Default::default() };
    let t = built::<K>(&mut rng, &o)?;
    c.note(t.desc.clone());
    let by = index_bytes(&t.b)?;
    let want = set_view(&t.b);
    let cap = if big { 60 } else { 400 };
    all_faults(c, "GranneBuilder::write_index", &mut rng, &by, cap, &|d| t.b.write_index(d))?;
    let ix = Granne::from_bytes(&by, t.b.get_elements().clone());
    all_faults(c, "Granne::write_index", &mut rng, &by, cap, &|d| ix.write_index(d))?;
    let eb = written(t.b.get_elements(), "write")?;
    all_faults(c, "write_elements", &mut rng, &eb, cap, &|d| ix.write_elements(d).map(|_| ()))?;
    all_faults(c, "write_elements", &mut rng, &eb, cap, &|d| t.b.write_elements(d).map(|_| ()))?;
    let mut d = Disk::new(if rng.chance(0.5) { Fault::None } else { Fault::Slow(rng.seed()) });
    t.b.write_index(&mut d).map_err(|e| e.to_string())?;
    let mut d2 = Disk::new(Fault::None);
    ix.write_index(&mut d2).map_err(|e| e.to_string())?;
    for d in [d, d2] {
        ensure!(d.log.len() < 4000, "log");
        crashes::<K>(c, &mut rng, &d.log, t.b.get_elements(), &want)?;
    }
    if by.len() > 1200 {
        c.nontrivial(hash_bytes(&by));
    }
    Ok(())
}

fn collections(c: &mut Case) -> Res {
    let mut rng = c.rng.fork();
    let n = *rng.pick(&[0, 1, 5, 50, 4000]);
    c.note(format!("collections n={}", n));
    let spec = Spec::new(&mut rng, 4, Flavor::Uniform);
    let f = fill::<F32>(&mut rng, &spec, n);
    let by = written(&f, "write")?;
    all_faults(c, "angular::Vectors::write", &mut rng, &by, 100, &|d| f.write(d).map(|_| ()))?;
    let f = fill::<I8>(&mut rng, &spec, n);
    let by = written(&f, "write")?;
    all_faults(c, "angular_int::Vectors::write", &mut rng, &by, 100, &|d| f.write(d).map(|_| ()))?;
    let f = fill::<Sum>(&mut rng, &spec, n);
    let by = written(&f, "write")?;
    all_faults(c, "SumEmbeddings::write", &mut rng, &by, 100, &|d| f.write(d).map(|_| ()))?;
    let mut by = Vec::new();
    f.write_embeddings(&mut by).map_err(|e| e.to_string())?;
    all_faults(c, "write_embeddings", &mut rng, &by, 100, &|d| f.write_embeddings(d).map(|_| ()))?;
    c.nontrivial(rng.seed());
    Ok(())
}

fn snapshots<K: Kind>(c: &mut Case) -> Res {
    let mut rng = c.rng.fork();
    let mut cfg = Cfg::random(&mut rng);
    cfg.ms = cfg.ms.min(30);
    let spec = Spec::new(&mut rng, 3, Flavor::Uniform);
    let max = rng.range(1, 500);
    let n = rng.below(max + 1);
    c.note(format!("snapshot {} {} of {} {:?}", K::NAME, n, max, cfg));
    let els = K::empty(&mut rng, &spec);
    let items: Vec<K::I> = (0..n).map(|_| K::item(&mut rng, &spec, &els)).collect();
    let rw = RwGranneBuilder::new(GranneBuilder::new(cfg.build(), els), max, 1);
    for it in items {
        rw.insert(it);
    }
    let (mut a, mut b) = (Disk::new(Fault::None), Disk::new(Fault::None));
    no_panic("write", || rw.write(&mut a, &mut b))?.map_err(|e| e.to_string())?;
    let (ib, eb) = (a.data.clone(), b.data.clone());
    all_faults(c, "RwGranneBuilder::write (index)", &mut rng, &ib, 200, &|d| {
        let mut e = Disk::new(Fault::None);
        let r = rw.write(d, &mut e);
        if r.is_ok() && e.data != eb {
            panic!("CONTRACT elements are incomplete although the snapshot succeeded");
        }
        r
    })?;
    all_faults(c, "RwGranneBuilder::write (elements)", &mut rng, &eb, 200, &|d| {
        let mut i = Disk::new(Fault::None);
        let r = rw.write(&mut i, d);
        if r.is_ok() && i.data != ib {
            panic!("CONTRACT the index is incomplete although the snapshot succeeded");
        }
        r
    })?;
    // still working afterwards
    let (mut a, mut b) = (Disk::new(Fault::None), Disk::new(Fault::None));
    no_panic("write", || rw.write(&mut a, &mut b))?.map_err(|e| e.to_string())?;
    ensure!(a.data == ib && b.data == eb, "a snapshot after failed ones differs");
    let ix = Granne::from_bytes(&ib, K::reload(&*rw.get_elements(), &eb));
    let want = set_view(&ix);
    let els = rw.get_elements().clone();
    crashes::<K>(c, &mut rng, &a.log, &els, &want)?;
    if n > 1 {
        c.nontrivial(hash_bytes(&ib));
    }
    Ok(())
}

/// large enough for each part (offset tables, elements) to reach the destination in writes of its own
fn huge<K: Kind>(c: &mut Case) -> Res {
    let mut rng = c.rng.fork();
    let n = rng.range(4200, 9000);
    let spec = Spec::new(&mut rng, 3, Flavor::Uniform);
    let cfg = Cfg { nn: 4, ms: 3, mult: *rng.pick(&[2.0, 15.0, 100.0]), reinsert: false, expected: None, progress: false };
    c.note(format!("huge {} n={} {:?}", K::NAME, n, cfg));
    let els = fill::<K>(&mut rng, &spec, n);
    let mut b = GranneBuilder::new(cfg.build(), els);
    no_panic("build", || b.build())?;
    let by = index_bytes(&b)?;
    all_faults(c, "GranneBuilder::write_index", &mut rng, &by, 500, &|d| b.write_index(d))?;
    let ix = Granne::from_bytes(&by, b.get_elements().clone());
    all_faults(c, "Granne::write_index", &mut rng, &by, 100, &|d| ix.write_index(d))?;
    let eb = written(b.get_elements(), "write")?;
    all_faults(c, "write_elements", &mut rng, &eb, 100, &|d| ix.write_elements(d).map(|_| ()))?;
    let rw = RwGranneBuilder::new(b, n + 10, 1);
    all_faults(c, "RwGranneBuilder::write (index)", &mut rng, &by, 200, &|d| {
        let mut e = Disk::new(Fault::None);
        let r = rw.write(d, &mut e);
        if r.is_ok() && e.data != eb {
            panic!("CONTRACT elements are incomplete although the snapshot succeeded");
        }
        r
    })?;
    all_faults(c, "RwGranneBuilder::write (elements)", &mut rng, &eb, 200, &|d| rw.write(&mut Disk::new(Fault::None), d))?;
    c.nontrivial(hash_bytes(&by));
    Ok(())
}

/// real files on a full disk
fn full_disk(c: &mut Case) -> Res {
    let mut rng = c.rng.fork();
    let d = Dir::new(c.ctx);
    let n = *rng.pick(&[1, 3, 40, 3000]);
    c.note(format!("full disk n={}", n));
    let full = "/dev/full";
    if !std::path::Path::new(full).exists() {
        c.ctx.count("no_dev_full", 1);
        return Ok(());
    }
    let words: Vec<String> = (0..50).map(|i| format!("w{}", i)).collect();
    std::fs::write(d.p("words"), words.iter().map(|w| format!("\"{}\"\n", w)).collect::<String>()).unwrap();
    let lines: String = (0..n).map(|i| format!("\"{} {}\"\n", words[i % 50], words[(i * 7) % 50])).collect();
    std::fs::write(d.p("text"), lines).unwrap();
    let must_fail = |what: &str, f: &dyn Fn()| -> Res {
        match catch(f) {
            Ok(()) => Err(format!("{} reports success on a full disk", what)),
            Err(Panicked::Lib(_)) => {
                c.ctx.count("failures_reported", 1);
                Ok(())
            }
            Err(Panicked::Harness(m)) => panic!("{}", m),
        }
    };
    let fullp = std::path::Path::new(full);
    must_fail("parse_elements_and_save_to_disk", &|| {
        parsing::parse_elements_and_save_to_disk(&d.p("text"), &d.p("words"), fullp, false);
    })?;
    let shards = 3;
    for bad in 0..shards {
        let dd = Dir::new(c.ctx);
        std::os::unix::fs::symlink(full, dd.p(&format!("elements-{}.bin", bad))).unwrap();
        must_fail("parse_elements_and_save_shards_to_disk", &|| {
            parsing::parse_elements_and_save_shards_to_disk(&d.p("text"), &d.p("words"), &dd.0, shards, false);
        })?;
    }
    parsing::parse_elements_and_save_to_disk(&d.p("text"), &d.p("words"), &d.p("elements"), false);
    let emb: angular::Vectors = (0..50).map(|_| (0..5).map(|_| rng.sf()).collect::<angular::Vector>()).collect();
    std::fs::write(d.p("emb"), written(&emb, "write")?).unwrap();
    must_fail("compute_embeddings_and_save_to_disk", &|| {
        parsing::compute_embeddings_and_save_to_disk(&d.p("elements"), &d.p("emb"), fullp, false);
    })?;
    // the concurrent builder
    let mut els = SumEmbeddings::new();
    for i in 0..50 {
        els.push_embedding(emb.get_element(i).as_slice());
    }
    let cfg = Cfg { nn: 5, ms: 5, mult: 5.0, reinsert: false, expected: None, progress: false };
    let rw = RwGranneBuilder::new(GranneBuilder::new(cfg.build(), els), n + 1, 1);
    for i in 0..n {
        rw.insert(vec![i % 50, (i * 3) % 50]);
    }
    let s = |p: std::path::PathBuf| p.to_str().unwrap().to_string();
    for (i, e) in [(full.to_string(), s(d.p("e1"))), (s(d.p("i1")), full.to_string()), (full.to_string(), full.to_string())] {
        let r = no_panic("save_index_and_elements_to_disk", || rw.save_index_and_elements_to_disk(&i, &e))?;
        ensure!(r.is_err(), "save_index_and_elements_to_disk({}, {}) reports success on a full disk", i, e);
        c.ctx.count("failures_reported", 1);
    }
    let r = no_panic("save", || rw.save_index_and_elements_to_disk("/nonexistent-dir/x", &s(d.p("e2"))))?;
    ensure!(r.is_err(), "saving into a missing directory reports success");
    // a direct File on the full device
    let mut b = GranneBuilder::new(cfg.build(), rw.get_elements().clone());
    no_panic("build", || b.build())?;
    let open = || std::fs::OpenOptions::new().write(true).open(full).unwrap();
    ensure!(b.write_index(&mut open()).is_err(), "write_index reports success on a full disk");
    ensure!(b.write_elements(&mut open()).is_err(), "write_elements reports success on a full disk");
    c.nontrivial(rng.seed());
    Ok(())
}

/// path-based saves and saves to real files whose writes fail, are interrupted or come in pieces
#[cfg(any(feature = "all", feature = "c07"))]
fn real_files(c: &mut Case) -> Res {
    use crate::fault::*;
    let mut rng = c.rng.fork();
    let d = Dir::new(c.ctx);
    let n = *rng.pick(&[0, 1, 3, 40, 400, 3000]);
    c.note(format!("real files n={}", n));
    let words: Vec<String> = (0..50).map(|i| format!("w{}", i)).collect();
    std::fs::write(d.p("words"), words.iter().map(|w| format!("\"{}\"\n", w)).collect::<String>()).unwrap();
    let lines: String = (0..n).map(|i| format!("\"{}\"\n", (0..1 + rng.below(9)).map(|_| words[(i + rng.below(50)) % 50].clone()).collect::<Vec<_>>().join(" "))).collect();
    std::fs::write(d.p("text"), lines).unwrap();
    parsing::parse_elements_and_save_to_disk(&d.p("text"), &d.p("words"), &d.p("elements"), false);
    let dim = rng.range(1, 30);
    let emb: angular::Vectors = (0..50).map(|_| (0..dim).map(|_| rng.sf()).collect::<angular::Vector>()).collect();
    std::fs::write(d.p("emb"), written(&emb, "write")?).unwrap();
    let mut els = SumEmbeddings::new();
    for i in 0..50 {
        els.push_embedding(emb.get_element(i).as_slice());
    }
    let cfg = Cfg { nn: rng.range(2, 9), ms: 5, mult: 5.0, reinsert: false, expected: None, progress: false };
    let m = n.min(400);
    let rw = RwGranneBuilder::new(GranneBuilder::new(cfg.build(), els), m + 1, 1);
    for i in 0..m {
        rw.insert(vec![i % 50, (i * 3) % 50]);
    }
    let mut b = GranneBuilder::new(cfg.build(), rw.get_elements().clone());
    no_panic("build", || b.build())?;
    let shards = rng.range(1, 3);
    type Save<'a> = (&'a str, Vec<String>, Box<dyn Fn(&std::path::Path) -> Result<(), String> + 'a>);
    let one = |r: Result<(), Panicked>| -> Result<(), String> {
        match r {
            Ok(()) => Ok(()),
            Err(Panicked::Lib(m)) => Err(m),
            Err(Panicked::Harness(m)) => panic!("{}", m),
        }
    };
    let saves: Vec<Save> = vec![
        ("parse_elements_and_save_to_disk", vec!["e".into()], Box::new(|o| {
            one(catch(|| {
                parsing::parse_elements_and_save_to_disk(&d.p("text"), &d.p("words"), &o.join("e"), false);
            }))
        })),
        ("parse_elements_and_save_shards_to_disk", (0..shards).map(|i| format!("elements-{}.bin", i)).collect(), Box::new(|o| {
            one(catch(|| {
                parsing::parse_elements_and_save_shards_to_disk(&d.p("text"), &d.p("words"), o, shards, false);
            }))
        })),
        ("compute_embeddings_and_save_to_disk", vec!["v".into()], Box::new(|o| one(catch(|| parsing::compute_embeddings_and_save_to_disk(&d.p("elements"), &d.p("emb"), &o.join("v"), false))))),
        ("save_index_and_elements_to_disk", vec!["i".into(), "e".into()], Box::new(|o| {
            let p = |s: &str| o.join(s).to_str().unwrap().to_string();
            match catch(|| rw.save_index_and_elements_to_disk(&p("i"), &p("e"))) {
                Ok(r) => r.map_err(|e| e.to_string()),
                Err(Panicked::Lib(m)) => panic!("CONTRACT save_index_and_elements_to_disk {}", m),
                Err(Panicked::Harness(m)) => panic!("{}", m),
            }
        })),
        ("write_index to a file", vec!["i".into()], Box::new(|o| b.write_index(&mut std::fs::File::create(o.join("i")).map_err(|e| e.to_string())?).map_err(|e| e.to_string()))),
        ("write_elements to a file", vec!["e".into()], Box::new(|o| b.write_elements(&mut std::fs::File::create(o.join("e")).map_err(|e| e.to_string())?).map(|_| ()).map_err(|e| e.to_string()))),
    ];
    let pick = rng.below(saves.len());
    for (k, (what, files, save)) in saves.iter().enumerate() {
        if k != pick && k % 3 != pick % 3 {
            continue;
        }
        let read = |o: &Dir| -> Result<Vec<Vec<u8>>, String> { files.iter().map(|f| std::fs::read(o.p(f)).map_err(|e| format!("{} succeeds, but {}: {}", what, f, e))).collect() };
        let o = Dir::new(c.ctx);
        let a = arm(&o.0, Op::Write, 0, How::Count, 0);
        let r = save(&o.0);
        let (nw, no) = (a.seen(Op::Write), a.seen(Op::Open));
        drop(a);
        ensure!(r.is_ok(), "{} fails: {:?}", what, r);
        let want = read(&o)?;
        c.ctx.count("file_writes", nw as u64);
        ensure!(nw > 0 && no > 0, "harness: no writes seen");
        for (op, n) in [(Op::Write, nw), (Op::Open, no)] {
            let cap = if c.ctx.thorough { 200 } else { 14 };
            let at: Vec<usize> = if n <= cap { (0..n).collect() } else { (0..cap).map(|i| if i < 4 { i } else if i < 8 { n - 1 - (i - 4) } else { rng.below(n) }).collect() };
            for k in at {
                for how in [How::Once, How::From, How::Interrupt] {
                    let o = Dir::new(c.ctx);
                    let e = *rng.pick(ERRORS);
                    let a = arm(&o.0, op, k, how, e);
                    let r = save(&o.0);
                    let hit = a.hits() > 0;
                    drop(a);
                    c.ctx.count("file_faults", hit as u64);
                    let at = format!("{} with {:?} {} of {} failing ({:?}, error {})", what, op, k, n, how, e);
                    match r {
                        Ok(()) => {
                            ensure!(!hit || how == How::Interrupt, "{} reports success", at);
                            ensure!(read(&o)? == want, "{} succeeds, but other bytes were stored", at);
                        }
                        Err(m) => {
                            ensure!(hit && how != How::Interrupt, "{}: {}", at, m);
                            c.ctx.count("failures_reported", 1);
                        }
                    }
                }
            }
        }
        let o = Dir::new(c.ctx);
        let a = arm(&o.0, Op::Write, rng.below(1 << 20), How::Short, 0);
        let r = save(&o.0);
        drop(a);
        ensure!(r.is_ok(), "{} with writes in pieces fails: {:?}", what, r);
        ensure!(read(&o)? == want, "{} with writes in pieces: other bytes were stored", what);
        // over longer files
        let o = Dir::new(c.ctx);
        for f in files {
            std::fs::write(o.p(f), vec![0x5A; 400_000]).expect("write");
        }
        let r = save(&o.0);
        ensure!(r.is_ok(), "{} over existing files fails: {:?}", what, r);
        ensure!(read(&o)? == want, "{} over longer files: other bytes were stored", what);
    }
    c.nontrivial(rng.seed());
    Ok(())
}

pub fn run(ctx: &Ctx) {
    ctx.rule("Every save operation against an in-memory destination that fails at each of its write, seek and flush operations in turn (once, or from then on), takes nothing, is full after some bytes, or takes few bytes at a time with interruptions; success must mean all bytes are there, a failure must be reported. Then every prefix of the writes of a healthy save, torn in the middle (each byte of the header), is loaded. Path-based saves run against /dev/full, and with every open and write of their files (the C library's calls are interposed) failing, interrupted or transferring a part. Non-trivial: the file has nodes; distinct: different bytes.");
    let w = ctx.workers;
    ctx.cases("index", ctx.n(120, 3000), w, |c| any_kind!(c.rng, index, c, false));
    ctx.cases("big", ctx.n(10, 200), w, |c| any_kind!(c.rng, index, c, true));
    ctx.cases("collections", ctx.n(60, 1000), w, collections);
    ctx.cases("huge", ctx.n(6, 60), w, |c| any_kind!(c.rng, huge, c));
    ctx.cases("snapshots", ctx.n(80, 2000), w, |c| any_kind!(c.rng, snapshots, c));
    ctx.cases("full_disk", ctx.n(12, 100), w, full_disk);
    #[cfg(any(feature = "all", feature = "c07"))]
    ctx.cases("real_files", ctx.n(60, 600), w, real_files);
}
