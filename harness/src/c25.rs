//! C25: what is mapped is used in place, what is borrowed is not copied, work needs memory in
//! proportion to the work, and everything is given back.
use crate::codec;
use crate::ensure;
use crate::gen::*;
use crate::graph::*;
use crate::kinds::*;
use crate::util::*;
use granne::{angular, angular_int, embeddings::SumEmbeddings, Builder, ElementContainer, ExtendableElementContainer, Granne, GranneBuilder, Index, RwGranneBuilder, Writeable};
use std::alloc::{GlobalAlloc, Layout, System};
use std::fs::File;
use std::io::{Seek, SeekFrom, Write};
use std::sync::atomic::{AtomicIsize, Ordering::*};

/// counts the bytes in use; the check's cases run one after another, so this is what one case uses
pub struct Meter;
static LIVE: AtomicIsize = AtomicIsize::new(0);
static PEAK: AtomicIsize = AtomicIsize::new(0);

fn add(n: isize) {
    let now = LIVE.fetch_add(n, Relaxed) + n;
    if n > 0 {
        PEAK.fetch_max(now, Relaxed);
    }
}

unsafe impl GlobalAlloc for Meter {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            add(l.size() as isize);
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            add(l.size() as isize);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l);
        add(-(l.size() as isize));
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            add(n as isize - l.size() as isize);
        }
        q
    }
}

#[cfg(not(miri))]
#[global_allocator]
static METER: Meter = Meter;

/// most bytes in use at a time during `f` and bytes still in use after it, beyond those before
fn measure<T>(f: impl FnOnce() -> T) -> (T, usize, isize) {
    let base = LIVE.load(SeqCst);
    PEAK.store(base, SeqCst);
    let r = f();
    (r, (PEAK.load(SeqCst) - base).max(0) as usize, LIVE.load(SeqCst) - base)
}

const KB: usize = 1 << 10;
const MB: usize = 1 << 20;
/// what the monitor's own threads may have in use at the same time
const SLACK: usize = 64 * KB;

/// (bytes of `path` mapped, bytes of it in memory) in this process
fn mapping(path: &std::path::Path) -> (usize, usize) {
    let s = std::fs::read_to_string("/proc/self/smaps").unwrap_or_default();
    let name = path.file_name().unwrap().to_string_lossy().to_string();
    let (mut size, mut rss, mut on) = (0, 0, false);
    for l in s.lines() {
        let first = l.split_whitespace().next().unwrap_or("");
        if !first.ends_with(':') {
            on = l.ends_with(&name);
        } else if on {
            let kb: usize = l.split_whitespace().nth(1).and_then(|x| x.parse().ok()).unwrap_or(0);
            match first {
                "Size:" => size += kb * KB,
                "Rss:" => rss += kb * KB,
                _ => {}
            }
        }
    }
    (size, rss)
}

/// how many mappings of this file there are
fn mapped(path: &std::path::Path) -> usize {
    let p = path.to_string_lossy().to_string();
    std::fs::read_to_string("/proc/self/maps").unwrap_or_default().lines().filter(|l| l.ends_with(&p)).count()
}

fn descriptors() -> usize {
    std::fs::read_dir("/proc/self/fd").map_or(0, |d| d.count())
}

fn tasks() -> usize {
    std::fs::read_dir("/proc/self/task").map(|d| d.count()).unwrap_or(0)
}

/// threads that have been told to end may take a moment
fn tasks_at_most(n: usize) -> Res {
    let t = std::time::Instant::now();
    let mut now = tasks();
    while now > n && t.elapsed() < std::time::Duration::from_secs(30) {
        std::thread::sleep(std::time::Duration::from_millis(2));
        now = tasks();
    }
    ensure!(now <= n, "{} threads run, {} are accounted for", now, n);
    Ok(())
}

fn sparse(d: &Dir, name: &str, start: &[u8], len: usize) -> File {
    let mut f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(d.p(name)).expect("scratch file");
    f.write_all(start).expect("scratch file");
    f.set_len(len as u64).expect("scratch file");
    f.seek(SeekFrom::Start(0)).expect("scratch file");
    f
}

/// number of nodes that are there in a sparse index
const REAL: usize = 50;

/// an index of `nodes` nodes in the last layer of which the first `REAL` are linked with each
/// other and the rest is a hole in the file
fn sparse_index(rng: &mut Rng, d: &Dir, name: &str, nodes: usize) -> (File, usize, Vec<usize>) {
    let links = |rng: &mut Rng, n: usize| -> Vec<Vec<u32>> {
        (0..n)
            .map(|i| {
                let mut v: Vec<u32> = (0..8).map(|_| rng.below(n) as u32).filter(|&j| j as usize != i).collect();
                v.push(((i + 1) % n) as u32);
                v.retain(|&j| j as usize != i);
                v.sort_unstable();
                v.dedup();
                v
            })
            .collect()
    };
    let top: Vec<Vec<Vec<u32>>> = vec![links(rng, 3), links(rng, 20)];
    let enc: Vec<Vec<u8>> = top.iter().map(|l| codec::encode_layer(l)).collect();
    let real = codec::encode_layer(&links(rng, REAL));
    let chunks = nodes / codec::PER_CHUNK;
    // the last chunk has one offset more than nodes
    let nodes = chunks * codec::PER_CHUNK - 1;
    let table = chunks * 128;
    let data = &real[8 + 128..];
    // the values of the real nodes come first, so their chunk is as in a small layer, filled up
    // with the end of the last value
    let mut first = real[8..8 + 128].to_vec();
    for k in REAL + 1..codec::PER_CHUNK {
        first[8 + 2 * k..10 + 2 * k].copy_from_slice(&0u16.to_le_bytes());
    }
    let size = 8 + table + data.len();
    let counts = vec![3, 20, nodes];
    let meta = serde_json::json!({"granne_version": "0.5.2", "version": 2, "num_elements": nodes, "num_layers": 3, "num_neighbors": 9,
        "layer_counts": counts, "layer_sizes": [enc[0].len(), enc[1].len(), size], "compressed": true});
    let mut start = format!("granne{}", meta).into_bytes();
    start.resize(codec::HEADER, b' ');
    start.extend(&enc[0]);
    start.extend(&enc[1]);
    let at = start.len();
    start.extend((table as u64).to_le_bytes());
    start.extend(first);
    let mut f = sparse(d, name, &start, at + size);
    f.seek(SeekFrom::Start((at + 8 + table) as u64)).unwrap();
    f.write_all(data).unwrap();
    f.seek(SeekFrom::Start(0)).unwrap();
    (f, at + size, counts)
}

/// files of up to a gigabyte, nearly all of it holes: nothing may read or copy them
fn huge(c: &mut Case) -> Res {
    let mut rng = c.rng.fork();
    let d = Dir::new(c.ctx);
    let kind = c.idx as usize % 3;
    let nodes = rng.range(60_000_000, 120_000_000);
    let (fi, li, counts) = sparse_index(&mut rng, &d, "index", nodes);
    let nodes = counts[2];
    let dim = *rng.pick(&[3usize, 4, 7]);
    let spec = Spec::new(&mut rng, dim, Flavor::Uniform);
    c.note(format!("huge kind={} nodes={} dim={} index of {} MB", kind, nodes, dim, li / MB));
    let (mut files, mut lens) = (vec!["index"], vec![li]);
    match kind {
        0 => {
            let start = crate::elems::written(&fill::<F32>(&mut rng, &spec, REAL), "write")?;
            let len = 8 + nodes * dim * 4;
            let fe = sparse(&d, "elements", &start, len);
            files.push("elements");
            lens.push(len);
            let q: Vec<_> = (0..6).map(|_| angular::Vector::from(spec.vec(&mut rng))).collect();
            use_huge(c, &mut rng, &d, &fi, &counts, &q, &files, &lens, || unsafe { angular::Vectors::from_file(&fe) })?;
        }
        1 => {
            let start = crate::elems::written(&fill::<I8>(&mut rng, &spec, REAL), "write")?;
            let len = 8 + nodes * dim;
            let fe = sparse(&d, "elements", &start, len);
            files.push("elements");
            lens.push(len);
            let q: Vec<_> = (0..6).map(|_| angular_int::Vector::from(spec.vec(&mut rng))).collect();
            use_huge(c, &mut rng, &d, &fi, &counts, &q, &files, &lens, || unsafe { angular_int::Vectors::from_file(&fe) })?;
        }
        _ => {
            let words = fill::<F32>(&mut rng, &spec, 40);
            let wl = 8 + 30_000_000 * dim * 4;
            let fw = sparse(&d, "words", &crate::elems::written(&words, "write")?, wl);
            // offsets of the first elements, then none
            let mut start = (nodes as u64).to_le_bytes().to_vec();
            let mut at = 0u64;
            let mut terms = Vec::new();
            start.extend(&at.to_le_bytes()[..5]);
            for _ in 0..REAL {
                let k = rng.range(1, 5);
                at += k as u64;
                start.extend(&at.to_le_bytes()[..5]);
                (0..k).for_each(|_| terms.extend(&(rng.below(40) as u64).to_le_bytes()[..3]));
            }
            let data_at = 8 + 5 * (nodes + 1);
            let mut fe = sparse(&d, "elements", &start, data_at + terms.len());
            // the last offset tells where the values end
            fe.seek(SeekFrom::Start(data_at as u64 - 5)).unwrap();
            fe.write_all(&at.to_le_bytes()[..5]).unwrap();
            fe.write_all(&terms).unwrap();
            fe.seek(SeekFrom::Start(0)).unwrap();
            files.extend(["elements", "words"]);
            lens.extend([data_at + terms.len(), wl]);
            let q: Vec<_> = (0..6).map(|_| angular::Vector::from(spec.vec(&mut rng))).collect();
            use_huge(c, &mut rng, &d, &fi, &counts, &q, &files, &lens, || unsafe { SumEmbeddings::from_files(&fw, Some(&fe)) })?;
        }
    }
    c.nontrivial(hash_bytes(c.desc.as_bytes()));
    Ok(())
}

#[allow(clippy::too_many_arguments)]
fn use_huge<C>(c: &Case, rng: &mut Rng, d: &Dir, fi: &File, counts: &[usize], qs: &[C::Element], files: &[&str], lens: &[usize], load: impl Fn() -> std::io::Result<C>) -> Res
where
    C: ElementContainer + Writeable + Sync,
{
    let fds = descriptors();
    let before = LIVE.load(SeqCst);
    let small = |what: &str, peak: usize, kept: isize, may: usize, keep: usize| -> Res {
        c.ctx.max(&format!("heap during: {} (KB)", what), peak as f64 / 1024.0);
        ensure!(peak <= may + SLACK, "{} used {} KB of heap ({} MB of files)", what, peak / KB, lens.iter().sum::<usize>() / MB);
        ensure!(kept <= (keep + SLACK) as isize, "{} left {} KB of heap in use", what, kept / KB as isize);
        Ok(())
    };
    {
        let (els, peak, kept) = measure(|| no_panic("from_file of elements", &load));
        let els = els?.map_err(|e| e.to_string())?;
        small("loading the elements", peak, kept, 64 * KB, 64 * KB)?;
        let (ix, peak, kept) = measure(|| no_panic("from_file of an index", || unsafe { Granne::from_file(fi, els) }));
        let ix = ix?.map_err(|e| e.to_string())?;
        small("loading the index", peak, kept, 64 * KB, 64 * KB)?;
        for (f, l) in files.iter().zip(lens) {
            let (size, rss) = mapping(&d.p(f));
            c.ctx.max("share of a file in memory after loading", rss as f64 / *l as f64);
            ensure!(size >= *l, "{} of {} MB is not mapped as a whole, only {} bytes of it", f, l / MB, size);
            ensure!(rss <= 24 * MB + l / 50, "after loading, {} of the {} MB of {} are in memory", rss / MB, l / MB, f);
        }
        let (r, peak, kept) = measure(|| {
            no_panic("len", || (ix.len(), ix.num_layers(), (0..3).map(|l| ix.layer_len(l)).collect::<Vec<_>>(), ix.get_elements().len()))
        });
        let r = r?;
        ensure!((r.0, r.1, &r.2[..], r.3) == (counts[2], 3, counts, counts[2]), "sizes of the index are {:?}, written were {:?}", r, counts);
        small("asking for sizes", peak, kept, 64 * KB, KB)?;
        for i in 0..6 {
            let (at, l) = (rng.below(REAL), rng.below(3));
            let at = if l < 2 { at % counts[l] } else { at };
            let (r, peak, kept) = measure(|| no_panic("get_neighbors", || drop(ix.get_neighbors(at, l))));
            r?;
            small("get_neighbors", peak, kept, 64 * KB, 0)?;
            let (r, peak, kept) = measure(|| no_panic("get_element", || drop(ix.get_element(at))));
            r?;
            small("get_element", peak, kept, 64 * KB, 0)?;
            let ms = *rng.pick(&[1usize, 5, 20, 100]);
            let mut n = 0;
            let (r, peak, kept) = measure(|| no_panic("search", || n = ix.search(&qs[i], ms, 10).len()));
            r?;
            small("search", peak, kept, 64 * KB + 1000 * ms, 0)?;
            ensure!(n == ms.min(10), "a search of width {} among {} linked elements found {}", ms, REAL, n);
            c.ctx.count("searches_in_huge_files", 1);
        }
        for (f, l) in files.iter().zip(lens) {
            let (_, rss) = mapping(&d.p(f));
            c.ctx.max("MB of a file in memory after searching", rss as f64 / MB as f64);
            ensure!(rss <= 48 * MB + l / 50, "after a few searches, {} of the {} MB of {} are in memory", rss / MB, l / MB, f);
        }
        let r = measure(|| no_panic("drop", || drop(ix)));
        r.0?;
    }
    let left = LIVE.load(SeqCst) - before;
    ensure!(left <= SLACK as isize, "{} KB of heap are in use after the index was dropped", left / KB as isize);
    for f in files {
        let (size, _) = mapping(&d.p(f));
        ensure!(size == 0, "{} of {} are still mapped after the index was dropped", size, f);
    }
    let now = descriptors();
    ensure!(now <= fds, "{} file descriptors before loading, {} after the index was dropped", fds, now);
    Ok(())
}

#[derive(Default)]
struct Nowhere(u64, u64);
impl Write for Nowhere {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0 += b.len() as u64;
        self.1 = self.1.max(self.0);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
impl Seek for Nowhere {
    fn seek(&mut self, s: SeekFrom) -> std::io::Result<u64> {
        self.0 = match s {
            SeekFrom::Start(x) => x,
            SeekFrom::Current(x) => (self.0 as i64 + x) as u64,
            SeekFrom::End(x) => (self.1 as i64 + x) as u64,
        };
        Ok(self.0)
    }
}

/// building, borrowing, saving, loading and searching indexes of some thousand elements
fn work<K>(c: &mut Case) -> Res
where
    K: Kind,
    Counted<K>: Kind<C = Mon<K::C>, E = K::E, I = K::I>,
{
    let mut rng = c.rng.fork();
    let n = rng.range(4_000, 16_000);
    let threads = rng.range(1, 4);
    let cfg = Cfg { nn: *rng.pick(&[4, 10, 20, 30]), ms: rng.range(5, 20), mult: *rng.pick(&[5.0, 15.0, 50.0]), reinsert: rng.chance(0.5), expected: None, progress: false };
    let dim = rng.range(4, 20);
    let spec = Spec::new(&mut rng, dim, Flavor::Uniform);
    c.note(format!("work {} n={} dim={} threads={} {:?}", K::NAME, n, dim, threads, cfg));
    let mut els = <Counted<K>>::empty_large(&mut rng, &spec, 500);
    for _ in 0..n {
        let i = K::item(&mut rng, &spec, &els.inner);
        els.push(i);
    }
    let noise = els.noise.clone();
    let qs: Vec<K::E> = (0..20).map(|_| K::query(&mut rng, &spec, &els.inner)).collect();
    let mut b = GranneBuilder::new(cfg.build(), els);
    let pool = rayon::ThreadPoolBuilder::new().num_threads(threads).build().unwrap();
    pool.install(|| rayon::join(|| (), || ()));

    let (r, peak, kept) = measure(|| pool.install(|| no_panic("build", || b.build())));
    r?;
    // four bytes for every place in a neighbor list; per element a lock and its bookkeeping meanwhile
    let places: usize = (0..b.num_layers()).map(|l| b.layer_len(l)).sum::<usize>() * cfg.nn * 4;
    let beyond = (peak as f64 - places as f64) / n as f64;
    c.ctx.max("building: bytes per element beyond the neighbor lists", beyond);
    c.ctx.max("building: bytes kept / neighbor lists", kept as f64 / places as f64);
    ensure!(peak <= places + places / 2 + n * 150 + SLACK, "building used {} KB at its peak, the neighbor lists need {} KB", peak / KB, places / KB);
    ensure!(kept <= (places + places / 4 + SLACK) as isize, "a built index keeps {} KB, the neighbor lists need {} KB", kept / KB as isize, places / KB);

    let (r, peak, kept) = measure(|| no_panic("get_index", || b.get_index().len()));
    r?;
    c.ctx.max("borrowing an index: bytes", peak as f64);
    ensure!(peak <= SLACK && kept <= SLACK as isize, "borrowing an index of {} KB used {} KB", places / KB, peak / KB);

    let save = |what: &str, f: &mut dyn FnMut() -> std::io::Result<()>, per: usize| -> Res {
        let (r, peak, kept) = measure(|| no_panic(what, f));
        r?.map_err(|e| e.to_string())?;
        c.ctx.max(&format!("{}: bytes per element", what), peak as f64 / n as f64);
        ensure!(peak <= per * n + SLACK, "{} of {} elements and {} KB of links used {} KB", what, n, places / KB, peak / KB);
        ensure!(kept <= SLACK as isize, "{} left {} KB in use", what, kept / KB as isize);
        Ok(())
    };
    save("saving a built index", &mut || b.write_index(&mut Nowhere::default()), 16)?;
    if K::NAME != Grid::NAME {
        save("saving elements", &mut || b.write_elements(&mut Nowhere::default()).map(|_| ()), 1)?;
    }
    let by = index_bytes(&b)?;
    let f = temp_file(c.ctx, &by);
    let by = Shifted::new(&by, rng.below(16));
    let (ix, peak, _) = measure(|| no_panic("from_bytes", || Granne::from_bytes(by.get(), b.get_elements())));
    let ix = ix?;
    c.ctx.max("loading an index from bytes: bytes", peak as f64);
    ensure!(peak <= SLACK, "loading an index from {} KB of bytes used {} KB", by.get().len() / KB, peak / KB);
    save("saving a loaded index", &mut || ix.write_index(&mut Nowhere::default()), 0)?;
    let mx = unsafe { Granne::from_file(&f, b.get_elements()) }.map_err(|e| e.to_string())?;
    save("saving a mapped index", &mut || mx.write_index(&mut Nowhere::default()), 0)?;
    let bx = b.get_index();
    for q in &qs {
        let ms = *rng.pick(&[1usize, 5, 20, 60, 200]);
        for x in [&ix, &mx, &bx] {
            let calls = noise.calls.load(SeqCst);
            let (r, peak, kept) = measure(|| no_panic("search", || drop(x.search(q, ms, 10))));
            r?;
            let calls = (noise.calls.load(SeqCst) - calls) as usize;
            c.ctx.max("search: bytes / (distances + 20 * width), beyond 16 KB", (peak as f64 - 16384.0) / (calls + 20 * ms) as f64);
            ensure!(peak <= 80 * (calls + 20 * ms) + SLACK, "a search of width {} that computed {} distances used {} KB", ms, calls, peak / KB);
            ensure!(kept <= SLACK as isize, "a search left {} KB in use", kept / KB as isize);
            c.ctx.count("searches_measured", 1);
        }
    }
    // what is too small to be seen once
    let k = b.get_index();
    let (r, _, kept) = measure(|| {
        no_panic("searching and reading", || {
            for i in 0..600 {
                drop(ix.search(&qs[i % qs.len()], 1 + i % 5, 3));
                drop(mx.search(&qs[i % qs.len()], 1 + i % 5, 3));
                drop((ix.get_neighbors(i, ix.num_layers() - 1), mx.get_neighbors(i, mx.num_layers() - 1), k.get_neighbors(i, k.num_layers() - 1)));
                drop((ix.get_element(i), mx.get_element(i)));
            }
        })
    });
    r?;
    c.ctx.max("600 rounds of searching and reading: bytes kept", kept as f64);
    ensure!(kept <= SLACK as isize, "600 rounds of searching and reading left {} KB in use", kept / KB as isize);
    c.nontrivial(hash_bytes(c.desc.as_bytes()));
    Ok(())
}

/// the concurrent builder
fn live<K: Kind>(c: &mut Case) -> Res {
    let mut rng = c.rng.fork();
    let cap = rng.range(3_000, 12_000);
    let n = rng.range(cap / 2, cap);
    let cfg = Cfg { nn: *rng.pick(&[4, 10, 20]), ms: rng.range(5, 15), mult: *rng.pick(&[5.0, 15.0, 50.0]), reinsert: false, expected: None, progress: false };
    let dim = rng.range(4, 10);
    let spec = Spec::new(&mut rng, dim, Flavor::Uniform);
    c.note(format!("live {} n={} of {} dim={} {:?}", K::NAME, n, cap, dim, cfg));
    let els = K::empty_large(&mut rng, &spec, 300);
    let items: Vec<K::I> = (0..n).map(|_| K::item(&mut rng, &spec, &els)).collect();
    let weigh = measure(|| {
        let mut e = els.clone();
        items.iter().for_each(|i| e.push(i.clone()));
        e
    });
    let start = LIVE.load(SeqCst);
    let before = tasks();
    let threads = rng.range(1, 6);
    {
        let rw = no_panic("RwGranneBuilder::new", || RwGranneBuilder::new(GranneBuilder::new(cfg.build(), els.clone()), cap, threads))?;
        let (r, peak, kept) = measure(|| -> Result<(), String> {
            for part in items.chunks(500) {
                let part = part.to_vec();
                no_panic("insert", || drop(rw.insert_batch(part)))?;
            }
            Ok(())
        });
        r?;
        // the last layer may be allocated for everything the builder can take
        let places = 2 * cap * cfg.nn * 4;
        let beyond = (peak as f64 - (cap * cfg.nn * 4) as f64 - weigh.1 as f64) / cap as f64;
        c.ctx.max("inserting: bytes per place beyond one layer and the elements", beyond);
        ensure!(peak <= places + 2 * weigh.1 + cap * 150 + MB, "inserting {} elements ({} KB) used {} KB at its peak, the neighbor lists need {} KB", n, weigh.1 / KB, peak / KB, places / 2 / KB);
        ensure!(kept <= (places + 2 * weigh.1 + cap * 100 + MB) as isize, "{} inserted elements ({} KB) keep {} KB in use", n, weigh.1 / KB, kept / KB as isize);
        let (r, peak, kept) = measure(|| no_panic("write", || rw.write(&mut Nowhere::default(), &mut Nowhere::default())));
        r?.map_err(|e| e.to_string())?;
        c.ctx.max("snapshot: bytes per element", peak as f64 / n as f64);
        if K::NAME != Grid::NAME {
            ensure!(peak <= 16 * n + SLACK, "a snapshot of {} elements and {} KB of links used {} KB", n, places / 2 / KB, peak / KB);
        }
        ensure!(kept <= SLACK as isize, "a snapshot left {} KB in use", kept / KB as isize);
        tasks_at_most(before + threads).map_err(|e| format!("a concurrent builder of {} threads after {} inserts and a save: {}", threads, n, e))?;
        for _ in 0..10 {
            let q = K::query(&mut rng, &spec, &els);
            let ms = *rng.pick(&[1usize, 5, 20, 60]);
            let (r, peak, kept) = measure(|| no_panic("search", || drop(rw.search(&q, ms, 10))));
            r?;
            c.ctx.max("search of the concurrent builder: KB", peak as f64 / 1024.0);
            ensure!(peak <= 80 * 60 * ms + 2 * SLACK, "a search of width {} among {} elements used {} KB", ms, n, peak / KB);
            ensure!(kept <= SLACK as isize, "a search left {} KB in use", kept / KB as isize);
        }
    }
    tasks_at_most(before).map_err(|e| format!("after the concurrent builder was dropped: {}", e))?;
    c.count("thread_counts_compared", 2);
    let left = LIVE.load(SeqCst) - start;
    c.ctx.max("KB in use after the concurrent builder is gone", left as f64 / 1024.0);
    ensure!(left <= SLACK as isize, "{} KB are in use after the concurrent builder was dropped", left / KB as isize);
    drop(weigh.0);
    c.nontrivial(hash_bytes(c.desc.as_bytes()));
    Ok(())
}

/// the same life of an index again and again leaves nothing behind
fn again<K: Kind>(c: &mut Case) -> Res {
    let seed = c.rng.seed();
    let mut after = Vec::new();
    let mut peaks = 0;
    let (fds, before) = (descriptors(), tasks());
    let rounds = 4;
    for round in 0..rounds {
        let mut rng = Rng::new(seed, "again", 0);
        let n = rng.range(1500, 4000);
        let cfg = Cfg { reinsert: rng.chance(0.5), ms: rng.range(2, 7), mult: *rng.pick(&[5.0, 15.0, 50.0]), nn: rng.range(8, 20), expected: None, progress: false };
        let (dim, fl) = (rng.range(6, 16), *rng.pick(PLAIN));
        let spec = Spec::new(&mut rng, dim, fl);
        if round == 0 {
            c.note(format!("again {} n={} dim={} {:?} {:?}", K::NAME, n, dim, fl, cfg));
        }
        let (r, peak, _) = measure(|| -> Res {
            let els = fill::<K>(&mut rng, &spec, n);
            let mut b = GranneBuilder::new(cfg.build(), els);
            let k = rng.range(1, n);
            in_pool(2, || no_panic("build_partial", || b.build_partial(k)))?;
            in_pool(2, || no_panic("build", || b.build()))?;
            let by = index_bytes(&b)?;
            let f = temp_file(c.ctx, &by);
            for _ in 0..rng.range(1, 4) {
                let mut ix = match rng.below(3) {
                    0 => b.get_index().to_owned(),
                    1 => Granne::from_bytes(&by, b.get_elements().clone()),
                    _ => unsafe { Granne::from_file(&f, b.get_elements().clone()) }.map_err(|e| e.to_string())?,
                };
                for _ in 0..20 {
                    let q = K::query(&mut rng, &spec, b.get_elements());
                    no_panic("search", || drop(ix.search(&q, 10, 5)))?;
                }
                if rng.chance(0.6) {
                    no_panic("reorder", || drop(ix.reorder(false)))?;
                }
                let mut out = Vec::new();
                no_panic("write_elements", || ix.write_elements(&mut out))?.map_err(|e| e.to_string())?;
                index_bytes(&ix)?;
            }
            let again = GranneBuilder::from_file(cfg.build(), &f, b.get_elements().clone()).map_err(|e| e.to_string())?;
            let cap = n + rng.range(1, 400);
            let rw = no_panic("RwGranneBuilder::new", || RwGranneBuilder::new(again, cap, 2))?;
            let items: Vec<K::I> = (0..cap - n + 5).map(|_| K::item(&mut rng, &spec, b.get_elements())).collect();
            std::thread::scope(|s| {
                for part in items.chunks(items.len() / 2 + 1) {
                    let rw = &rw;
                    s.spawn(move || {
                        for i in part {
                            let _ = catch(|| rw.insert(i.clone()));
                        }
                    });
                }
            });
            no_panic("write", || rw.write(&mut Nowhere::default(), &mut Nowhere::default()))?.map_err(|e| e.to_string())?;
            let q = K::query(&mut rng, &spec, b.get_elements());
            no_panic("search", || drop(rw.search(&q, 10, 5)))?;
            Ok(())
        });
        r?;
        peaks = peak;
        after.push(LIVE.load(SeqCst));
    }
    let growth = (after[rounds - 1] - after[1]) as f64 / (rounds - 2) as f64;
    c.ctx.max("KB left behind by one life of an index", growth / 1024.0);
    c.ctx.max("KB in use during one life of an index", peaks as f64 / 1024.0);
    ensure!(growth <= 40.0 * 1024.0, "each life of an index leaves {:.1} KB in use (bytes in use after each: {:?}, at most {} KB during one)", growth / 1024.0, after, peaks / KB);
    let now = descriptors();
    ensure!(now <= fds + 2, "{} file descriptors before, {} after", fds, now);
    tasks_at_most(before).map_err(|e| format!("after {} lives of an index: {}", rounds, e))?;
    c.nontrivial(hash_bytes(c.desc.as_bytes()));
    Ok(())
}

/// nothing done to what was mapped changes the files or what others see
fn files(c: &mut Case) -> Res {
    let mut rng = c.rng.fork();
    let n = rng.range(1, 400);
    let mut cfg = Cfg { expected: None, ..Cfg::random(&mut rng) };
    cfg.ms = cfg.ms.min(10);
    let dim = rng.range(1, 9);
    let spec = Spec::new(&mut rng, dim, Flavor::Uniform);
    c.note(format!("files n={} dim={} {:?}", n, dim, cfg));
    let els = fill::<Sum>(&mut rng, &spec, n);
    let mut b = GranneBuilder::new(cfg.build(), els.clone());
    in_pool(2, || no_panic("build", || b.build()))?;
    let (mut fw, mut fe) = (Vec::new(), Vec::new());
    els.write_embeddings(&mut fw).map_err(|e| e.to_string())?;
    els.write(&mut fe).map_err(|e| e.to_string())?;
    let vecs = fill::<F32>(&mut rng, &spec, n);
    let fv = crate::elems::written(&vecs, "write")?;
    let held = [index_bytes(&b)?, fe, fw, fv];
    let d = Dir::new(c.ctx);
    let names = ["index", "elements", "words", "vectors"];
    for (x, h) in names.iter().zip(&held) {
        std::fs::write(d.p(x), h).map_err(|e| e.to_string())?;
    }
    let writable = rng.chance(0.5);
    let open = |x: &str| std::fs::OpenOptions::new().read(true).write(writable).open(d.p(x)).expect("scratch file");
    let load = || -> Result<SumEmbeddings<'static>, String> { unsafe { SumEmbeddings::from_files(&open("words"), Some(&open("elements"))) }.map_err(|e| e.to_string()) };
    let witness = unsafe { Granne::from_file(&open("index"), load()?) }.map_err(|e| e.to_string())?;
    let want = set_view(&witness);
    for _ in 0..rng.range(1, 4) {
        let extra = rng.range(1, 200);
        match rng.below(4) {
            0 => {
                let mut e = load()?;
                e.push_embedding(&spec.vec(&mut rng));
                for _ in 0..extra {
                    let i = Sum::item(&mut rng, &spec, &els);
                    e.push(i);
                }
                let mut b = GranneBuilder::from_file(cfg.build(), &open("index"), e).map_err(|e| e.to_string())?;
                in_pool(2, || no_panic("build", || b.build()))?;
            }
            1 => {
                let mut ix = unsafe { Granne::from_file(&open("index"), load()?) }.map_err(|e| e.to_string())?;
                no_panic("reorder", || drop(ix.reorder(false)))?;
            }
            2 => {
                let e = load()?;
                let b = GranneBuilder::from_file(cfg.build(), &open("index"), e).map_err(|e| e.to_string())?;
                let rw = no_panic("RwGranneBuilder::new", || RwGranneBuilder::new(b, n + extra, 2))?;
                let items = (0..extra).map(|_| Sum::item(&mut rng, &spec, &els)).collect();
                no_panic("insert", || drop(rw.insert_batch(items)))?;
            }
            _ => {
                let mut v = unsafe { angular::Vectors::from_file(&open("vectors")) }.map_err(|e| e.to_string())?;
                let copy = v.clone();
                v.push(&angular::Vector::from(spec.vec(&mut rng)));
                v.extend(fill::<F32>(&mut rng, &spec, extra));
                ensure!(copy.len() == n && v.len() == n + 1 + extra, "lengths {} and {}", copy.len(), v.len());
                let mut ix = GranneBuilder::new(cfg.build(), v);
                in_pool(2, || no_panic("build", || ix.build()))?;
                let mut ix = ix.get_index().to_owned();
                no_panic("reorder", || drop(ix.reorder(false)))?;
            }
        }
        c.ctx.count("changes_on_top_of_mapped_files", 1);
    }
    for (x, h) in names.iter().zip(&held) {
        let now = std::fs::read(d.p(x)).map_err(|e| e.to_string())?;
        ensure!(&now == h, "the mapped file of {} was changed ({} bytes before, {} now)", x, h.len(), now.len());
    }
    ensure!(set_view(&witness) == want, "an index mapped before has other links now");
    for i in 0..n {
        ensure!(Sum::read(witness.get_elements(), i) == Sum::read(&els, i), "element {} of a collection mapped before is another one now", i);
    }
    drop(witness);
    for x in names {
        let left = mapped(&d.p(x).canonicalize().expect("scratch file"));
        ensure!(left == 0, "the file of {} is still mapped {} times after all that used it is gone", x, left);
    }
    c.nontrivial(hash_bytes(&held[0]));
    Ok(())
}

/// collections over bytes in memory use these bytes; writing them needs next to nothing
fn collections(c: &mut Case) -> Res {
    let mut rng = c.rng.fork();
    let kind = c.idx % 4;
    let (n, dim) = (rng.range(20_000, 60_000), rng.range(8, 40));
    let bytes = match kind {
        0 => codec::encode_f32(&(0..n).map(|_| (0..dim).map(|_| rng.sf()).collect()).collect::<Vec<Vec<f32>>>(), dim),
        1 => codec::encode_i8(&(0..n).map(|_| (0..dim).map(|_| rng.next() as i8).collect()).collect::<Vec<Vec<i8>>>(), dim),
        _ => codec::encode_terms(&(0..n).map(|_| (0..rng.range(1, 9)).map(|_| rng.below(1 << 24)).collect()).collect::<Vec<Vec<usize>>>()),
    };
    c.note(format!("collections kind={} n={} dim={} ({} KB)", kind, n, dim, bytes.len() / KB));
    // aligned as a mapped file is
    let mut store: Vec<u64> = vec![0; bytes.len() / 8 + 1];
    let mem: &mut [u8] = unsafe { std::slice::from_raw_parts_mut(store.as_mut_ptr() as *mut u8, bytes.len()) };
    mem.copy_from_slice(&bytes);
    let mem: &[u8] = mem;
    let most = bytes.len() / 8 + SLACK;
    macro_rules! go {
        ($load:expr, $len:ident, $get:expr) => {{
            let (r, peak, _) = measure(|| no_panic("from_bytes", || $load));
            let v = r?;
            ensure!(v.$len() == n, "{} elements instead of {}", v.$len(), n);
            c.ctx.max("KB of heap to use a collection from bytes", peak as f64 / KB as f64);
            ensure!(peak <= most, "using {} KB of bytes as a collection takes {} KB of heap", bytes.len() / KB, peak / KB);
            let (r, peak, _) = measure(|| -> Res {
                for _ in 0..500 {
                    let i = rng.below(n);
                    no_panic("get", || $get(&v, i))?;
                }
                Ok(())
            });
            r?;
            ensure!(peak <= SLACK, "reading single elements takes {} KB of heap", peak / KB);
            let (r, peak, _) = measure(|| v.write(&mut Nowhere::default()));
            r.map_err(|e| e.to_string())?;
            ensure!(peak <= most, "writing a collection of {} KB takes {} KB of heap", bytes.len() / KB, peak / KB);
            c.ctx.max("KB of heap to write a collection", peak as f64 / KB as f64);
        }};
    }
    match kind {
        0 => go!(angular::Vectors::from_bytes(mem), len, |v: &angular::Vectors, i| {
            v.get_element(i);
        }),
        1 => go!(angular_int::Vectors::from_bytes(mem), len, |v: &angular_int::Vectors, i| {
            v.get_element(i);
        }),
        _ => {
            go!(SumEmbeddings::from_bytes(Default::default(), mem), len, |v: &SumEmbeddings, i| {
                v.get_terms(i);
            })
        }
    }
    c.nontrivial(hash_bytes(&bytes));
    Ok(())
}

/// precomputing vectors goes piece by piece
fn precompute(c: &mut Case) -> Res {
    let mut rng = c.rng.fork();
    let (n, dim, words) = (rng.range(40_000, 90_000), rng.range(40, 120), rng.range(10, 60));
    c.note(format!("precompute n={} dim={} words={}", n, dim, words));
    let d = Dir::new(c.ctx);
    let emb: Vec<Vec<f32>> = (0..words).map(|_| (0..dim).map(|_| rng.sf()).collect()).collect();
    std::fs::write(d.p("emb"), codec::encode_f32(&emb, dim)).unwrap();
    let terms: Vec<Vec<usize>> = (0..n).map(|_| (0..rng.range(1, 4)).map(|_| rng.below(words)).collect()).collect();
    std::fs::write(d.p("elements"), codec::encode_terms(&terms)).unwrap();
    drop(terms);
    let (r, peak, _) = measure(|| no_panic("computing vectors", || granne::embeddings::parsing::compute_embeddings_and_save_to_disk(&d.p("elements"), &d.p("emb"), &d.p("v"), false)));
    r?;
    let len = std::fs::metadata(d.p("v")).map_err(|e| e.to_string())?.len() as usize;
    ensure!(len == 8 + n * dim, "{} bytes written", len);
    c.ctx.max("share of its output that precomputing keeps in memory", peak as f64 / len as f64);
    ensure!(peak <= len / 4 + SLACK, "computing {} KB of vectors takes {} KB of heap", len / KB, peak / KB);
    c.nontrivial(rng.seed());
    Ok(())
}

pub fn run(ctx: &Ctx) {
    ctx.rule("A counting allocator, /proc/self/smaps and /proc/self/fd around each operation, cases one after another. Files of hundreds of MB that are holes but for a small linked part: loading, asking, searching and dropping them. Indexes of some thousand elements: heap while building, borrowing, saving, loading and searching against their size and the distances computed; the concurrent builder likewise; whole lives of an index repeated, comparing the bytes in use after each; files that are mapped compared after work on top of them, and their mappings counted; collections over bytes in memory; precomputing vectors against the size of its output. Non-trivial: every case; distinct: different configuration.");
    // the pool that reordering and building use otherwise starts with the first that needs it
    rayon::join(|| (), || ());
    ctx.cases("huge", ctx.n(30, 600), 1, huge);
    ctx.cases("work", ctx.n(40, 400), 1, |c| match c.idx % 4 {
        0 => work::<F32>(c),
        1 => work::<I8>(c),
        2 => work::<Sum>(c),
        _ => work::<Grid>(c),
    });
    ctx.cases("live", ctx.n(16, 160), 1, |c| match c.idx % 4 {
        0 => live::<F32>(c),
        1 => live::<I8>(c),
        2 => live::<Sum>(c),
        _ => live::<Grid>(c),
    });
    ctx.cases("again", ctx.n(40, 400), 1, |c| match c.idx % 4 {
        0 => again::<F32>(c),
        1 => again::<I8>(c),
        2 => again::<Sum>(c),
        _ => again::<Grid>(c),
    });
    ctx.cases("collections", ctx.n(12, 120), 1, collections);
    ctx.cases("precompute", ctx.n(4, 40), 1, precompute);
    ctx.cases("files", ctx.n(300, 4000), ctx.workers, files);
}
