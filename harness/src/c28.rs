//! C28: searches, inserts and saves go on side by side, none is starved, and work given several
//! threads runs on them.
//!
//! A gate inside the distance function of the collection (or inside the destination of a save) stops
//! an operation at a chosen point. What other threads then do has to complete while the gate is shut.
use crate::any_kind;
use crate::ensure;
use crate::gen::*;
use crate::graph::*;
use crate::kinds::*;
use crate::util::*;
use granne::{Builder, ElementContainer, ExtendableElementContainer, Granne, GranneBuilder, Index, Permutable, RwGranneBuilder, Writeable};
use ordered_float::NotNan;
use std::io::{Cursor, Seek, SeekFrom, Write};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::mpsc::{channel, RecvTimeoutError};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

/// how long an operation may take that nothing should hold up
const LIMIT: Duration = Duration::from_secs(45);
/// see `go_on`
const STEPS: u64 = 3000;
/// a starved operation: nothing for this long, while others completed this many
const STARVED: (Duration, u64) = (Duration::from_secs(20), 2000);

/// operations found blocked or starved: a few tell enough, each takes long
static FOUND: AtomicUsize = AtomicUsize::new(0);
fn enough(r: Res) -> Res {
    if r.is_err() {
        FOUND.fetch_add(1, SeqCst);
    }
    r
}
fn skip() -> bool {
    FOUND.load(SeqCst) >= 4
}

thread_local! {
    /// threads that gates let pass
    static FREE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

#[derive(Default)]
struct GateState {
    skip: u64,
    /// stopped calls that may go on
    tickets: u64,
    arrived: usize,
    open: bool,
}

#[derive(Default)]
struct Gate {
    armed: AtomicBool,
    st: Mutex<GateState>,
    cv: Condvar,
}

impl Gate {
    fn arm(&self, skip: u64) {
        *self.st.lock().unwrap() = GateState { skip, ..Default::default() };
        self.armed.store(true, SeqCst);
    }
    fn open(&self) {
        self.armed.store(false, SeqCst);
        self.st.lock().unwrap().open = true;
        self.cv.notify_all();
    }
    /// lets one stopped call go on (to the next)
    fn step(&self) {
        self.st.lock().unwrap().tickets = 1;
        self.cv.notify_all();
    }
    fn arrived(&self) -> usize {
        self.st.lock().unwrap().arrived
    }
    fn pass(&self) {
        if !self.armed.load(SeqCst) || FREE.with(|f| f.get()) {
            return;
        }
        let mut s = self.st.lock().unwrap();
        if s.skip > 0 {
            s.skip -= 1;
            return;
        }
        s.arrived += 1;
        let t = Instant::now();
        // short waits: a thread stopped here is no deadlock
        while !s.open && t.elapsed() < 4 * LIMIT {
            if s.tickets > 0 {
                s.tickets -= 1;
                return;
            }
            s = self.cv.wait_timeout(s, Duration::from_millis(100)).unwrap().0;
        }
    }
}

/// opens the gate however a case ends
struct Opens<'a>(&'a Gate);
impl Drop for Opens<'_> {
    fn drop(&mut self) {
        self.0.open()
    }
}

/// how many threads compute distances at the same time
#[derive(Default)]
struct Meet {
    /// meet this many (0: off)
    want: AtomicUsize,
    now: AtomicUsize,
    peak: AtomicUsize,
    waits: AtomicU64,
}
impl Meet {
    fn enter(&self) {
        let want = self.want.load(SeqCst);
        if want == 0 {
            return;
        }
        let k = self.now.fetch_add(1, SeqCst) + 1;
        if k > want || self.waits.load(SeqCst) < 1500 {
            // (a meeting in a later, unlike part of the work does not count)
            self.peak.fetch_max(k, SeqCst);
        }
        if self.peak.load(SeqCst) < want && self.waits.fetch_add(1, SeqCst) < 1500 {
            let t = Instant::now();
            while self.peak.load(SeqCst) < want && t.elapsed() < Duration::from_millis(10) {
                std::thread::sleep(Duration::from_micros(100));
            }
        }
    }
    fn leave(&self) {
        if self.want.load(SeqCst) != 0 {
            self.now.fetch_sub(1, SeqCst);
        }
    }
}

#[derive(Default)]
struct Probe {
    gate: Gate,
    meet: Meet,
    /// microseconds to sleep in some of the calls
    slow: AtomicU64,
    calls: AtomicU64,
}
impl Probe {
    fn with<T>(&self, f: impl FnOnce() -> T) -> T {
        self.gate.pass();
        let s = self.slow.load(SeqCst);
        if s > 0 && self.calls.fetch_add(1, SeqCst) % 8 == 0 {
            std::thread::sleep(Duration::from_micros(s));
        }
        self.meet.enter();
        let r = f();
        self.meet.leave();
        r
    }
}

#[derive(Clone)]
struct Gated<C> {
    inner: C,
    p: Arc<Probe>,
}
impl<C: ElementContainer> ElementContainer for Gated<C> {
    type Element = C::Element;
    fn get(&self, i: usize) -> C::Element {
        self.inner.get(i)
    }
    fn len(&self) -> usize {
        self.inner.len()
    }
    fn dist_to_element(&self, i: usize, e: &C::Element) -> NotNan<f32> {
        self.p.with(|| self.inner.dist_to_element(i, e))
    }
    fn dist(&self, i: usize, j: usize) -> NotNan<f32> {
        self.p.with(|| self.inner.dist(i, j))
    }
    fn dists(&self, i: usize, o: &[usize]) -> Vec<NotNan<f32>> {
        self.p.with(|| self.inner.dists(i, o))
    }
}
impl<C: ExtendableElementContainer> ExtendableElementContainer for Gated<C> {
    type InternalElement = C::InternalElement;
    fn push(&mut self, e: Self::InternalElement) {
        self.inner.push(e)
    }
}
impl<C: Permutable> Permutable for Gated<C> {
    fn permute(&mut self, p: &[usize]) {
        self.inner.permute(p)
    }
}
impl<C: Writeable> Writeable for Gated<C> {
    fn write<B: Write>(&self, b: &mut B) -> std::io::Result<usize> {
        self.inner.write(b)
    }
}

/// a destination with a gate
struct GatedFile<'a>(Cursor<Vec<u8>>, &'a Gate, usize);
impl Write for GatedFile<'_> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.1.pass();
        self.0.write(&b[..b.len().min(self.2)])
    }
    fn flush(&mut self) -> std::io::Result<()> {
        self.1.pass();
        self.0.flush()
    }
}
impl Seek for GatedFile<'_> {
    fn seek(&mut self, s: SeekFrom) -> std::io::Result<u64> {
        self.1.pass();
        self.0.seek(s)
    }
}

/// Runs the operations in one thread that no gate stops. Each has to complete.
///
/// `steps`: the stopped operation may hold a lock on one list of neighbors for the distances needed to
/// limit that list. If something waits, let the stopped operation do `STEPS` further distance
/// computations, one by one: many more than that takes, unless it ends (then nothing is known).
fn go_on<'e>(c: &Case, while_: &str, ops: Vec<(String, Box<dyn FnOnce() -> Res + Send + 'e>)>, opens: &Gate, steps: Option<&AtomicBool>) -> Res {
    let names: Vec<String> = ops.iter().map(|o| o.0.clone()).collect();
    let r = std::thread::scope(|s| {
        let (tx, rx) = channel();
        let h = s.spawn(move || {
            FREE.with(|f| f.set(true));
            for (n, op) in ops {
                let r = op().map_err(|e| format!("{}: {}", n, e));
                if tx.send(r).is_err() {
                    break;
                }
            }
        });
        let mut res = Ok(());
        for n in &names {
            let mut got = rx.recv_timeout(if steps.is_some() { Duration::from_millis(300) } else { LIMIT });
            if let Some(done) = steps {
                let mut k = 0;
                while matches!(got, Err(RecvTimeoutError::Timeout)) && k < STEPS && !done.load(SeqCst) {
                    opens.step();
                    k += 1;
                    got = rx.recv_timeout(Duration::from_millis(7));
                }
                if k > 0 {
                    c.count("waits_for_a_list_of_neighbors", 1);
                    c.ctx.max("steps_until_a_list_was_free", k as f64);
                }
                if matches!(got, Err(RecvTimeoutError::Timeout)) && done.load(SeqCst) {
                    c.count("stopped_operation_ended_before_the_answer", 1);
                    got = rx.recv_timeout(LIMIT);
                }
            }
            match got {
                Ok(Ok(())) => c.count("operations_completed_beside_a_stopped_one", 1),
                Ok(Err(e)) => {
                    res = Err(e);
                    break;
                }
                Err(RecvTimeoutError::Timeout) => {
                    res = Err(format!("BLOCKED: {} does not complete {}", n, while_));
                    break;
                }
                Err(RecvTimeoutError::Disconnected) => break,
            }
        }
        if res.is_err() {
            opens.open();
        }
        drop(rx);
        join(h);
        res
    });
    r.map_err(|e| format!("{} ({})", e, while_))
}

/// waits until the gate has stopped somebody, or `done`
fn stopped(g: &Gate, done: &AtomicBool) -> bool {
    loop {
        if g.arrived() > 0 {
            return true;
        }
        if done.load(SeqCst) {
            return g.arrived() > 0;
        }
        std::thread::sleep(Duration::from_micros(200));
    }
}

struct Done<'a>(&'a AtomicBool);
impl Drop for Done<'_> {
    fn drop(&mut self) {
        self.0.store(true, SeqCst)
    }
}

type Rw<K> = RwGranneBuilder<Gated<<K as Kind>::C>>;

struct World<K: Kind> {
    rw: Rw<K>,
    items: Vec<K::I>,
    extra: Vec<K::I>,
    queries: Vec<K::E>,
    p: Arc<Probe>,
    desc: String,
    ms: usize,
}

fn world<K: Kind>(rng: &mut Rng, threads: usize, n: usize, extra: usize, max: usize) -> Result<World<K>, String> {
    let dim = *rng.pick(&[2usize, 3, 8, 17]);
    let flavor = *rng.pick(PLAIN);
    let spec = Spec::new(rng, dim, flavor);
    let mut cfg = Cfg::random(rng);
    cfg.nn = cfg.nn.clamp(4, 10);
    cfg.reinsert = false;
    let base = K::empty(rng, &spec);
    let items: Vec<K::I> = (0..n).map(|_| K::item(rng, &spec, &base)).collect();
    let extra: Vec<K::I> = (0..extra).map(|_| K::item(rng, &spec, &base)).collect();
    let p = Arc::new(Probe::default());
    let pre = rng.below(n + 1);
    let mut els = Gated { inner: base.clone(), p: p.clone() };
    for i in &items[..pre] {
        els.push(i.clone());
    }
    let desc = format!("{} n={} ({} first) max={} dim={} {:?} threads={}", K::NAME, n, pre, max, dim, cfg, threads);
    let rw = no_panic("creating the builder", || RwGranneBuilder::new(GranneBuilder::new(cfg.build(), els), max, threads))?;
    for ch in items[pre..].chunks(50) {
        no_panic("insert_batch", || rw.insert_batch(ch.to_vec()))?;
    }
    let filled = rw.get_elements().inner.clone();
    let queries = (0..8).map(|_| K::query(rng, &spec, &filled)).collect();
    let ms = rng.range(1, 60);
    Ok(World { rw, items, extra, queries, p, desc, ms })
}

/// the reading operations of a concurrent builder
fn readers<'e, K: Kind>(rng: &mut Rng, w: &'e World<K>, how_many: usize) -> Vec<(String, Box<dyn FnOnce() -> Res + Send + 'e>)> {
    let n = w.items.len();
    let mut v: Vec<(String, Box<dyn FnOnce() -> Res + Send + 'e>)> = Vec::new();
    for _ in 0..how_many {
        let i = rng.below(n);
        let q = &w.queries[rng.below(w.queries.len())];
        let k = rng.range(1, 12);
        match rng.below(6) {
            0 => v.push((
                "len".into(),
                Box::new(move || {
                    let l = w.rw.len();
                    ensure!(l >= n && l <= n + w.extra.len(), "the length is {} with {} elements inserted before", l, n);
                    ensure!(!w.rw.is_empty(), "is_empty");
                    Ok(())
                }),
            )),
            1 => v.push((
                "get_element".into(),
                Box::new(move || {
                    let _ = w.rw.get_element(i);
                    Ok(())
                }),
            )),
            2 => v.push((
                "get_elements".into(),
                Box::new(move || {
                    let g = w.rw.get_elements();
                    ensure!(K::read(&g.inner, i) == K::ikey(&w.items[i]), "element {} differs", i);
                    Ok(())
                }),
            )),
            _ => v.push((
                "search".into(),
                Box::new(move || {
                    let r = w.rw.search(q, w.ms, k);
                    ensure!(!r.is_empty(), "a search in {} elements returns nothing", n);
                    let g = w.rw.get_elements();
                    valid_result(&g.inner, g.len(), q, w.ms, k, &r)
                }),
            )),
        }
    }
    v
}

fn saver<'e, K: Kind>(w: &'e World<K>) -> (String, Box<dyn FnOnce() -> Res + Send + 'e>) {
    (
        "save".into(),
        Box::new(move || {
            let (mut a, mut b) = (Cursor::new(Vec::new()), Vec::new());
            w.rw.write(&mut a, &mut b).map_err(|e| e.to_string())?;
            ensure!(!a.get_ref().is_empty() && !b.is_empty(), "nothing written");
            Ok(())
        }),
    )
}

// ---------------------------------------------------------------- A: an insert stopped while linking
fn beside_insert<K: Kind>(c: &mut Case) -> Res {
    let mut rng = c.rng.fork();
    let threads = *rng.pick(&[1usize, 1, 2, 4]);
    let n = *rng.pick(&[1usize, 2, 5, 20, 60, 150, 300]);
    let batch = *rng.pick(&[1usize, 1, 2, 5, 20, 120, 400]);
    let max = n + batch + *rng.pick(&[0usize, 1, 100, 5000]);
    let w = world::<K>(&mut rng, threads, n, batch, max)?;
    let skip = {
        let k = *rng.pick(&[1usize, 5, 60, 1500]);
        rng.below(k)
    } as u64;
    c.note(format!("{} batch={} stop after {}", w.desc, batch, skip));
    let g = &w.p.gate;
    let done = AtomicBool::new(false);
    let hit = std::thread::scope(|s| {
        let _o = Opens(g);
        g.arm(skip);
        let h = s.spawn(|| {
            let _d = Done(&done);
            no_panic("insert_batch", || w.rw.insert_batch(w.extra.clone()))
        });
        let hit = stopped(g, &done);
        if hit {
            let ops = readers(&mut rng, &w, 12);
            go_on(c, "while another thread's insert is linking", ops, g, Some(&done))?;
        }
        g.open();
        let ids = join(h)?;
        ensure!(ids == (n..n + batch).collect::<Vec<_>>(), "the batch got the ids {:?}", ids);
        Ok::<bool, String>(hit)
    })?;
    let ops = readers(&mut rng, &w, 4);
    go_on(c, "after the insert", ops, g, None)?;
    if hit {
        c.count("inserts_stopped_while_linking", 1);
        c.nontrivial(hash_bytes(c.desc.as_bytes()));
    }
    Ok(())
}

// ---------------------------------------------------------------- B: a save stopped at its destination
fn beside_save<K: Kind>(c: &mut Case) -> Res {
    let mut rng = c.rng.fork();
    let threads = *rng.pick(&[1usize, 1, 2, 4]);
    let n = *rng.pick(&[1usize, 5, 20, 60, 150, 300]);
    let w = world::<K>(&mut rng, threads, n, 10, n + [10, 50, 200][c.idx as usize % 3])?;
    let index = rng.chance(0.5);
    let waiting = rng.chance(0.5);
    let skip = {
        let k = *rng.pick(&[1usize, 3, 20, 200]);
        rng.below(k)
    } as u64;
    let piece = *rng.pick(&[7usize, 100, usize::MAX]);
    c.note(format!("{} the {} stops after {} insert waiting={}", w.desc, if index { "index" } else { "elements" }, skip, waiting));
    let (g, open_gate) = (Gate::default(), Gate::default());
    open_gate.open();
    let done = AtomicBool::new(false);
    let hit = std::thread::scope(|s| {
        let _o = Opens(&g);
        g.arm(skip);
        let h = s.spawn(|| {
            let _d = Done(&done);
            let mut a = GatedFile(Cursor::new(Vec::new()), if index { &g } else { &open_gate }, piece);
            let mut b = GatedFile(Cursor::new(Vec::new()), if index { &open_gate } else { &g }, piece);
            let r = no_panic("write", || w.rw.write(&mut a, &mut b));
            r.map(|r| (r.map_err(|e| e.to_string()), a.0.into_inner(), b.0.into_inner()))
        });
        let hit = stopped(&g, &done);
        let mut ins = None;
        if hit {
            if waiting {
                ins = Some(s.spawn(|| no_panic("insert_batch", || w.rw.insert_batch(w.extra.clone()))));
                // it may or may not get as far as waiting for the save: both are fine
                std::thread::sleep(Duration::from_millis(rng.below(30) as u64));
            }
            let ops = readers(&mut rng, &w, 12);
            go_on(c, if waiting { "while a save is being written and an insert waits for it" } else { "while a save is being written" }, ops, &g, None)?;
        }
        g.open();
        let (r, a, b) = join(h)?;
        r.map_err(|e| format!("the save failed: {}", e))?;
        if let Some(i) = ins {
            let ids = join(i)?;
            ensure!(ids == (n..n + 10).collect::<Vec<_>>(), "the waiting batch got the ids {:?}", ids);
        }
        // what was saved is the state before the insert
        let els = Gated { inner: K::reload(&w.rw.get_elements().inner, &b), p: w.p.clone() };
        ensure!(els.len() == n, "{} elements saved, {} were there when the save began", els.len(), n);
        let ix = Granne::from_bytes(&a, &els);
        ensure!(ix.len() == n, "{} elements in the saved index, {} were there when the save began", ix.len(), n);
        Ok::<bool, String>(hit)
    })?;
    if hit {
        c.count("saves_stopped", 1);
        c.nontrivial(hash_bytes(c.desc.as_bytes()));
    }
    Ok(())
}

// ---------------------------------------------------------------- C: a search stopped
fn beside_search<K: Kind>(c: &mut Case) -> Res {
    let mut rng = c.rng.fork();
    let n = *rng.pick(&[5usize, 20, 60, 150, 300]);
    let w = world::<K>(&mut rng, [1usize, 2, 4][c.idx as usize % 3], n, 5, n + 100)?;
    let skip0 = rng.below(55);
    // another concurrent builder, and an ordinary builder with the same kind of elements
    let w2 = world::<K>(&mut rng, 1 + c.idx as usize % 2, 5 + skip0, 30, 200)?;
    let (mut a, mut b) = (Cursor::new(Vec::new()), Vec::new());
    w.rw.write(&mut a, &mut b).map_err(|e| e.to_string())?;
    let bytes = a.into_inner();
    let els = w.rw.get_elements().clone();
    let file = temp_file(c.ctx, &bytes);
    let owned = unsafe { Granne::from_file(&file, els.clone()) }.map_err(|e| e.to_string())?;
    let mapped = Granne::from_bytes(&bytes, &els);
    let mut builder = {
        let mut cfg = Cfg::random(&mut rng);
        cfg.nn = cfg.nn.max(4);
        GranneBuilder::new(cfg.build(), els.clone())
    };
    in_pool(2, || builder.build());
    let at = rng.below(5);
    let skip = {
        let k = *rng.pick(&[1usize, 3, 8, 30]);
        rng.below(k)
    } as u64;
    c.note(format!("{} search stopped in {} after {}", w.desc, at, skip));
    let g = &w.p.gate;
    let done = AtomicBool::new(false);
    let q0 = &w.queries[0];
    let (owned, mapped, builder, w, w2, els, bytes) = (&owned, &mapped, &builder, &w, &w2, &els, &bytes);
    let hit = std::thread::scope(|s| {
        let _o = Opens(g);
        g.arm(skip);
        let done = &done;
        let h = s.spawn(move || {
            let _d = Done(done);
            no_panic("search", || match at {
                0 => w.rw.search(q0, w.ms, 10),
                1 => owned.search(q0, w.ms, 10),
                2 => mapped.search(q0, w.ms, 10),
                3 => builder.get_index().search(q0, w.ms, 10),
                _ => {
                    // rebuilding another index stops here as well
                    let mut b = GranneBuilder::new(Cfg::random(&mut Rng::new(skip, "b", n as u64)).build(), els.clone());
                    in_pool(2, || b.build_partial(n));
                    b.get_index().search(q0, w.ms, 10)
                }
            })
        });
        let hit = stopped(g, done);
        if hit {
            let mut ops = readers(&mut rng, w, 5);
            ops.push(saver(w));
            let valid = move |r: Vec<(usize, f32)>, q: &K::E| valid_result(&els.inner, n, q, w.ms, 10, &r);
            for q in &w.queries[..3] {
                ops.push(("search of a loaded index".into(), Box::new(move || valid(owned.search(q, w.ms, 10), q))));
                ops.push(("search of an index in memory".into(), Box::new(move || valid(mapped.search(q, w.ms, 10), q))));
                ops.push(("search of the index of a builder".into(), Box::new(move || valid(builder.get_index().search(q, w.ms, 10), q))));
            }
            ops.push((
                "get_neighbors".into(),
                Box::new(move || {
                    for l in 0..mapped.num_layers() {
                        for i in 0..mapped.layer_len(l).min(50) {
                            ensure!(owned.get_neighbors(i, l).len() == mapped.get_neighbors(i, l).len(), "different neighbors");
                        }
                    }
                    Ok(())
                }),
            ));
            ops.push((
                "write_index".into(),
                Box::new(move || {
                    let mut o = Cursor::new(Vec::new());
                    owned.write_index(&mut o).map_err(|e| e.to_string())?;
                    builder.write_index(&mut Cursor::new(Vec::new())).map_err(|e| e.to_string())?;
                    ensure!(&o.into_inner() == bytes, "a loaded index is written back differently");
                    Ok(())
                }),
            ));
            ops.extend(readers(&mut rng, w2, 4));
            // what the gate of the other builder lets through
            ops.push((
                "insert into another builder".into(),
                Box::new(move || {
                    let ids = w2.rw.insert_batch(w2.extra.clone());
                    ensure!(ids.len() == 30, "{} inserted", ids.len());
                    Ok(())
                }),
            ));
            ops.push(saver(w2));
            ops.push((
                "building another index".into(),
                Box::new(move || {
                    let e = w2.rw.get_elements().clone();
                    let mut b = GranneBuilder::new(Default::default(), e);
                    in_pool(2, || b.build());
                    ensure!(b.len() == w2.rw.len(), "{} indexed", b.len());
                    Ok(())
                }),
            ));
            go_on(c, "while another thread computes a distance in a search or a build", ops, g, None)?;
        }
        g.open();
        let r = join(h)?;
        valid_result(&els.inner, n, q0, w.ms, 10, &r)?;
        Ok::<bool, String>(hit)
    })?;
    if hit {
        c.count("searches_stopped", 1);
        c.nontrivial(hash_bytes(c.desc.as_bytes()));
    }
    Ok(())
}

// ---------------------------------------------------------------- D: the threads given are used
fn threads<K: Kind>(c: &mut Case) -> Res {
    let mut rng = c.rng.fork();
    let k = *rng.pick(&[1usize, 2, 3, 4, 6, 8]);
    let rw = rng.chance(0.5);
    let max = 2000;
    let p;
    let len;
    if rw {
        let n = *rng.pick(&[5usize, 60, 300]);
        let w = world::<K>(&mut rng, k, n, 300, max)?;
        c.note(format!("{} 300 more", w.desc));
        w.p.meet.want.store(k, SeqCst);
        // all of it fits in few layers: at least one part of the batch is large
        no_panic("insert_batch", || w.rw.insert_batch(w.extra.clone()))?;
        len = w.rw.len();
        p = w.p.clone();
        ensure!(len == n + 300, "{} elements", len);
    } else {
        let flavor = *rng.pick(PLAIN);
        let spec = Spec::new(&mut rng, 8, flavor);
        let n = rng.range(400, 900);
        let mut cfg = Cfg::random(&mut rng);
        cfg.nn = cfg.nn.max(4);
        cfg.ms = cfg.ms.min(20);
        let probe = Arc::new(Probe::default());
        let els = Gated { inner: fill::<K>(&mut rng, &spec, n), p: probe.clone() };
        let mut b = GranneBuilder::new(cfg.build(), els);
        c.note(format!("{} build n={} {:?} threads={}", K::NAME, n, cfg, k));
        probe.meet.want.store(k, SeqCst);
        in_pool(k, || no_panic("build", || b.build()))?;
        len = b.len();
        p = probe;
        ensure!(len == n, "{} elements", len);
    }
    let peak = p.meet.peak.load(SeqCst);
    ensure!(peak >= k, "THREADS: at most {} of the {} threads of the pool ever computed distances at the same time", peak, k);
    ensure!(peak <= k, "THREADS: {} threads computed distances at the same time in a pool of {}", peak, k);
    c.count("thread_meetings", 1);
    c.ctx.max("threads_at_work_at_once", peak as f64);
    c.nontrivial(hash_bytes(c.desc.as_bytes()));
    Ok(())
}

// ---------------------------------------------------------------- E: nobody is starved
fn starved<K: Kind>(c: &mut Case) -> Res {
    let mut rng = c.rng.fork();
    let what = c.idx as usize % 4;
    let n = rng.range(50, 150);
    let w = world::<K>(&mut rng, 1, n, 64, if what == 2 { n + 5000 } else { 2_000_000 })?;
    let slow = *rng.pick(&[50u64, 200, 500]);
    w.p.slow.store(slow, SeqCst);
    // what keeps going, and what has to get its turn
    let (busy, name, writers) = match what {
        0 => (28, "a save beside threads that keep inserting", true),
        1 => (10, "an insert beside threads that keep searching", false),
        2 => (4, "an insert beside threads that keep saving", false),
        _ => (12, "a search beside threads that keep inserting and saving", true),
    };
    c.note(format!("{} {} ({} threads, {} us)", w.desc, name, busy, slow));
    let (stop, ops) = (AtomicBool::new(false), AtomicU64::new(0));
    let turn_done = AtomicU64::new(0);
    let started = AtomicUsize::new(0);
    let turns = 5u64;
    let wr = &w;
    let r = std::thread::scope(|s| {
        struct Stop<'a>(&'a AtomicBool);
        impl Drop for Stop<'_> {
            fn drop(&mut self) {
                self.0.store(true, SeqCst)
            }
        }
        let _st = Stop(&stop);
        for t in 0..busy {
            let (stop, ops, started) = (&stop, &ops, &started);
            let mut rng = rng.fork();
            s.spawn(move || {
                started.fetch_add(1, SeqCst);
                while !stop.load(SeqCst) {
                    match (what, t) {
                        (1, _) => drop(wr.rw.search(rng.pick(&wr.queries), 40, 5)),
                        (2, _) | (3, 0) | (3, 1) => drop(wr.rw.write(Cursor::new(Vec::new()), Vec::new())),
                        _ => drop(wr.rw.insert(rng.pick(&wr.extra).clone())),
                    }
                    ops.fetch_add(1, SeqCst);
                }
            });
        }
        while started.load(SeqCst) < busy {
            std::thread::sleep(Duration::from_millis(1));
        }
        std::thread::sleep(Duration::from_millis(rng.below(30) as u64));
        let (td, stopp) = (&turn_done, &stop);
        let q = wr.queries[0].clone();
        let item = wr.extra[0].clone();
        let h = s.spawn(move || -> Res {
            for _ in 0..turns {
                if stopp.load(SeqCst) {
                    break;
                }
                match what {
                    0 => wr.rw.write(Cursor::new(Vec::new()), Vec::new()).map_err(|e| e.to_string())?,
                    3 => ensure!(!wr.rw.search(&q, 20, 5).is_empty(), "nothing found"),
                    _ => ensure!(wr.rw.insert(item.clone()).is_some(), "nothing inserted"),
                }
                td.fetch_add(1, SeqCst);
            }
            Ok(())
        });
        let mut at = (0, Instant::now(), ops.load(SeqCst));
        let res = loop {
            let d = turn_done.load(SeqCst);
            if d >= turns || h.is_finished() {
                break Ok(());
            }
            if d != at.0 {
                at = (d, Instant::now(), ops.load(SeqCst));
            }
            let others = ops.load(SeqCst) - at.2;
            if at.1.elapsed() > STARVED.0 && others > STARVED.1 {
                break Err(format!("STARVED: {}: nothing for {:?} in which the others completed {} operations", name, at.1.elapsed(), others));
            }
            std::thread::sleep(Duration::from_millis(1));
        };
        stop.store(true, SeqCst);
        let r: Res = join(h);
        c.ctx.max("busy_operations_per_turn", (ops.load(SeqCst) / turns) as f64);
        res.and(r)
    });
    w.p.slow.store(0, SeqCst);
    r?;
    c.count("turns_beside_busy_threads", turns);
    c.count("operations_of_busy_threads", ops.load(SeqCst));
    c.nontrivial(hash_bytes(c.desc.as_bytes()));
    Ok(())
}

pub fn run(ctx: &Ctx) {
    ctx.rule("An operation is stopped inside a distance computation (an insert while linking, a search, a build) or at its destination (a save). Other threads' reads, searches and, beside a search, saves and inserts elsewhere must complete while it is stopped.");
    ctx.rule("The threads of a pool must be seen computing distances all at the same time, and never more than these; an operation among threads that keep doing others must complete before these have done 2000 and 20 s passed.");
    ctx.cases("insert", ctx.n(160, 3000), ctx.workers, |c| if skip() { Ok(()) } else { enough(any_kind!(c.rng, beside_insert, c)) });
    ctx.cases("save", ctx.n(120, 2000), ctx.workers, |c| if skip() { Ok(()) } else { enough(any_kind!(c.rng, beside_save, c)) });
    ctx.cases("search", ctx.n(100, 2000), ctx.workers, |c| if skip() { Ok(()) } else { enough(any_kind!(c.rng, beside_search, c)) });
    ctx.cases("threads", ctx.n(60, 800), 2, |c| if skip() { Ok(()) } else { enough(any_kind!(c.rng, threads, c)) });
    ctx.cases("starved", ctx.n(24, 300), 2, |c| if skip() { Ok(()) } else { enough(any_kind!(c.rng, starved, c)) });
}
