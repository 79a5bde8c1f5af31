//! The concurrent builder: recorded histories of inserts, searches, reads and saves, and the
//! oracles of C11 (ids and capacity), C12 (searches), C13 (snapshots).
use crate::elems::written;
use crate::ensure;
use crate::gen::*;
use crate::graph::*;
use crate::kinds::*;
use crate::util::*;
use granne::{Builder, ElementContainer, ExtendableElementContainer, Granne, GranneBuilder, Index, RwGranneBuilder};
use std::io::Cursor;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Barrier, Mutex};

#[derive(Debug, Clone)]
pub struct Plan {
    pub cfg: Cfg,
    pub dim: usize,
    pub flavor: Flavor,
    pub cap: usize,
    pub prefill: usize,
    pub pool: usize,
    /// callers are workers of a pool of this size (0: plain threads)
    pub workers: usize,
    /// per writer: sizes of its operations, 0 is a single insert
    pub writers: Vec<Vec<usize>>,
    pub searchers: usize,
    pub readers: usize,
    pub savers: usize,
    pub exhaustive: bool,
    /// searches per searcher at most
    pub ops: usize,
}

impl Plan {
    pub fn items(&self) -> usize {
        self.prefill + count_items(&self.writers)
    }
    pub fn describe(&self) -> String {
        format!(
            "cap={} prefill={} pool={} callers={} writers={:?} searchers={} readers={} savers={} dim={} {:?} {:?}",
            self.cap,
            self.prefill,
            self.pool,
            if self.workers > 0 { format!("{} pool workers", self.workers) } else { "threads".into() },
            self.writers.iter().map(|w| w.iter().take(8).collect::<Vec<_>>()).collect::<Vec<_>>(),
            self.searchers,
            self.readers,
            self.savers,
            self.dim,
            self.flavor,
            self.cfg
        )
    }
    /// operations of `w` writers inserting `n` elements in total
    pub fn spread(rng: &mut Rng, n: usize, w: usize, cap: usize) -> Vec<Vec<usize>> {
        let mut out = vec![Vec::new(); w];
        let mut left = n;
        let style = rng.below(4);
        while left > 0 {
            let k = match (style, rng.below(6)) {
                (0, _) | (_, 0) => 0,
                (1, _) => rng.range(1, 5),
                (_, 1) => rng.range(1, left),
                (_, 2) => cap.max(1),
                _ => rng.range(1, 20),
            }
            .min(left);
            left -= k.max(1);
            let i = rng.below(w);
            out[i].push(k);
            if rng.chance(0.03) {
                out[i].push(usize::MAX); // an empty batch
            }
        }
        for o in &mut out {
            o.iter_mut().for_each(|x| if *x == usize::MAX { *x = EMPTY });
        }
        out
    }
}
/// marks an empty batch in a plan
const EMPTY: usize = usize::MAX;

#[derive(Debug)]
pub enum What<E> {
    Insert { first: usize, n: usize, single: bool, ids: Vec<usize> },
    Len(usize, bool),
    Get { id: usize, key: Vec<u8> },
    Search { q: E, ms: usize, k: usize, res: Vec<(usize, f32)>, own: Option<usize> },
    Save { index: Vec<u8>, elements: Vec<u8>, files: bool },
}
pub struct Op<E> {
    pub s: u64,
    pub e: u64,
    pub thread: usize,
    pub what: What<E>,
}

pub struct History<K: Kind> {
    pub plan: Plan,
    pub items: Vec<Vec<u8>>,
    pub raw: Vec<K::I>,
    pub ops: Vec<Op<K::E>>,
    pub rw: Arc<RwGranneBuilder<K::C>>,
    pub els: K::C,
    pub spec: Spec,
    pub empty: K::C,
}

fn count_items(w: &[Vec<usize>]) -> usize {
    w.iter().flatten().map(|&k| if k == EMPTY { 0 } else { k.max(1) }).sum()
}

/// near-duplicates and zero vectors may legitimately stay unlinked
pub fn separated<C: ElementContainer>(els: &C) -> bool {
    for i in 0..els.len() {
        for j in 0..i {
            if els.dist(i, j).into_inner() < 1e-4 {
                return false;
            }
        }
        if els.dist(i, i).into_inner() > 1e-6 {
            return false;
        }
    }
    true
}

/// Runs the plan. `None`: the generated data is not usable for an exhaustive check.
pub fn execute<K: Kind>(c: &Case, rng: &mut Rng, plan: &Plan, words: usize) -> Result<Option<History<K>>, String> {
    #[cfg(feature = "shim")]
    parking_lot::shim::set(*rng.pick(&[0, 3, 10, 40, 300]), rng.seed());
    let spec = Spec::new(rng, plan.dim, plan.flavor);
    let empty = if words > 0 { K::empty_large(rng, &spec, words) } else { K::empty(rng, &spec) };
    let total = plan.prefill + count_items(&plan.writers);
    let items: Vec<K::I> = (0..total).map(|_| K::item(rng, &spec, &empty)).collect();
    if plan.exhaustive {
        let mut all = empty.clone();
        items.iter().for_each(|i| all.push(i.clone()));
        if !separated(&all) {
            return Ok(None);
        }
    }
    let mut pre = empty.clone();
    items[..plan.prefill].iter().for_each(|i| pre.push(i.clone()));
    let mut b = GranneBuilder::new(plan.cfg.build(), pre);
    match rng.below(3) {
        0 => no_panic("building", || b.build())?,
        1 => no_panic("building", || b.build_partial(plan.prefill / 2))?,
        _ => {}
    }
    let (cap, pool) = (plan.cap, plan.pool);
    let rw = no_panic("RwGranneBuilder::new", || RwGranneBuilder::new(b, cap, pool))?;
    let rw = Arc::new(rw);
    let clock = Arc::new(AtomicU64::new(1));
    let writing = Arc::new(AtomicUsize::new(plan.writers.len()));
    let failed: Arc<Mutex<Option<String>>> = Arc::new(Mutex::new(None));
    let logs: Arc<Mutex<Vec<Op<K::E>>>> = Arc::new(Mutex::new(Vec::new()));
    let actors = plan.writers.len() + plan.searchers + plan.readers + plan.savers;
    let plain = plan.workers == 0;
    let go = Arc::new(Barrier::new(if plain { actors } else { 1 }));
    let dir = if plan.savers > 0 && rng.chance(0.3) { Some(Dir::new(c.ctx)) } else { None };

    type Act<'a> = Box<dyn FnOnce() + Send + 'a>;
    let mut acts: Vec<Act<'_>> = Vec::new();
    let mut first = plan.prefill;
    let mut thread = 0;
    for w in &plan.writers {
        let (rw, clock, writing, failed, logs, go) = (rw.clone(), clock.clone(), writing.clone(), failed.clone(), logs.clone(), go.clone());
        let (items, empty) = (&items, &empty);
        let (start, t) = (first, thread);
        first += count_items(std::slice::from_ref(w));
        thread += 1;
        let mut r = rng.fork();
        acts.push(Box::new(move || {
            let mut log = Vec::new();
            let mut at = start;
            go.wait();
            let res = catch(|| {
                for &k in w {
                    let n = if k == EMPTY { 0 } else { k.max(1) };
                    let batch: Vec<K::I> = items[at..at + n].to_vec();
                    let s = clock.fetch_add(1, SeqCst);
                    let ids = if k == 0 { rw.insert(batch.into_iter().next().unwrap()).into_iter().collect() } else { rw.insert_batch(batch) };
                    let e = clock.fetch_add(1, SeqCst);
                    if let (Some(&id), true) = (ids.last(), r.chance(0.2)) {
                        // its own vector, right after the insert was acknowledged
                        let s = clock.fetch_add(1, SeqCst);
                        let q = rw.get_element(id);
                        let ms = plan.cfg.ms.max(50);
                        let ms = if plan.exhaustive { ms.max(plan.cap + plan.prefill) } else { ms };
                        let kk = if plan.exhaustive { ms } else { 5 };
                        let res = rw.search(&q, ms, kk);
                        let e = clock.fetch_add(1, SeqCst);
                        log.push(Op { s, e, thread: t, what: What::Search { q, ms, k: kk, res, own: Some(id) } });
                    }
                    log.push(Op { s, e, thread: t, what: What::Insert { first: at, n, single: k == 0, ids } });
                    at += n;
                }
            });
            let _ = empty;
            writing.fetch_sub(1, SeqCst);
            note(&failed, "inserting", res);
            logs.lock().unwrap().append(&mut log);
        }));
    }
    for x in 0..plan.searchers {
        let (rw, clock, writing, failed, logs, go) = (rw.clone(), clock.clone(), writing.clone(), failed.clone(), logs.clone(), go.clone());
        let (spec, empty, items) = (&spec, &empty, &items);
        let t = thread;
        thread += 1;
        let mut r = rng.fork();
        acts.push(Box::new(move || {
            let mut log = Vec::new();
            let mut source = empty.clone();
            for _ in 0..8.min(items.len()) {
                source.push(items[r.below(items.len())].clone());
            }
            go.wait();
            let res = catch(|| {
                for i in 0..plan.ops {
                    if plain && i > 3 && writing.load(SeqCst) == 0 {
                        break;
                    }
                    let q = K::query(&mut r, spec, &source);
                    let (ms, k) = if plan.exhaustive {
                        let m = plan.cap + plan.prefill + 1;
                        (m, m)
                    } else {
                        (*r.pick(&[1, 2, 5, 20, 100]), *r.pick(&[0, 1, 3, 10, 1000]))
                    };
                    let s = clock.fetch_add(1, SeqCst);
                    let res = rw.search(&q, ms, k);
                    let e = clock.fetch_add(1, SeqCst);
                    log.push(Op { s, e, thread: t, what: What::Search { q, ms, k, res, own: None } });
                    if x % 2 == 1 {
                        std::thread::yield_now();
                    }
                }
            });
            note(&failed, "searching", res);
            logs.lock().unwrap().append(&mut log);
        }));
    }
    for _ in 0..plan.readers {
        let (rw, clock, writing, failed, logs, go) = (rw.clone(), clock.clone(), writing.clone(), failed.clone(), logs.clone(), go.clone());
        let t = thread;
        thread += 1;
        let mut r = rng.fork();
        acts.push(Box::new(move || {
            let mut log = Vec::new();
            go.wait();
            let res = catch(|| {
                for i in 0..plan.ops {
                    if plain && i > 3 && writing.load(SeqCst) == 0 {
                        break;
                    }
                    let s = clock.fetch_add(1, SeqCst);
                    let n = match i % 3 {
                        0 => rw.len(),
                        1 => rw.get_elements().len(),
                        _ => {
                            if rw.is_empty() {
                                0
                            } else {
                                usize::MAX
                            }
                        }
                    };
                    let e = clock.fetch_add(1, SeqCst);
                    if n == usize::MAX || (i % 3 == 2) {
                        log.push(Op { s, e, thread: t, what: What::Len((n > 0) as usize, false) });
                        continue;
                    }
                    log.push(Op { s, e, thread: t, what: What::Len(n, true) });
                    if n > 0 {
                        let id = if r.chance(0.5) { n - 1 } else { r.below(n) };
                        let s = clock.fetch_add(1, SeqCst);
                        let key = K::read(&rw.get_elements(), id);
                        let e = clock.fetch_add(1, SeqCst);
                        log.push(Op { s, e, thread: t, what: What::Get { id, key } });
                    }
                    std::thread::yield_now();
                }
            });
            note(&failed, "reading", res);
            logs.lock().unwrap().append(&mut log);
        }));
    }
    for x in 0..plan.savers {
        let (rw, clock, writing, failed, logs, go) = (rw.clone(), clock.clone(), writing.clone(), failed.clone(), logs.clone(), go.clone());
        let dir = &dir;
        let t = thread;
        thread += 1;
        let mut r = rng.fork();
        acts.push(Box::new(move || {
            let mut log = Vec::new();
            go.wait();
            let res = catch(|| {
                for i in 0..plan.ops.min(12) {
                    if plain && i > 2 && writing.load(SeqCst) == 0 {
                        break;
                    }
                    if r.chance(0.3) {
                        std::thread::sleep(std::time::Duration::from_micros(r.below(400) as u64));
                    }
                    match dir {
                        Some(d) => {
                            let (a, b) = (d.p(&format!("i{}", x)), d.p(&format!("e{}", x)));
                            if r.chance(0.3) {
                                // longer files that are there already
                                for p in [&a, &b] {
                                    let _ = std::fs::write(p, vec![0x5A; 300_000]);
                                }
                            }
                            let s = clock.fetch_add(1, SeqCst);
                            let w = rw.save_index_and_elements_to_disk(a.to_str().unwrap(), b.to_str().unwrap());
                            let e = clock.fetch_add(1, SeqCst);
                            if let Err(e) = w {
                                panic!("CONTRACT saving to files fails: {}", e);
                            }
                            let (index, elements) = (std::fs::read(a).unwrap_or_default(), std::fs::read(b).unwrap_or_default());
                            log.push(Op { s, e, thread: t, what: What::Save { index, elements, files: true } });
                        }
                        None => {
                            let (mut a, mut b) = (Cursor::new(Vec::new()), Vec::new());
                            let s = clock.fetch_add(1, SeqCst);
                            let w = rw.write(&mut a, &mut b);
                            let e = clock.fetch_add(1, SeqCst);
                            if let Err(e) = w {
                                panic!("CONTRACT saving to memory fails: {}", e);
                            }
                            log.push(Op { s, e, thread: t, what: What::Save { index: a.into_inner(), elements: b, files: false } });
                        }
                    }
                }
            });
            note(&failed, "saving", res);
            logs.lock().unwrap().append(&mut log);
        }));
    }
    rng.shuffle(&mut acts);
    if plain {
        std::thread::scope(|s| {
            for a in acts {
                s.spawn(a);
            }
        });
    } else {
        let p = rayon::ThreadPoolBuilder::new().num_threads(plan.workers).build().expect("pool");
        p.scope(|s| {
            for a in acts {
                s.spawn(move |_| a());
            }
        });
    }
    let f = failed.lock().unwrap().take();
    if let Some(f) = f {
        return Err(f);
    }
    let mut ops = std::mem::take(&mut *logs.lock().unwrap());
    ops.sort_by_key(|o| o.s);
    let els = no_panic("get_elements", || rw.get_elements().clone())?;
    let keys = items.iter().map(K::ikey).collect();
    c.ctx.count("operations_recorded", ops.len() as u64);
    Ok(Some(History { plan: plan.clone(), items: keys, raw: items, ops, rw, els, spec, empty }))
}

fn note(failed: &Mutex<Option<String>>, what: &str, r: Result<(), Panicked>) {
    match r {
        Ok(()) => {}
        Err(Panicked::Lib(m)) => {
            let mut f = failed.lock().unwrap();
            if f.is_none() {
                *f = Some(format!("{} {}", what, m));
            }
        }
        Err(Panicked::Harness(m)) => std::panic::panic_any(m),
    }
}

impl<K: Kind> History<K> {
    /// ids accepted by operations that had returned at time `t`, plus what was there from the start
    fn acked(&self, t: u64) -> Vec<usize> {
        let mut v: Vec<usize> = (0..self.plan.prefill).collect();
        for o in &self.ops {
            if let What::Insert { ids, .. } = &o.what {
                if o.e < t {
                    v.extend(ids);
                }
            }
        }
        v
    }
    /// number of elements that could exist at time `t`
    fn started(&self, t: u64) -> usize {
        let k: usize = self.ops.iter().map(|o| match &o.what {
            What::Insert { ids, .. } if o.s < t => ids.len(),
            _ => 0,
        }).sum();
        self.plan.prefill + k
    }
    pub fn overlaps(&self) -> usize {
        let ins: Vec<_> = self.ops.iter().filter(|o| matches!(o.what, What::Insert { .. })).collect();
        let mut k = 0;
        for (i, a) in ins.iter().enumerate() {
            k += ins[i + 1..].iter().take_while(|b| b.s < a.e).count();
        }
        k
    }
    pub fn signature(&self) -> u64 {
        let mut h = 0u64;
        for o in &self.ops {
            if let What::Insert { first, ids, .. } = &o.what {
                h = mix(h ^ (*first as u64) << 20 ^ ids.first().map_or(0, |x| *x as u64 + 1));
            }
        }
        h ^ hash_bytes(format!("{:?}", self.plan).as_bytes())
    }

    /// C11
    pub fn check_ids(&self) -> Res {
        let p = &self.plan;
        let n = self.els.len();
        ensure!(self.rw.len() == n, "len() is {}, the elements are {}", self.rw.len(), n);
        ensure!(n <= p.cap.max(p.prefill), "{} elements accepted with a capacity of {}", n, p.cap);
        let mut owner: Vec<Option<usize>> = vec![None; n];
        for i in 0..p.prefill.min(n) {
            owner[i] = Some(i);
        }
        let mut refused = false;
        for o in &self.ops {
            if let What::Insert { first, n: want, single, ids } = &o.what {
                ensure!(ids.len() <= *want, "{} ids were returned for a batch of {}", ids.len(), want);
                for (k, id) in ids.iter().enumerate() {
                    ensure!(*id < n, "id {} was handed out but only {} elements exist", id, n);
                    ensure!(k == 0 || ids[k - 1] < *id, "ids of a batch do not increase: {:?}", ids);
                    ensure!(owner[*id].is_none(), "id {} was handed out twice (items {:?} and {})", id, owner[*id], first + k);
                    owner[*id] = Some(first + k);
                    ensure!(K::read(&self.els, *id) == self.items[first + k], "the element under id {} is not the one inserted (item {} of batch at {})", id, k, first);
                }
                if ids.len() < *want {
                    refused = true;
                    let possible = self.started(o.e);
                    ensure!(possible >= p.cap, "an insert {} was refused although at most {} of {} elements existed", if *single { "(single)" } else { "(batch)" }, possible, p.cap);
                }
            }
        }
        for (i, o) in owner.iter().enumerate() {
            ensure!(o.is_some(), "id {} belongs to no insert: ids are not consecutive", i);
        }
        if refused {
            ensure!(n >= p.cap, "inserts were refused although only {} of {} elements exist", n, p.cap);
        } else {
            ensure!(n == self.items.len(), "{} elements exist, {} were inserted and none refused", n, self.items.len());
        }
        // real-time order
        let mut done: Vec<(u64, usize)> = Vec::new(); // (return time, largest id)
        for o in &self.ops {
            if let What::Insert { ids, .. } = &o.what {
                if let Some(m) = ids.last() {
                    done.push((o.e, *m));
                }
            }
        }
        done.sort_unstable();
        let mut best = Vec::with_capacity(done.len());
        let mut m = 0;
        for d in &done {
            m = m.max(d.1);
            best.push(m);
        }
        for o in &self.ops {
            if let What::Insert { ids, .. } = &o.what {
                let k = done.partition_point(|d| d.0 < o.s);
                if let (Some(id), true) = (ids.first(), k > 0) {
                    ensure!(*id > best[k - 1], "an insert that started after id {} had been returned got id {}", best[k - 1], id);
                }
            }
        }
        // readers
        let mut seen: Vec<(u64, usize)> = Vec::new();
        for o in &self.ops {
            match &o.what {
                What::Len(v, exact) => {
                    let low = self.acked(o.s).len();
                    let high = self.started(o.e);
                    if *exact {
                        ensure!(*v >= low, "len() was {} although inserts of {} elements had returned", v, low);
                        ensure!(*v <= high, "len() was {} when at most {} elements could exist", v, high);
                        let before = seen.iter().filter(|x| x.0 < o.s).map(|x| x.1).max().unwrap_or(0);
                        ensure!(*v >= before, "len() was {} after it had been {}", v, before);
                        seen.push((o.e, *v));
                    } else {
                        ensure!(*v == 1 || low == 0, "is_empty() although inserts of {} elements had returned", low);
                        ensure!(*v == 0 || high > 0, "is_empty() is false before anything was inserted");
                    }
                }
                What::Get { id, key } => {
                    let w = owner.get(*id).and_then(|x| *x);
                    ensure!(w.map(|w| &self.items[w]) == Some(key), "element {} read during the run differs from the one inserted", id);
                }
                _ => {}
            }
        }
        Ok(())
    }

    /// C12
    pub fn check_searches(&self, c: &Case) -> Res {
        let p = &self.plan;
        let n = self.els.len();
        for o in &self.ops {
            if let What::Search { q, ms, k, res, own } = &o.what {
                let high = self.started(o.e).min(n);
                valid_result(&self.els, high, q, *ms, *k, res)?;
                let acked = self.acked(o.s);
                ensure!(acked.is_empty() || *k == 0 || !res.is_empty(), "a search found nothing although {} inserts had returned", acked.len());
                if p.exhaustive {
                    let got: std::collections::HashSet<usize> = res.iter().map(|x| x.0).collect();
                    for id in &acked {
                        ensure!(got.contains(id), "an exhaustive search missed element {}, whose insert had returned (own query: {:?}, {} of {} found)", id, own, res.len(), acked.len());
                    }
                    c.ctx.count("exhaustive_searches", 1);
                }
                c.ctx.count("searches", 1);
            }
        }
        // quiescent
        let mut r = Rng::new(self.signature(), "final", 0);
        for _ in 0..5 {
            let q = K::query(&mut r, &self.spec, &self.els);
            let ms = if p.exhaustive { n.max(1) } else { *r.pick(&[1, 5, 50]) };
            let k = if p.exhaustive { n } else { 10 };
            let res = no_panic("search", || self.rw.search(&q, ms, k))?;
            valid_result(&self.els, n, &q, ms, k, &res)?;
            ensure!(n == 0 || k == 0 || !res.is_empty(), "a search of {} elements found nothing", n);
            if p.exhaustive {
                let want = brute(&self.els, n, &q);
                ensure!(res.iter().map(|x| x.1.to_bits()).eq(want.iter().map(|x| x.1.to_bits())), "an exhaustive search found {} of {} elements: {:?}", res.len(), n, bits(&res));
            }
        }
        Ok(())
    }

    /// C13
    pub fn check_snapshots(&self, c: &Case) -> Res {
        let p = &self.plan;
        let mut r = Rng::new(self.signature(), "snap", 0);
        let mut saves: Vec<&Op<K::E>> = self.ops.iter().filter(|o| matches!(o.what, What::Save { .. })).collect();
        saves.sort_by_key(|o| o.s);
        let (mut a, mut b) = (Cursor::new(Vec::new()), Vec::new());
        no_panic("write", || self.rw.write(&mut a, &mut b))?.map_err(|e| format!("write: {}", e))?;
        let last = Op { s: u64::MAX - 1, e: u64::MAX, thread: 0, what: What::Save { index: a.into_inner(), elements: b, files: false } };
        saves.push(&last);
        let mut sizes: Vec<(u64, usize)> = Vec::new();
        for o in saves {
            if let What::Save { index, elements, .. } = &o.what {
                let acked = self.acked(o.s);
                let n = self.check_snapshot(c, &mut r, index, elements, &acked, self.started(o.e).min(self.els.len()))?;
                let before = sizes.iter().filter(|x| x.0 < o.s).map(|x| x.1).max().unwrap_or(0);
                ensure!(n >= before, "a snapshot has {} elements, an earlier one had {}", n, before);
                sizes.push((o.e, n));
                c.ctx.count("snapshots", 1);
                if n < self.els.len() {
                    c.ctx.count("snapshots_taken_midway", 1);
                }
            }
        }
        let _ = p;
        Ok(())
    }

    fn check_snapshot(&self, c: &Case, r: &mut Rng, index: &[u8], elements: &[u8], acked: &[usize], high: usize) -> Result<usize, String> {
        let p = &self.plan;
        let els = no_panic("loading the elements of a snapshot", || K::reload(&self.empty, elements))?;
        let n = els.len();
        let ix = no_panic("loading the index of a snapshot", || Granne::from_bytes(index, els.clone()))?;
        ensure!(ix.len() == n, "snapshot: the graph has {} nodes, the element file {} elements", ix.len(), n);
        ensure!(n >= acked.len() && acked.iter().all(|&i| i < n), "snapshot: {} elements, but inserts of {} had returned before it (ids up to {:?})", n, acked.len(), acked.iter().max());
        ensure!(n <= high, "snapshot: {} elements although at most {} could exist", n, high);
        for i in 0..n {
            ensure!(K::read(&els, i) == K::read(&self.els, i), "snapshot: element {} differs from the one inserted", i);
        }
        well_formed(&ix, n, p.cfg.nn).map_err(|e| format!("snapshot: {}", e))?;
        if n == 0 {
            return Ok(0);
        }
        if p.exhaustive {
            // lists have room for everything: a link that is missing in one direction was being made
            let bottom = &view(&ix).layers[ix.num_layers() - 1];
            for (i, l) in bottom.iter().enumerate() {
                for &j in l {
                    ensure!(bottom[j].contains(&i), "snapshot: {} is linked to {} but not back: saved while the link was being made", i, j);
                }
            }
        }
        for _ in 0..3 {
            let q = K::query(r, &self.spec, &els);
            let (ms, k) = if p.exhaustive { (n, n) } else { (30, 10) };
            let res = no_panic("searching a snapshot", || ix.search(&q, ms, k))?;
            valid_result(&els, n, &q, ms, k, &res)?;
            ensure!(!res.is_empty(), "searching a snapshot of {} elements finds nothing", n);
            if p.exhaustive {
                let got: std::collections::HashSet<usize> = res.iter().map(|x| x.0).collect();
                for id in acked {
                    ensure!(got.contains(id), "element {} was acknowledged before the snapshot but is not found in it", id);
                }
                ensure!(got.len() == n, "{} of the {} elements in a snapshot are not found in it (half inserted?)", n - got.len(), n);
                c.ctx.count("exhaustive_snapshot_searches", 1);
            }
        }
        if r.chance(0.4) {
            // continue building from it
            let layers = set_view(&ix);
            let mut b = no_panic("loading a snapshot into a builder", || GranneBuilder::from_bytes(p.cfg.build(), index, els.clone()))?;
            let more: Vec<K::I> = (0..r.range(1, 12)).map(|_| K::item(r, &self.spec, &self.empty)).collect();
            if r.chance(0.5) {
                more.iter().for_each(|i| b.push(i.clone()));
                no_panic("continuing a snapshot", || b.build())?;
                well_formed(&b, n + more.len(), p.cfg.nn).map_err(|e| format!("continued snapshot: {}", e))?;
            } else {
                let rw = no_panic("continuing a snapshot concurrently", || RwGranneBuilder::new(b, n + more.len(), p.pool))?;
                let ids = no_panic("inserting after a snapshot", || rw.insert_batch(more.clone()))?;
                ensure!(ids == (n..n + more.len()).collect::<Vec<_>>(), "inserting into a continued snapshot of {} elements gives ids {:?}", n, ids);
                let (mut a, mut b) = (Cursor::new(Vec::new()), Vec::new());
                no_panic("write", || rw.write(&mut a, &mut b))?.map_err(|e| format!("write: {}", e))?;
                let els = K::reload(&self.empty, &b);
                ensure!(els.len() == n + more.len(), "continued snapshot: {} elements instead of {}", els.len(), n + more.len());
                let a = a.into_inner();
                let ix = Granne::from_bytes(&a, els);
                well_formed(&ix, n + more.len(), p.cfg.nn).map_err(|e| format!("continued snapshot: {}", e))?;
            }
            let _ = layers;
            c.ctx.count("snapshots_continued", 1);
        }
        Ok(n)
    }
}

// ---------------------------------------------------------------- workloads
pub fn small_plan(rng: &mut Rng, exhaustive: bool) -> Plan {
    let mut cfg = Cfg::random(rng);
    cfg.ms = cfg.ms.min(60);
    cfg.expected = None;
    let cap = match rng.below(6) {
        0 => rng.range(1, 4),
        1 => *rng.pick(&[15, 16, 30, 100, 125]),
        2 if !exhaustive => rng.range(100, 400),
        _ => rng.range(4, if exhaustive { 40 } else { 120 }),
    };
    let prefill = match rng.below(4) {
        0 => rng.below(cap + 1),
        1 if !exhaustive => cap + rng.below(3),
        2 => rng.below(cap / 2 + 1),
        _ => 0,
    };
    let extra = if rng.chance(0.6) { rng.range(1, 20) } else { 0 };
    let room = cap.saturating_sub(prefill);
    let n = if extra > 0 || rng.chance(0.7) { room + extra } else { rng.below(room + 1) };
    let w = rng.range(1, 6);
    let writers = Plan::spread(rng, n, w, cap);
    let total = prefill + n;
    if exhaustive {
        cfg.nn = (2 * (total.max(cap) - 1) + rng.below(5)).clamp(2, 250);
    }
    Plan {
        dim: rng.range(2, 10),
        flavor: *rng.pick(&[Flavor::Uniform, Flavor::Clustered]),
        cfg,
        cap,
        prefill,
        pool: *rng.pick(&[1, 1, 2, 3, 4, 8]),
        workers: if rng.chance(0.25) { rng.range(1, 6) } else { 0 },
        writers,
        searchers: rng.below(3),
        readers: rng.below(3),
        savers: if rng.chance(0.4) { rng.range(1, 2) } else { 0 },
        exhaustive,
        ops: 60,
    }
}

/// thousands of elements, cheap to link, in batches of all sizes
fn large_plan(rng: &mut Rng) -> Plan {
    let cap = match rng.below(3) {
        0 => rng.range(1_000, 3_000),
        1 => *rng.pick(&[1024, 2048, 3375, 4096, 4097, 8192, 10_000]),
        _ => rng.range(3_000, 20_000),
    };
    let prefill = if rng.chance(0.4) { rng.below(cap) } else { 0 };
    let mut left = cap - prefill + if rng.chance(0.5) { rng.range(1, 3000) } else { 0 };
    let mut writers = vec![Vec::new(); rng.range(1, 4)];
    let sizes: &[usize] = *rng.pick(&[&[20, 300][..], &[1, 10, 100, 1000, 10_000], &[700, 1500, 3000], &[100_000]]);
    while left > 0 {
        let w = rng.below(writers.len());
        if rng.chance(0.2) {
            let k = rng.range(1, 40).min(left);
            writers[w].extend(std::iter::repeat(0).take(k));
            left -= k;
        } else {
            let most = *rng.pick(sizes);
            let k = rng.range(1 + most / 2, 1 + most).min(left);
            writers[w].push(k);
            left -= k;
        }
    }
    let mult = *rng.pick(&[2.0, 4.5, 15.0, 40.0]);
    Plan {
        cfg: Cfg { nn: rng.range(2, 6), ms: rng.range(1, 4), mult, reinsert: rng.chance(0.3), expected: None, progress: false },
        dim: rng.range(2, 4),
        flavor: Flavor::Uniform,
        cap,
        prefill,
        pool: *rng.pick(&[1, 2, 4, 8]),
        workers: if rng.chance(0.2) { rng.range(1, 4) } else { 0 },
        writers,
        searchers: rng.below(2),
        readers: rng.below(2),
        savers: rng.below(2),
        exhaustive: false,
        ops: 40,
    }
}

fn c11_case<K: Kind>(c: &mut Case, large: bool) -> Res {
    let mut rng = c.rng.fork();
    let mut p = if large { large_plan(&mut rng) } else { small_plan(&mut rng, false) };
    if !large {
        p.readers = rng.range(1, 3);
        p.flavor = *rng.pick(ANY);
    }
    if !large && rng.chance(0.3) {
        // everybody races for the last places
        let w = rng.range(2, 8);
        p.cap = rng.range(1, 12);
        p.prefill = rng.below(p.cap);
        p.writers = (0..w).map(|_| (0..rng.range(1, 6)).map(|_| *rng.pick(&[0, 0, 1, 2, 5])).collect()).collect();
    }
    c.note(p.describe());
    let h = match execute::<K>(c, &mut rng, &p, 0)? {
        Some(h) => h,
        None => return Ok(()),
    };
    h.check_ids()?;
    let o = h.overlaps();
    c.count("overlapping_inserts", o as u64);
    c.count("inserted", h.els.len() as u64);
    c.count("refused", (h.items.len() - h.els.len().min(h.items.len())) as u64);
    // a full builder refuses without any effect
    let rw = &h.rw;
    if rw.len() >= p.cap {
        let (mut a, mut b) = (Cursor::new(Vec::new()), Vec::new());
        rw.write(&mut a, &mut b).map_err(|e| e.to_string())?;
        let it = K::item(&mut rng, &h.spec, &h.empty);
        ensure!(no_panic("insert", || rw.insert(it.clone()))?.is_none(), "a full builder accepts an element");
        ensure!(no_panic("insert_batch", || rw.insert_batch(vec![it.clone(), it.clone()]))?.is_empty(), "a full builder accepts a batch");
        let (mut a2, mut b2) = (Cursor::new(Vec::new()), Vec::new());
        rw.write(&mut a2, &mut b2).map_err(|e| e.to_string())?;
        ensure!(a.into_inner() == a2.into_inner() && b == b2, "a refused insert changed the builder");
        if p.prefill == 0 {
            let have = sizes::<K>(&h.empty, rw)?;
            let alone = sizes::<K>(&h.empty, &one_by_one::<K>(&p.cfg, &h.empty, &h.raw, p.cap)?)?;
            ensure!(have == alone, "after racing inserts the full index has layers {:?}, one that was filled by one thread {:?}", have, alone);
            c.count("full_compared", 1);
        }
    } else {
        // every remaining place can be used
        let left = p.cap - rw.len();
        let n = rw.len();
        let more: Vec<K::I> = (0..left + 2).map(|_| K::item(&mut rng, &h.spec, &h.empty)).collect();
        let ids = no_panic("insert_batch", || rw.insert_batch(more))?;
        ensure!(ids == (n..p.cap).collect::<Vec<_>>(), "filling up from {} to {} gave ids {:?}..{:?} ({} of them)", n, p.cap, ids.first(), ids.last(), ids.len());
    }
    if o > 0 && h.els.len() > 1 {
        c.nontrivial(h.signature());
    }
    Ok(())
}

/// sizes of the layers in a snapshot
fn sizes<K: Kind>(empty: &K::C, rw: &RwGranneBuilder<K::C>) -> Result<Vec<usize>, String> {
    let (mut a, mut b) = (Cursor::new(Vec::new()), Vec::new());
    no_panic("write", || rw.write(&mut a, &mut b))?.map_err(|e| format!("write: {}", e))?;
    let els = K::reload(empty, &b);
    let a = a.into_inner();
    let ix = Granne::from_bytes(&a, els);
    Ok((0..ix.num_layers()).map(|l| ix.layer_len(l)).collect())
}

/// the same configuration filled to capacity from one thread
fn one_by_one<K: Kind>(cfg: &Cfg, empty: &K::C, items: &[K::I], cap: usize) -> Result<RwGranneBuilder<K::C>, String> {
    let rw = no_panic("RwGranneBuilder::new", || RwGranneBuilder::new(GranneBuilder::new(cfg.build(), empty.clone()), cap, 1))?;
    for i in 0..cap {
        no_panic("insert", || rw.insert(items[i].clone()))?;
    }
    Ok(rw)
}

/// many threads want the last places
fn c11_last<K: Kind>(c: &mut Case) -> Res {
    let mut rng = c.rng.fork();
    let mut cfg = Cfg::random(&mut rng);
    cfg.ms = cfg.ms.min(20);
    let cap = *rng.pick(&[1, 2, 3, 4, 6, 9, 16, 20]);
    let free = *rng.pick(&[1, 1, 1, 2, 3]).min(&cap);
    let threads = rng.range(2, 6);
    let batch = *rng.pick(&[1, 1, 1, 2, 3]);
    let pool = *rng.pick(&[1, 1, 2]);
    let spec = Spec::new(&mut rng, 3, Flavor::Uniform);
    let empty = K::empty(&mut rng, &spec);
    let items: Vec<K::I> = (0..cap + threads * batch).map(|_| K::item(&mut rng, &spec, &empty)).collect();
    c.note(format!("last {} places of {}: {} threads insert {} each, pool={} {:?}", free, cap, threads, batch, pool, cfg));
    let alone = one_by_one::<K>(&cfg, &empty, &items, cap)?;
    let want = sizes::<K>(&empty, &alone)?;
    for round in 0..12 {
        #[cfg(feature = "shim")]
        parking_lot::shim::set(*rng.pick(&[3, 40, 300]), rng.seed());
        let rw = no_panic("RwGranneBuilder::new", || RwGranneBuilder::new(GranneBuilder::new(cfg.build(), empty.clone()), cap, pool))?;
        for i in 0..cap - free {
            no_panic("insert", || rw.insert(items[i].clone()))?;
        }
        let go = Barrier::new(threads);
        let ids: Vec<Result<Vec<usize>, Panicked>> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..threads)
                .map(|t| {
                    let (go, rw, items) = (&go, &rw, &items);
                    s.spawn(move || {
                        let mine: Vec<K::I> = items[cap + t * batch..cap + (t + 1) * batch].to_vec();
                        go.wait();
                        catch(|| rw.insert_batch(mine))
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        let mut all = Vec::new();
        for r in ids {
            match r {
                Ok(v) => all.extend(v),
                Err(Panicked::Lib(m)) => return Err(format!("inserting {}", m)),
                Err(Panicked::Harness(m)) => std::panic::panic_any(m),
            }
        }
        all.sort_unstable();
        let filled = free.min(threads * batch);
        ensure!(all == (cap - free..cap - free + filled).collect::<Vec<_>>(), "round {}: ids {:?} for the last {} places of {}", round, all, free, cap);
        ensure!(rw.len() == cap - free + filled, "len() is {}", rw.len());
        let have = sizes::<K>(&empty, &rw)?;
        if filled == free {
            ensure!(have == want, "round {}: layers {:?} after a race for the last places, {:?} when filled by one thread", round, have, want);
        }
        c.ctx.count("races_for_the_last_place", 1);
    }
    c.nontrivial(hash_bytes(c.desc.as_bytes()));
    Ok(())
}

/// an index that was built with other parameters is continued
fn c11_continued<K: Kind>(c: &mut Case) -> Res {
    let mut rng = c.rng.fork();
    let (mut old, mut new) = (Cfg::random(&mut rng), Cfg::random(&mut rng));
    old.ms = old.ms.min(20);
    new.ms = new.ms.min(20);
    new.nn = old.nn;
    let n = *rng.pick(&[0, 1, 2, 5, 16, 20, 60, 100, 160]);
    let expected = n + *rng.pick(&[0, 0, 1, 10, 300]);
    old.expected = if rng.chance(0.5) { Some(expected) } else { None };
    let cap = n + *rng.pick(&[0, 1, 2, 5, 20, 60, 150]);
    let pool = *rng.pick(&[1, 2, 4]);
    let spec = Spec::new(&mut rng, 4, Flavor::Uniform);
    let empty = K::empty(&mut rng, &spec);
    let items: Vec<K::I> = (0..cap + 3).map(|_| K::item(&mut rng, &spec, &empty)).collect();
    let mut pre = empty.clone();
    items[..n].iter().for_each(|i| pre.push(i.clone()));
    c.note(format!("continued: {} of {} elements built with {:?}, then {:?} pool={}", n, cap, old, new, pool));
    let mut b = GranneBuilder::new(old.build(), pre.clone());
    let part = if rng.chance(0.3) { rng.below(n + 1) } else { n };
    no_panic("building", || b.build_partial(part))?;
    let mut bytes = Cursor::new(Vec::new());
    no_panic("write_index", || b.write_index(&mut bytes))?.map_err(|e| e.to_string())?;
    let bytes = bytes.into_inner();
    let b = no_panic("from_bytes", || GranneBuilder::from_bytes(new.build(), &bytes, pre))?;
    let rw = no_panic("RwGranneBuilder::new", || RwGranneBuilder::new(b, cap, pool))?;
    let threads = rng.range(1, 3);
    let left = &items[n..];
    let got: Vec<Result<Vec<(usize, usize)>, Panicked>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                let rw = &rw;
                let mut r = rng.fork();
                s.spawn(move || {
                    catch(|| {
                        let mine: Vec<usize> = (0..left.len()).filter(|i| i % threads == t).collect();
                        let mut out = Vec::new();
                        let mut at = 0;
                        while at < mine.len() {
                            let k = r.range(1, mine.len() - at);
                            let ids = rw.insert_batch(mine[at..at + k].iter().map(|&i| left[i].clone()).collect());
                            out.extend(mine[at..at + k].iter().cloned().zip(ids));
                            at += k;
                        }
                        out
                    })
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let mut all = Vec::new();
    for r in got {
        match r {
            Ok(v) => all.extend(v),
            Err(Panicked::Lib(m)) => return Err(format!("inserting {}", m)),
            Err(Panicked::Harness(m)) => std::panic::panic_any(m),
        }
    }
    let els = rw.get_elements().clone();
    let mut ids: Vec<usize> = all.iter().map(|x| x.1).collect();
    ids.sort_unstable();
    ensure!(ids == (n..cap).collect::<Vec<_>>() && els.len() == cap, "{} elements continued to {}: ids {:?}, {} elements", n, cap, ids, els.len());
    for (i, id) in &all {
        ensure!(K::read(&els, *id) == K::ikey(&left[*i]), "the element under id {} is not the one inserted", id);
    }
    let (mut a, mut b) = (Cursor::new(Vec::new()), Vec::new());
    no_panic("write", || rw.write(&mut a, &mut b))?.map_err(|e| format!("write: {}", e))?;
    let a = a.into_inner();
    let ix = Granne::from_bytes(&a, K::reload(&empty, &b));
    well_formed(&ix, cap, new.nn).map_err(|e| format!("continued index: {}", e))?;
    c.ctx.count("indexes_continued", 1);
    if cap > n {
        c.nontrivial(hash_bytes(c.desc.as_bytes()));
    }
    Ok(())
}

pub fn run_c11(ctx: &Ctx) {
    ctx.rule("Histories of 1-8 inserting threads (single inserts and batches, often more than fit), with readers, searches and saves running, and random delays injected into pushes and distance calls; callers are plain threads or workers of a rayon pool. Every call is logged with logical call and return times; the log is checked against a sequential counter: unique consecutive ids, batch and real-time order, refusal only when full, contents, monotone length; the layers of a full index are compared with those of one filled by a single thread. Many short races for the last places, and indexes built with other parameters that are continued. Non-trivial: at least two inserts overlapped; distinct: different assignment of ids to inserts or different plan.");
    let w = ctx.workers.min(4);
    ctx.cases("history", ctx.n(1500, 30000), w, |c| any_noisy(c));
    ctx.cases("last", ctx.n(300, 6000), w, |c| last(c));
    ctx.cases("continued", ctx.n(500, 10000), w, |c| continued(c));
    ctx.cases("large", ctx.n(12, 160), w, |c| crate::any_kind!(c.rng, c11_case, c, true));
    ctx.cases("flood", ctx.n(4, 60), 2, floods);
    fn last(c: &mut Case) -> Res {
        crate::any_kind!(c.rng, c11_last, c)
    }
    fn continued(c: &mut Case) -> Res {
        crate::any_kind!(c.rng, c11_continued, c)
    }
    fn any_noisy(c: &mut Case) -> Res {
        crate::any_noisy_kind!(c.rng, c11_case, c, false)
    }
}

fn c12_case<K: Kind>(c: &mut Case, exhaustive: bool) -> Res {
    let mut rng = c.rng.fork();
    let mut p = small_plan(&mut rng, exhaustive);
    p.searchers = rng.range(1, 4);
    p.readers = 0;
    if !exhaustive {
        p.flavor = *rng.pick(ANY);
    }
    c.note(p.describe());
    let h = match execute::<K>(c, &mut rng, &p, 0)? {
        Some(h) => h,
        None => return Ok(()),
    };
    h.check_searches(c)?;
    let during = h.ops.iter().filter(|o| match &o.what {
        What::Search { .. } => h.ops.iter().any(|i| matches!(i.what, What::Insert { .. }) && i.s < o.e && i.e > o.s),
        _ => false,
    }).count();
    c.count("searches_overlapping_inserts", during as u64);
    if during > 0 && h.els.len() > 1 {
        c.nontrivial(h.signature());
    }
    Ok(())
}

/// acknowledged elements are found as reliably as in a sequential build
fn c12_quality<K: Kind>(c: &mut Case) -> Res {
    let mut rng = c.rng.fork();
    let n = rng.range(300, 1200);
    let mult = *rng.pick(&[5.0f32, 10.0, 15.0]);
    let cfg = Cfg { nn: *rng.pick(&[10, 16, 30]), ms: *rng.pick(&[30, 50, 100]), mult, reinsert: false, expected: None, progress: false };
    let w = rng.range(1, 6);
    let p = Plan {
        dim: rng.range(5, 20),
        flavor: Flavor::Uniform,
        cfg: cfg.clone(),
        cap: n,
        prefill: if rng.chance(0.3) { rng.below(n / 2) } else { 0 },
        pool: *rng.pick(&[1, 2, 4, 8]),
        workers: 0,
        writers: vec![],
        searchers: 1,
        readers: 0,
        savers: 0,
        exhaustive: false,
        ops: 100,
    };
    let mut p = p;
    p.writers = Plan::spread(&mut rng, n - p.prefill, w, n);
    c.note(format!("quality {} {}", K::NAME, p.describe()));
    let h = match execute::<K>(c, &mut rng, &p, 2000)? {
        Some(h) => h,
        None => return Ok(()),
    };
    let n = h.els.len();
    let ms = 50.max(cfg.ms);
    let mut b = GranneBuilder::new(Cfg { expected: Some(n), ..cfg.clone() }.build(), h.els.clone());
    in_pool(1, || no_panic("build", || b.build()))?;
    let ids: Vec<usize> = (0..n).collect();
    let (seq, _) = self_found(&b.get_index(), &ids, ms);
    let mut hit = 0;
    for i in 0..n {
        let q = h.els.get(i);
        let own = h.els.dist_to_element(i, &q).into_inner();
        let r = no_panic("search", || h.rw.search(&q, ms, 1))?;
        hit += r.first().map_or(false, |x| x.1 <= own) as usize;
    }
    // right after the acknowledgement
    let (mut own_hit, mut own_all) = (0, 0);
    for o in &h.ops {
        if let What::Search { q, res, own: Some(id), .. } = &o.what {
            let d = h.els.dist_to_element(*id, q).into_inner();
            own_all += 1;
            own_hit += res.first().map_or(false, |x| x.1 <= d) as usize;
        }
    }
    let (a, s) = (hit as f64 / n as f64, seq as f64 / n as f64);
    c.ctx.min("self_found_concurrent", a);
    c.ctx.min("self_found_sequential", s);
    c.ctx.min("self_found_difference", a - s);
    if own_all > 20 {
        c.ctx.min("self_found_on_return", own_hit as f64 / own_all as f64);
        ensure!(own_hit as f64 >= own_all as f64 * 0.9 - 3.0, "only {} of {} elements were found by their own vector right after their insert returned", own_hit, own_all);
    }
    ensure!(a >= s - 0.04, "{:.3} of the elements inserted concurrently are found by their own vector, {:.3} when built sequentially", a, s);
    ensure!(a >= 0.93, "only {:.3} of the elements are found by their own vector", a);
    c.nontrivial(h.signature());
    Ok(())
}

/// many elements: each one has to be linked, and practically all are found
fn c12_large<K: Kind>(c: &mut Case, cap: usize) -> Res {
    let mut rng = c.rng.fork();
    let cfg = Cfg { nn: *rng.pick(&[10, 16]), ms: *rng.pick(&[20, 30]), mult: *rng.pick(&[6.0, 15.0, 40.0]), reinsert: false, expected: None, progress: false };
    let (threads, pool, batch) = (rng.range(1, 4), *rng.pick(&[1, 2, 4]), *rng.pick(&[1, 10, 1000, 5000]));
    let spec = Spec::new(&mut rng, 8, Flavor::Uniform);
    let empty = K::empty_large(&mut rng, &spec, 400);
    let items: Vec<K::I> = (0..cap).map(|_| K::item(&mut rng, &spec, &empty)).collect();
    c.note(format!("large {} capacity {}, {} threads insert batches of {} pool={} {:?}", K::NAME, cap, threads, batch, pool, cfg));
    let rw = no_panic("RwGranneBuilder::new", || RwGranneBuilder::new(GranneBuilder::new(cfg.build(), empty.clone()), cap, pool))?;
    let next = AtomicUsize::new(0);
    let got: Vec<Result<usize, Panicked>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads)
            .map(|_| {
                let (rw, items, next) = (&rw, &items, &next);
                s.spawn(move || {
                    catch(|| {
                        let mut k = 0;
                        loop {
                            let at = next.fetch_add(batch, SeqCst).min(items.len());
                            let end = (at + batch).min(items.len());
                            if at == end {
                                return k;
                            }
                            k += if batch == 1 { rw.insert(items[at].clone()).is_some() as usize } else { rw.insert_batch(items[at..end].to_vec()).len() };
                        }
                    })
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let mut all = 0;
    for r in got {
        match r {
            Ok(k) => all += k,
            Err(Panicked::Lib(m)) => return Err(format!("inserting {}", m)),
            Err(Panicked::Harness(m)) => std::panic::panic_any(m),
        }
    }
    ensure!(all == cap && rw.len() == cap, "{} ids for {} inserts, len() {}", all, cap, rw.len());
    let els = rw.get_elements().clone();
    let (mut a, mut b) = (Cursor::new(Vec::new()), Vec::new());
    no_panic("write", || rw.write(&mut a, &mut b))?.map_err(|e| format!("write: {}", e))?;
    let a = a.into_inner();
    let ix = Granne::from_bytes(&a, els);
    ensure!(ix.len() == cap, "the snapshot has {} of {} elements", ix.len(), cap);
    let l = ix.num_layers() - 1;
    for i in 0..cap {
        ensure!(!ix.get_neighbors(i, l).is_empty(), "element {} of {} has no links although its insert returned", i, cap);
    }
    let mut lost = 0;
    for i in 0..cap {
        let q = ix.get_element(i);
        let own = ix.get_elements().dist_to_element(i, &q).into_inner();
        let r = no_panic("search", || rw.search(&q, 100, 1))?;
        lost += !r.first().map_or(false, |x| x.1 <= own) as usize;
    }
    c.ctx.max("large_lost", lost as f64 / cap as f64);
    ensure!(lost as f64 <= 3.0 + 0.002 * cap as f64, "{} of {} elements are not found by their own vector with width 100", lost, cap);
    c.ctx.count("large_elements", cap as u64);
    c.nontrivial(hash_bytes(c.desc.as_bytes()));
    Ok(())
}

/// a single batch of tens of thousands, and a snapshot of all of it
fn flood<K: Kind>(c: &mut Case) -> Res {
    let mut rng = c.rng.fork();
    let cap = match c.idx % 4 {
        0 => rng.range(132_000, 140_000),
        1 => rng.range(66_000, 70_000),
        _ => rng.range(12_000, 40_000),
    };
    let cfg = Cfg { nn: rng.range(4, 6), ms: rng.range(4, 8), mult: *rng.pick(&[6.0, 15.0, 40.0]), reinsert: false, expected: None, progress: false };
    let pool = *rng.pick(&[1, 4, 8]);
    let first = if rng.chance(0.5) { rng.range(1, cap / 20) } else { 0 };
    let over = if rng.chance(0.5) { rng.range(1, 100) } else { 0 };
    let spec = Spec::new(&mut rng, 6, Flavor::Uniform);
    let empty = K::empty_large(&mut rng, &spec, 400);
    let items: Vec<K::I> = (0..cap + over).map(|_| K::item(&mut rng, &spec, &empty)).collect();
    c.note(format!("flood {} capacity {}, {} and {} at once, pool={} {:?}", K::NAME, cap, first, items.len() - first, pool, cfg));
    let rw = no_panic("RwGranneBuilder::new", || RwGranneBuilder::new(GranneBuilder::new(cfg.build(), empty.clone()), cap, pool))?;
    let ids = no_panic("insert_batch", || rw.insert_batch(items[..first].to_vec()))?;
    ensure!(ids.iter().copied().eq(0..first), "{} elements at once got {} ids, not 0 to {}", first, ids.len(), first);
    let ids = no_panic("insert_batch", || rw.insert_batch(items[first..].to_vec()))?;
    ensure!(ids.iter().copied().eq(first..cap), "{} elements at once into {} free places got {} ids, not {} to {}", items.len() - first, cap - first, ids.len(), first, cap);
    ensure!(rw.len() == cap && rw.get_elements().len() == cap, "len() is {} after {} inserts", rw.len(), cap);
    let mut want = empty.clone();
    for it in &items[..cap] {
        want.push(it.clone());
    }
    let (mut a, mut b) = (Cursor::new(Vec::new()), Vec::new());
    no_panic("write", || rw.write(&mut a, &mut b))?.map_err(|e| format!("write: {}", e))?;
    ensure!(b == written(&want, "write")?, "the elements of the snapshot are not the {} inserted ones in order of their ids", cap);
    let a = a.into_inner();
    let ix = no_panic("from_bytes", || Granne::from_bytes(&a, want))?;
    ensure!(ix.len() == cap, "the snapshot has {} of {} elements", ix.len(), cap);
    well_formed(&ix, cap, cfg.nn)?;
    let l = ix.num_layers() - 1;
    // sums of few words are often equal, and duplicates of several others stay unlinked
    if K::NAME != Sum::NAME {
        for i in 0..cap {
            ensure!(!ix.get_neighbors(i, l).is_empty(), "element {} of {} has no links although its insert returned", i, cap);
        }
    }
    c.ctx.count("flooded", cap as u64);
    c.nontrivial(hash_bytes(c.desc.as_bytes()));
    Ok(())
}

fn floods(c: &mut Case) -> Res {
    match c.rng.below(3) {
        0 => flood::<F32>(c),
        1 => flood::<I8>(c),
        _ => flood::<Sum>(c),
    }
}

pub fn run_c12(ctx: &Ctx) {
    ctx.rule("Histories of concurrent inserts with 1-4 searching threads and saves. Every search result is checked against what could exist (ids, order, exact distances, not empty after an acknowledged insert). In the exhaustive regime (lists cannot fill, width covers everything, distinct elements) every search must contain all acknowledged elements and a final one must equal brute force. Larger builds are compared with a sequential build; in builders of up to 70,000 elements every one must be linked and practically all found; a single batch of up to 140,000 must get consecutive ids and be saved whole and linked. Non-trivial: a search overlapped an insert; distinct: different id assignment or plan.");
    let w = ctx.workers.min(4);
    fn any(c: &mut Case) -> Res {
        crate::any_noisy_kind!(c.rng, c12_case, c, false)
    }
    fn exh(c: &mut Case) -> Res {
        crate::any_noisy_kind!(c.rng, c12_case, c, true)
    }
    fn qual(c: &mut Case) -> Res {
        match c.rng.below(3) {
            0 => c12_quality::<F32>(c),
            1 => c12_quality::<I8>(c),
            _ => c12_quality::<Sum>(c),
        }
    }
    ctx.cases("any", ctx.n(500, 10000), w, any);
    ctx.cases("exhaustive", ctx.n(1500, 30000), w, exh);
    ctx.cases("quality", ctx.n(24, 400), w, qual);
    ctx.cases("flood", ctx.n(4, 60), 2, floods);
    ctx.cases("large", ctx.n(4, 40), w, |c| {
        let cap = match c.idx % 8 {
            0 => c.rng.range(16_000, 18_000),
            4 => c.rng.range(66_000, 70_000),
            _ => c.rng.range(4_200, 9_000),
        };
        match c.idx % 3 {
            0 => c12_large::<F32>(c, cap),
            1 => c12_large::<I8>(c, cap),
            _ => c12_large::<Sum>(c, cap),
        }
    });
}

fn c13_case<K: Kind>(c: &mut Case, exhaustive: bool, large: bool) -> Res {
    let mut rng = c.rng.fork();
    let mut p = if large { large_plan(&mut rng) } else { small_plan(&mut rng, exhaustive) };
    p.savers = rng.range(1, 3);
    if !exhaustive && !large {
        p.flavor = *rng.pick(ANY);
    }
    c.note(p.describe());
    let h = match execute::<K>(c, &mut rng, &p, 0)? {
        Some(h) => h,
        None => return Ok(()),
    };
    h.check_snapshots(c)?;
    let during = h.ops.iter().filter(|o| match &o.what {
        What::Save { .. } => h.ops.iter().any(|i| matches!(i.what, What::Insert { .. }) && i.s < o.e && i.e > o.s),
        _ => false,
    }).count();
    c.count("saves_overlapping_inserts", during as u64);
    if during > 0 && h.els.len() > 1 {
        c.nontrivial(h.signature());
    }
    Ok(())
}

/// quiescent snapshots at every size, layer-growth points included
fn c13_steps<K: Kind>(c: &mut Case) -> Res {
    let mut rng = c.rng.fork();
    let mut p = small_plan(&mut rng, rng_bool(c.idx));
    p.cap = p.cap.min(40);
    p.prefill = p.prefill.min(p.cap);
    p.writers = vec![];
    p.searchers = 0;
    p.readers = 0;
    p.savers = 0;
    p.workers = 0;
    if p.exhaustive {
        p.cfg.nn = (2 * p.cap).clamp(2, 250);
    }
    c.note(format!("steps {}", p.describe()));
    let mut h = match execute::<K>(c, &mut rng, &p, 0)? {
        Some(h) => h,
        None => return Ok(()),
    };
    let mut clean = Vec::new();
    while h.rw.len() < p.cap {
        let it = K::item(&mut rng, &h.spec, &h.empty);
        if p.exhaustive {
            let mut t = h.els.clone();
            t.push(it.clone());
            if !separated(&t) {
                clean.push(0);
                if clean.len() > 50 {
                    return Ok(());
                }
                continue;
            }
        }
        no_panic("insert", || h.rw.insert(it))?;
        h.els = h.rw.get_elements().clone();
        let (mut a, mut b) = (Cursor::new(Vec::new()), Vec::new());
        no_panic("write", || h.rw.write(&mut a, &mut b))?.map_err(|e| format!("write: {}", e))?;
        let n = h.rw.len();
        let all: Vec<usize> = (0..n).collect();
        h.check_snapshot(c, &mut rng, &a.into_inner(), &b, &all, n)?;
        ensure!(b == written(&h.els, "write")?, "the element file of a snapshot of {} elements is not what the collection writes", n);
        c.ctx.count("quiescent_snapshots", 1);
    }
    c.nontrivial(hash_bytes(c.desc.as_bytes()));
    Ok(())
}
fn rng_bool(i: u64) -> bool {
    i % 2 == 0
}

pub fn run_c13(ctx: &Ctx) {
    ctx.rule("Histories of concurrent inserts with 1-3 threads saving to memory or files, plus quiescent snapshots after every single insert of small builders. Each snapshot is loaded and compared with the final insertion order: same count in both files, a prefix with unchanged contents, containing every acknowledged insert, a well-formed graph, searches valid (exhaustive ones complete for acknowledged elements), usable for further building. Non-trivial: a save overlapped an insert; distinct: different id assignment or plan.");
    let w = ctx.workers.min(4);
    fn any(c: &mut Case) -> Res {
        crate::any_noisy_kind!(c.rng, c13_case, c, false, false)
    }
    fn exh(c: &mut Case) -> Res {
        crate::any_noisy_kind!(c.rng, c13_case, c, true, false)
    }
    fn steps(c: &mut Case) -> Res {
        crate::any_kind!(c.rng, c13_steps, c)
    }
    ctx.cases("any", ctx.n(500, 10000), w, any);
    ctx.cases("exhaustive", ctx.n(600, 12000), w, exh);
    ctx.cases("steps", ctx.n(150, 3000), w, steps);
    ctx.cases("large", ctx.n(12, 160), w, |c| crate::any_kind!(c.rng, c13_case, c, false, true));
    ctx.cases("flood", ctx.n(4, 60), 2, floods);
}
