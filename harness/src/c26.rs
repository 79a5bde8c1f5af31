//! C26: input that cannot be read in full is refused, never silently skipped.
use crate::c19::{corpus, file_lines, gz, json_string, word, Corpus};
use crate::codec::{decode_terms, encode_f32, encode_i8, encode_terms};
use crate::ensure;
use crate::fault::*;
use crate::gen::*;
use crate::graph::*;
use crate::util::*;
use granne::embeddings::parsing::*;
use granne::embeddings::SumEmbeddings;
use granne::{angular, angular_int, Granne, Index};
use std::path::Path;

#[derive(Debug, PartialEq, Clone)]
enum Got {
    /// refused, visibly
    Refused(String),
    /// the number reported and what the files hold
    Done(usize, Vec<Vec<usize>>),
}

fn run_parse(co: &Corpus, out: &Path, shards: usize, threads: usize) -> Result<Got, String> {
    let r = in_pool(threads, || {
        catch(|| match shards {
            0 => parse_elements_and_save_to_disk(&co.input, &co.words, &out.join("out.bin"), false),
            s => parse_elements_and_save_shards_to_disk(&co.input, &co.words, out, s, false),
        })
    });
    match r {
        Err(Panicked::Harness(m)) => panic!("{}", m),
        Err(Panicked::Lib(m)) => Ok(Got::Refused(m)),
        Ok(n) => {
            let mut all = Vec::new();
            let names: Vec<String> = if shards == 0 { vec!["out.bin".into()] } else { (0..shards).map(|i| format!("elements-{}.bin", i)).collect() };
            for f in names {
                let b = std::fs::read(out.join(&f)).map_err(|e| format!("success, but {}: {}", f, e))?;
                all.extend(decode_terms(&b).map_err(|e| format!("success, but {} is malformed: {}", f, e))?);
            }
            Ok(Got::Done(n, all))
        }
    }
}

fn judge(c: &Case, got: Got, want: &[Vec<usize>], what: &str, must_refuse: bool, must_work: bool) -> Res {
    match got {
        Got::Refused(m) => {
            ensure!(!must_work, "{}: refused although nothing is wrong: {}", what, m);
            c.ctx.count("refusals", 1);
        }
        Got::Done(n, all) => {
            ensure!(!must_refuse, "{}: reports success ({} elements)", what, n);
            ensure!(n == all.len() && n == want.len(), "{}: reports success with {} elements, {} stored, instead of {}", what, n, all.len(), want.len());
            for i in 0..n {
                ensure!(all[i] == want[i], "{}: reports success with element {} {:?} instead of {:?}", what, i, all[i], want[i]);
            }
            c.ctx.count("unharmed", 1);
        }
    }
    Ok(())
}

/// a line that is not a JSON string
fn bad_line(rng: &mut Rng) -> (&'static str, Vec<u8>) {
    let w = word(rng);
    let good = json_string(rng, &w);
    let g = good.as_bytes();
    match rng.below(12) {
        0 => ("empty line", vec![]),
        1 => ("blank line", b"  \t".to_vec()),
        2 => ("bare words", b"some words".to_vec()),
        3 => ("number", b"17".to_vec()),
        4 => ("null", b"null".to_vec()),
        5 => ("list", [b"[", g, b"]"].concat()),
        6 => ("object", [b"{\"q\": ", g, b"}"].concat()),
        7 => ("unterminated string", g[..g.len() - 1].to_vec()),
        8 => ("two values", [g, b" ", g].concat()),
        9 => ("bad escape", b"\"a\\qb\"".to_vec()),
        10 => ("invalid UTF-8", [b"\"a\xff\xfeb\"".to_vec(), vec![]].concat()),
        _ => ("lone surrogate", b"\"\\ud800\"".to_vec()),
    }
}

fn lines_of(b: &[u8]) -> Vec<Vec<u8>> {
    let mut l: Vec<Vec<u8>> = b.split(|&x| x == b'\n').map(|x| x.to_vec()).collect();
    if l.last().map_or(false, |x| x.is_empty()) {
        l.pop();
    }
    l
}

fn spoil(rng: &mut Rng, plain: &[u8]) -> (&'static str, Vec<u8>) {
    let mut l = lines_of(plain);
    let (what, bad) = bad_line(rng);
    // an empty last line is no line at all
    let at = match rng.below(3) {
        0 => 0,
        1 => rng.below(l.len() + 1),
        _ => l.len(),
    };
    if at < l.len() && rng.chance(0.3) {
        l[at] = bad;
    } else {
        l.insert(at, bad);
    }
    let mut o = l.join(&b"\n"[..]);
    o.push(b'\n');
    (what, o)
}

fn parts_of(co: &Corpus) -> Vec<std::path::PathBuf> {
    if co.input.is_dir() {
        let mut v: Vec<_> = std::fs::read_dir(&co.input).unwrap().map(|x| x.unwrap().path()).collect();
        v.sort();
        v
    } else {
        vec![co.input.clone()]
    }
}

fn unpack(b: &[u8]) -> Vec<u8> {
    use std::io::Read;
    let mut o = Vec::new();
    flate2::read::MultiGzDecoder::new(b).read_to_end(&mut o).unwrap();
    o
}

/// damaged text, words and archives
fn damage(c: &mut Case) -> Res {
    let mut rng = c.rng.fork();
    let co = corpus(&mut rng, c.ctx, false, false);
    let parts = parts_of(&co);
    let mut seen = 0u64;
    for _ in 0..6 {
        let t = *rng.pick(&[1, 1, 2, 8]);
        let shards = *rng.pick(&[0, 0, 0, 1, 3]);
        let target = if rng.chance(0.2) || parts.is_empty() { co.words.clone() } else { rng.pick(&parts).clone() };
        let orig = std::fs::read(&target).unwrap();
        let packed = target != co.words && target.to_str().unwrap().ends_with(".gz");
        let (what, bytes, must): (String, Vec<u8>, bool) = if packed && rng.chance(0.65) {
            match rng.below(5) {
                // one member, cut before its end
                0 | 1 => {
                    let plain = unpack(&orig);
                    use std::io::Write;
                    let mut e = flate2::write::GzEncoder::new(Vec::new(), flate2::Compression::new(*rng.pick(&[0, 1, 6, 9])));
                    e.write_all(&plain).unwrap();
                    let z = e.finish().unwrap();
                    let at = if rng.chance(0.5) { z.len() - 1 - rng.below(9) } else { rng.range(1, z.len() - 1) };
                    (format!("archive cut at {} of {}", at, z.len()), z[..at].to_vec(), true)
                }
                // a bit of the contents or the checksum of the last member
                2 => {
                    let mut z = orig.clone();
                    let at = z.len() - 1 - rng.below(8);
                    z[at] ^= 1 << rng.below(8);
                    (format!("checksum or length damaged at {}", at), z, true)
                }
                3 => {
                    let mut z = orig.clone();
                    let at = rng.below(z.len());
                    z[at] ^= 1 << rng.below(8);
                    (format!("bit flipped at {} of {}", at, z.len()), z, false)
                }
                _ => ("plain text named .gz".into(), b"\"some words\"\n".to_vec(), true),
            }
        } else {
            let plain = if packed { unpack(&orig) } else { orig.clone() };
            let (w, b) = spoil(&mut rng, &plain);
            (w.to_string(), if packed { gz(&mut rng, &b) } else { b }, true)
        };
        let what = format!("{} in {} ({}, {} threads, {} shards)", what, if target == co.words { "the words" } else { "the text" }, co.what, t, shards);
        c.note(what.clone());
        seen ^= hash_bytes(&bytes);
        std::fs::write(&target, &bytes).unwrap();
        let out = Dir::new(c.ctx);
        let got = run_parse(&co, &out.0, shards, t)?;
        std::fs::write(&target, &orig).unwrap();
        judge(c, got, &co.want, &what, must, false)?;
    }
    // missing things
    let (a, b) = (co.dir.p("moved"), Dir::new(c.ctx));
    if rng.chance(0.5) {
        std::fs::rename(&co.words, &a).unwrap();
        judge(c, run_parse(&co, &b.0, 0, 2)?, &co.want, "missing word list", true, false)?;
        std::fs::rename(&a, &co.words).unwrap();
    } else if co.input.is_dir() && rng.chance(0.7) {
        let l = co.input.join(format!("{}dangling{}", rng.pick(&["", "a", "z"]), rng.pick(&["", ".gz"])));
        std::os::unix::fs::symlink("/nonexistent/file", &l).unwrap();
        judge(c, run_parse(&co, &b.0, 0, 2)?, &co.want, "a part that cannot be opened", true, false)?;
        std::fs::remove_file(&l).unwrap();
    } else {
        std::fs::rename(&co.input, &a).unwrap();
        judge(c, run_parse(&co, &b.0, 0, 2)?, &co.want, "missing text", true, false)?;
        std::fs::rename(&a, &co.input).unwrap();
    }
    // all is as before
    let b = Dir::new(c.ctx);
    judge(c, run_parse(&co, &b.0, 0, 2)?, &co.want, "undamaged input", false, true)?;
    c.nontrivial(seen);
    Ok(())
}

/// operations on the input that fail, are interrupted or come in pieces
fn faults(c: &mut Case) -> Res {
    let mut rng = c.rng.fork();
    let co = corpus(&mut rng, c.ctx, false, false);
    c.note(format!("faults {}", co.what));
    let dir = &co.dir.0;
    let t = *rng.pick(&[1, 1, 2, 8]);
    let out = Dir::new(c.ctx);
    let a = arm(dir, Op::Read, 0, How::Count, 0);
    let got = run_parse(&co, &out.0, 0, t)?;
    let n = [a.seen(Op::Read), a.seen(Op::Open), a.seen(Op::List)];
    drop(a);
    judge(c, got, &co.want, "healthy input", false, true)?;
    ensure!(co.want.is_empty() || n[0] > 0, "harness: no reads seen");
    ensure!(!co.input.is_dir() || n[2] > 0, "harness: no directory reads seen");
    c.ctx.count("input_operations", n.iter().sum::<usize>() as u64);
    for (op, n) in [(Op::Read, n[0]), (Op::Open, n[1]), (Op::List, n[2])] {
        let cap = if c.ctx.thorough { 60 } else { 12 };
        let at: Vec<usize> = if n <= cap { (0..n).collect() } else { (0..cap).map(|i| if i < 3 { i } else if i < 6 { n - 1 - (i - 3) } else { rng.below(n) }).collect() };
        for k in at {
            let how = match op {
                Op::List => *rng.pick(&[How::Once, How::From]),
                Op::Open => *rng.pick(&[How::Once, How::From, How::Interrupt]),
                _ => *rng.pick(&[How::Once, How::From, How::Interrupt]),
            };
            let e = *rng.pick(ERRORS);
            let shards = *rng.pick(&[0, 0, 2]);
            let out = Dir::new(c.ctx);
            let what = format!("{:?} {:?} at {} of {} (error {}, {} threads, {} shards)", op, how, k, n, e, t, shards);
            let a = arm(dir, op, k, how, e);
            let got = run_parse(&co, &out.0, shards, t)?;
            let hit = a.hits() > 0;
            drop(a);
            c.ctx.count(&format!("faults_{:?}", op).to_lowercase(), hit as u64);
            // what succeeds is right, and what was not disturbed succeeds
            judge(c, got, &co.want, &what, false, !hit || how == How::Interrupt)?;
        }
    }
    for _ in 0..2 {
        let out = Dir::new(c.ctx);
        let a = arm(dir, Op::Read, rng.below(1 << 20), How::Short, 0);
        let got = run_parse(&co, &out.0, 0, t)?;
        c.ctx.count("short_reads", a.hits() as u64);
        drop(a);
        judge(c, got, &co.want, "reads in pieces", false, true)?;
    }
    c.nontrivial(rng.seed() ^ n[0] as u64);
    Ok(())
}

/// files that cannot be mapped or opened
fn maps(c: &mut Case) -> Res {
    let mut rng = c.rng.fork();
    let d = Dir::new(c.ctx);
    let (dim, n) = (rng.range(1, 20), rng.range(1, 40));
    c.note(format!("maps n={} dim={}", n, dim));
    let emb: Vec<Vec<f32>> = (0..n).map(|_| (0..dim).map(|_| rng.sf()).collect()).collect();
    let ints: Vec<Vec<i8>> = (0..n).map(|_| (0..dim).map(|_| rng.next() as i8).collect()).collect();
    let terms: Vec<Vec<usize>> = (0..n).map(|_| (0..rng.range(1, 4)).map(|_| rng.below(n)).collect()).collect();
    std::fs::write(d.p("emb"), encode_f32(&emb, dim)).unwrap();
    std::fs::write(d.p("ints"), encode_i8(&ints, dim)).unwrap();
    std::fs::write(d.p("terms"), encode_terms(&terms)).unwrap();
    {
        use granne::{Builder, GranneBuilder};
        let e = unsafe { angular::Vectors::from_file(&std::fs::File::open(d.p("emb")).unwrap()) }.unwrap();
        let mut b = GranneBuilder::new(granne::BuildConfig::new().num_neighbors(5), e);
        b.build();
        let mut f = std::fs::File::create(d.p("index")).unwrap();
        b.write_index(&mut f).unwrap();
    }
    let open = |s: &str| std::fs::File::open(d.p(s)).unwrap();
    let load = |what: usize| -> Result<usize, String> {
        unsafe {
            match what {
                0 => angular::Vectors::from_file(&open("emb")).map(|x| x.len()),
                1 => angular_int::Vectors::from_file(&open("ints")).map(|x| x.len()),
                2 => SumEmbeddings::from_files(&open("emb"), Some(&open("terms"))).map(|x| x.len()),
                3 => SumEmbeddings::from_files(&open("emb"), None).map(|x| x.num_embeddings()),
                _ => angular::Vectors::from_file(&open("emb")).and_then(|v| Granne::from_file(&open("index"), v)).map(|x| x.len()),
            }
        }
        .map_err(|e| e.to_string())
    };
    for what in 0..5 {
        let a = arm(&d.0, Op::Map, 0, How::Count, 0);
        let r = no_panic("loading", || load(what))?;
        let k = a.seen(Op::Map);
        drop(a);
        ensure!(r == Ok(n), "loading {}: {:?} instead of {}", what, r, n);
        // the vectors of the last case are mapped first
        for at in 0..k {
            for how in [How::Once, How::From] {
                let e = *rng.pick(ERRORS);
                let a = arm(&d.0, Op::Map, at, how, e);
                let r = catch(|| load(what));
                let hit = a.hits() > 0;
                drop(a);
                match r {
                    Err(Panicked::Harness(m)) => panic!("{}", m),
                    Ok(Ok(m)) => ensure!(!hit || m == n, "loading {} succeeds with {} elements instead of {} although a file could not be mapped", what, m, n),
                    _ => c.ctx.count("refusals", 1),
                }
                c.ctx.count("faults_map", hit as u64);
            }
        }
    }
    // precomputing vectors
    let want = {
        compute_embeddings_and_save_to_disk(&d.p("terms"), &d.p("emb"), &d.p("v0"), false);
        std::fs::read(d.p("v0")).unwrap()
    };
    for (op, errs) in [(Op::Map, ERRORS), (Op::Open, ERRORS)] {
        for at in 0..3 {
            std::fs::remove_file(d.p("v1")).ok();
            let a = arm(&d.0, op, at, How::Once, *rng.pick(errs));
            let r = catch(|| compute_embeddings_and_save_to_disk(&d.p("terms"), &d.p("emb"), &d.p("v1"), false));
            let hit = a.hits() > 0;
            drop(a);
            match r {
                Err(Panicked::Harness(m)) => panic!("{}", m),
                Err(Panicked::Lib(m)) => ensure!(hit, "computing vectors: {}", m),
                Ok(()) => {
                    let b = std::fs::read(d.p("v1")).map_err(|e| format!("computing vectors succeeds without output: {}", e))?;
                    ensure!(b == want, "computing vectors succeeds with other output although {:?} {} failed", op, at);
                }
            }
            c.ctx.count("faults_compute", hit as u64);
        }
    }
    let _ = file_lines;
    c.nontrivial(hash_bytes(&want) ^ n as u64);
    Ok(())
}

pub fn run(ctx: &Ctx) {
    ctx.rule("(1) Text corpora as for C19 with one damage each: a line that is no JSON string (12 kinds, at the start, middle or end), in the text, the word list or inside an archive; archives cut, bit-flipped or not archives; missing and dangling files; (2) every open, read and directory read of the input (the C library's calls are interposed) fails once, or from then on, or is interrupted, or reads come in pieces; (3) every mapping of a loaded file and every open of precomputing fails. Success must mean the output of the undamaged input; what is certain damage must be refused; undisturbed and merely interrupted runs must succeed. Non-trivial and distinct: different damaged bytes or inputs.");
    let w = ctx.workers;
    ctx.cases("damage", ctx.n(500, 10000), w, damage);
    ctx.cases("faults", ctx.n(150, 2500), w, faults);
    ctx.cases("maps", ctx.n(60, 1000), w, maps);
}
