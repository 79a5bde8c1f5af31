//! C19: text pipeline against a reference parser.
use crate::codec::*;
use crate::ensure;
use crate::gen::*;
use crate::util::*;
use granne::embeddings::parsing::*;
use granne::embeddings::SumEmbeddings;
use granne::{angular_int, ElementContainer};
use std::collections::HashMap;
use std::io::Write;

const SPACES: &[&str] = &[" ", " ", " ", "  ", "\t", "\u{a0}", "\u{3000}", "\n", "\r\n", "\u{2003}", " \u{2028} "];
const LETTERS: &[char] = &['a', 'b', 'c', 'x', 'é', 'ß', 'Ω', '文', '字', '😀', '0', '7', '-', '\'', '"', '\\', '/', '.', ',', '\u{200b}', '\u{301}'];

pub fn word(rng: &mut Rng) -> String {
    let most = if rng.chance(0.1) { 30 } else { 5 };
    let n = rng.range(1, most);
    (0..n).map(|_| *rng.pick(LETTERS)).collect()
}

/// one of the many spellings JSON has for the same string
pub fn json_string(rng: &mut Rng, s: &str) -> String {
    match rng.below(3) {
        0 => serde_json::to_string(s).unwrap(),
        _ => {
            let all = rng.chance(0.3);
            let mut o = String::from("\"");
            for ch in s.chars() {
                let must = (ch as u32) < 0x20 || ch == '"' || ch == '\\';
                if all || must || rng.chance(0.15) {
                    if ch == '/' && rng.chance(0.5) {
                        o.push_str("\\/");
                    } else if ch == '\n' && rng.chance(0.5) {
                        o.push_str("\\n");
                    } else {
                        let mut b = [0u16; 2];
                        for u in ch.encode_utf16(&mut b) {
                            let h = if rng.chance(0.5) { format!("\\u{:04x}", u) } else { format!("\\u{:04X}", u) };
                            o.push_str(&h);
                        }
                    }
                } else {
                    o.push(ch);
                }
            }
            o.push('"');
            o
        }
    }
}

pub fn words(rng: &mut Rng, n: usize) -> Vec<String> {
    let mut seen = std::collections::HashSet::new();
    let mut v = Vec::new();
    while v.len() < n {
        let mut w = word(rng);
        if rng.chance(0.02) {
            w.push(' ');
            w.push_str(&word(rng));
        } else if rng.chance(0.02) {
            w.push(':');
        } else if rng.chance(0.01) {
            w.clear();
        } else if n > 2000 {
            w = format!("{}{}", w, v.len());
        }
        if seen.insert(w.clone()) {
            v.push(w);
        }
    }
    v
}

fn text(rng: &mut Rng, ws: &[String]) -> String {
    let mut t = String::new();
    for _ in 0..rng.below(3) {
        // ignored: everything up to the last colon
        for _ in 0..rng.below(4) {
            if !ws.is_empty() && rng.chance(0.7) {
                t.push_str(rng.pick(ws).as_str());
            } else {
                t.push_str(&word(rng));
            }
            t.push_str(rng.pick(SPACES));
        }
        t.push(':');
    }
    if rng.chance(0.1) {
        return t;
    }
    if rng.chance(0.3) {
        t.push_str(rng.pick(SPACES));
    }
    let n = if rng.chance(0.03) { rng.range(10, 300) } else { rng.below(9) };
    let mut last = String::new();
    for i in 0..n {
        if i > 0 {
            t.push_str(rng.pick(SPACES));
        }
        let w = match rng.below(8) {
            0 => word(rng),
            1 if !last.is_empty() => last.clone(),
            2 if !ws.is_empty() => {
                // almost a known word
                let mut w = rng.pick(ws).clone();
                if rng.chance(0.5) {
                    w.push(*rng.pick(LETTERS));
                } else {
                    w = w.to_uppercase();
                }
                w
            }
            _ if !ws.is_empty() => rng.pick(ws).clone(),
            _ => word(rng),
        };
        t.push_str(&w);
        last = w;
    }
    if rng.chance(0.2) {
        t.push_str(rng.pick(SPACES));
    }
    t
}

/// what a line stands for
pub fn reference(line: &str, ids: &HashMap<&str, usize>) -> Vec<usize> {
    let tail: String = {
        let mut t = Vec::new();
        for ch in line.chars().rev() {
            if ch == ':' {
                break;
            }
            t.push(ch);
        }
        t.into_iter().rev().collect()
    };
    let mut out = Vec::new();
    let mut cur = String::new();
    for ch in tail.chars().chain(Some(' ')) {
        if ch.is_whitespace() {
            if !cur.is_empty() {
                if let Some(&i) = ids.get(cur.as_str()) {
                    out.push(i);
                }
                cur.clear();
            }
        } else {
            cur.push(ch);
        }
    }
    out
}

pub fn file_lines(rng: &mut Rng, lines: &[String]) -> Vec<u8> {
    let crlf = rng.chance(0.15);
    let mut b = Vec::new();
    for (i, l) in lines.iter().enumerate() {
        if rng.chance(0.03) {
            b.push(b' ');
        }
        b.extend(json_string(rng, l).as_bytes());
        if i + 1 < lines.len() || !rng.chance(0.2) {
            b.extend(if crlf { &b"\r\n"[..] } else { &b"\n"[..] });
        }
    }
    b
}

/// gzip with any number of members cut anywhere
pub fn gz(rng: &mut Rng, b: &[u8]) -> Vec<u8> {
    let members = if rng.chance(0.4) { rng.range(2, 5) } else { 1 };
    let mut cuts: Vec<usize> = (1..members).map(|_| rng.below(b.len() + 1)).collect();
    cuts.push(0);
    cuts.push(b.len());
    cuts.sort();
    let mut o = Vec::new();
    for w in cuts.windows(2) {
        let level = flate2::Compression::new(*rng.pick(&[0, 1, 6, 9]));
        let mut e = flate2::write::GzEncoder::new(Vec::new(), level);
        e.write_all(&b[w[0]..w[1]]).unwrap();
        o.extend(e.finish().unwrap());
    }
    o
}

pub struct Corpus {
    pub dir: Dir,
    pub input: std::path::PathBuf,
    pub words: std::path::PathBuf,
    nwords: usize,
    pub want: Vec<Vec<usize>>,
    pub what: String,
}

pub fn corpus(rng: &mut Rng, ctx: &Ctx, big: bool, many: bool) -> Corpus {
    // a single file of more lines than two bytes count, or a directory of very many files
    let tall = many && rng.chance(0.4);
    let crowd = many && !tall && rng.chance(0.3);
    let dir = Dir::new(ctx);
    let nw = if big { rng.range(66_000, 75_000) } else { *rng.pick(&[0, 1, 3, 20, 200, 700]) };
    let ws = words(rng, nw);
    let ids: HashMap<&str, usize> = ws.iter().enumerate().map(|(i, w)| (w.as_str(), i)).collect();
    let wp = dir.p("words.json");
    std::fs::write(&wp, file_lines(rng, &ws)).expect("write");
    let parts = match rng.below(4) {
        _ if tall => 0,
        _ if crowd => rng.range(500, 1400),
        0 => 0,
        1 => rng.range(1, 4),
        2 => rng.range(5, 12),
        _ if rng.chance(0.08) => rng.range(65, 420),
        _ => rng.range(1, if big { 60 } else { 30 }),
    };
    let single = tall || parts == 0 && rng.chance(0.8);
    let input = if single { dir.p(*rng.pick(&["q.txt", "q.gz", "queries", "x.json.gz"])) } else { dir.p("parts") };
    let mut files: Vec<(String, Vec<String>)> = Vec::new();
    if single {
        files.push((input.file_name().unwrap().to_str().unwrap().to_string(), vec![]));
    } else {
        std::fs::create_dir_all(&input).expect("mkdir");
        let mut names = std::collections::BTreeSet::new();
        while names.len() < parts {
            let n = names.len();
            names.insert(match rng.below(6) {
                0 => format!("part-{}.gz", n),
                1 => format!("part-{:05}", n),
                2 => format!("{}.txt", word(rng).replace('/', "_")),
                3 => format!("P{}{}", n, if rng.chance(0.5) { ".gz" } else { ".GZ" }),
                4 => format!("é{}.gz", n),
                _ => format!("part-{}", n),
            });
        }
        files = names.into_iter().filter(|n| n != "." && n != "..").map(|n| (n, vec![])).collect();
    }
    if many && !crowd {
        files.truncate(5);
    }
    for f in files.iter_mut() {
        let n = match rng.below(8) {
            _ if tall => rng.range(65_537, 90_000),
            _ if many && !crowd => rng.range(1_000, 20_000),
            0 => 0,
            1 => rng.range(60, 400),
            _ => rng.below(30),
        };
        f.1 = (0..n).map(|_| text(rng, &ws)).collect();
        if tall && !ws.is_empty() {
            // more than a million terms
            for _ in 0..rng.range(15, 40) {
                let mut t = String::new();
                for _ in 0..50_000 {
                    t.push_str(rng.pick(&ws).as_str());
                    t.push(' ');
                }
                let at = rng.below(n);
                f.1[at] = t;
            }
        }
        if many && !crowd && !ws.is_empty() {
            // a line longer than any buffer
            let mut t = String::new();
            for _ in 0..rng.range(3_000, 70_000) {
                t.push_str(rng.pick(&ws).as_str());
                t.push_str(rng.pick(SPACES));
            }
            let at = rng.below(n);
            f.1[at] = t;
        }
    }
    // file-name order is byte order
    files.sort_by(|a, b| a.0.as_bytes().cmp(b.0.as_bytes()));
    let mut order: Vec<usize> = (0..files.len()).collect();
    rng.shuffle(&mut order);
    let (mut packed, mut plain) = (0, 0);
    for i in order {
        let (name, lines) = &files[i];
        let mut b = file_lines(rng, lines);
        if name.ends_with(".gz") {
            b = gz(rng, &b);
            packed += 1;
        } else {
            plain += 1;
        }
        let p = if single { input.clone() } else { input.join(name) };
        std::fs::write(p, b).expect("write");
    }
    let want: Vec<Vec<usize>> = files.iter().flat_map(|f| f.1.iter().map(|l| reference(l, &ids))).collect();
    let what = format!("words={} {} plain={} gz={} lines={}", nw, if single { "file" } else { "directory" }, plain, packed, want.len());
    ctx.count("lines", want.len() as u64);
    ctx.count("known_words", want.iter().map(|w| w.len() as u64).sum());
    ctx.count("parts", files.len() as u64);
    Corpus { dir, input, words: wp, nwords: nw, want, what }
}

fn same(got: &[Vec<usize>], want: &[Vec<usize>], what: &str) -> Res {
    ensure!(got.len() == want.len(), "{}: {} elements for {} lines", what, got.len(), want.len());
    for i in 0..got.len() {
        ensure!(got[i] == want[i], "{}: element {} has terms {:?} instead of {:?}", what, i, got[i], want[i]);
    }
    Ok(())
}

fn parse_case(c: &mut Case, big: bool, many: bool) -> Res {
    let mut rng = c.rng.fork();
    let co = corpus(&mut rng, c.ctx, big, many);
    c.note(co.what.clone());
    let d = &co.dir;
    // whole
    let pools = [1, *rng.pick(&[2, 4, 8])];
    let mut first: Option<Vec<u8>> = None;
    for (k, t) in pools.iter().enumerate() {
        let out = d.p(&format!("whole{}.bin", k));
        if rng.chance(0.5) {
            std::fs::write(&out, vec![7u8; 100_000]).expect("write");
        }
        let progress = rng.chance(0.3);
        let n = in_pool(*t, || no_panic("parsing", || parse_elements_and_save_to_disk(&co.input, &co.words, &out, progress)))?;
        ensure!(n == co.want.len(), "parsing reports {} elements for {} lines", n, co.want.len());
        let b = std::fs::read(&out).map_err(|e| format!("no output: {}", e))?;
        let got = decode_terms(&b).map_err(|e| format!("output is malformed: {}", e))?;
        same(&got, &co.want, &format!("with {} threads", t))?;
        match &first {
            None => first = Some(b),
            Some(f) => ensure!(*f == b, "the output depends on the number of threads or on progress display"),
        }
    }
    // shards
    let n = co.want.len();
    for _ in 0..2 {
        let shards = match rng.below(6) {
            0 => 1,
            1 => 2,
            2 => rng.range(1, 12),
            3 => n.max(1),
            4 => n + 1 + rng.below(5),
            _ => rng.range(1, n.max(1).min(60) + 3),
        }
        .min(if many { 1200 } else { 150 });
        let shards = if many && rng.chance(0.5) { rng.range(250, 1000) } else { shards };
        let t = *rng.pick(&[1, 3, 8]);
        let sd = Dir::new(c.ctx);
        let (out, names): (_, Vec<String>) = match rng.below(6) {
            3 | 4 => {
                let stem = *rng.pick(&["q", "my queries", "a.b", "elements-1", "2020-01-01", "é-ü", "bin", "x_y", "A", "-"]);
                let ext = *rng.pick(&["bin", "v2", "2024", "dat", "x1y", "B", "gz", "e-f", "ö", "element s"]);
                (sd.p(&format!("{}.{}", stem, ext)), (0..shards).map(|i| format!("{}-{}.{}", stem, i, ext)).collect())
            }
            5 => {
                let stem = *rng.pick(&["q", "my queries", "elements-1", "2020-01-01", "é-ü", "bin", "-"]);
                (sd.p(stem), (0..shards).map(|i| format!("{}-{}.bin", stem, i)).collect())
            }
            0 => (sd.0.clone(), (0..shards).map(|i| format!("elements-{}.bin", i)).collect()),
            1 => (sd.p("out.dat"), (0..shards).map(|i| format!("out-{}.dat", i)).collect()),
            _ => (sd.p("out"), (0..shards).map(|i| format!("out-{}.bin", i)).collect()),
        };
        let what = format!("{} elements in {} shards", n, shards);
        let progress = rng.chance(0.3);
        let k = in_pool(t, || no_panic(&what, || parse_elements_and_save_shards_to_disk(&co.input, &co.words, &out, shards, progress)))?;
        ensure!(k == n, "{}: reports {} elements", what, k);
        let files = std::fs::read_dir(&sd.0).expect("read").count();
        ensure!(files == shards, "{}: {} files written", what, files);
        let mut all = Vec::new();
        for (i, f) in names.iter().enumerate() {
            let b = std::fs::read(sd.p(f)).map_err(|e| format!("{}: {}: {}", what, f, e))?;
            let part = decode_terms(&b).map_err(|e| format!("{}: shard {} is malformed: {}", what, i, e))?;
            ensure!(encode_terms(&part) == b, "{}: shard {} is not stored like any other file of elements", what, i);
            all.extend(part);
        }
        same(&all, &co.want, &format!("{}, concatenated", what))?;
        c.ctx.count("shards", shards as u64);
    }
    c.nontrivial(hash_bytes(&first.unwrap()));
    // the same through the library's own reader, with embeddings
    if co.nwords > 0 && n > 0 && !big {
        let dim = rng.range(1, 12);
        let emb: Vec<Vec<f32>> = (0..co.nwords).map(|_| (0..dim).map(|_| rng.sf() * 4.0).collect()).collect();
        compute(c, &mut rng, d, &emb, dim, &co.want, Some("whole0.bin"))?;
    }
    Ok(())
}

/// precomputing the vectors of elements
fn compute(c: &Case, rng: &mut Rng, d: &Dir, emb: &[Vec<f32>], dim: usize, want: &[Vec<usize>], elements: Option<&str>) -> Res {
    let ep = d.p("embeddings.bin");
    std::fs::write(&ep, encode_f32(emb, dim)).expect("write");
    let el = match elements {
        Some(n) => d.p(n),
        None => {
            let p = d.p("elements.bin");
            std::fs::write(&p, encode_terms(want)).expect("write");
            p
        }
    };
    let mut first: Option<Vec<u8>> = None;
    for t in [*rng.pick(&[2, 8]), 1] {
        let out = d.p("vectors.bin");
        if rng.chance(0.5) {
            std::fs::write(&out, vec![7u8; 50_000]).expect("write");
        }
        let progress = rng.chance(0.3);
        in_pool(t, || no_panic("computing vectors", || compute_embeddings_and_save_to_disk(&el, &ep, &out, progress)))?;
        let b = std::fs::read(&out).map_err(|e| format!("no output: {}", e))?;
        if let Some(f) = &first {
            ensure!(*f == b, "the vectors depend on the number of threads");
            continue;
        }
        let (w, vs) = decode_i8(&b).map_err(|e| format!("vectors are malformed: {}", e))?;
        ensure!(vs.len() == want.len(), "{} vectors for {} elements", vs.len(), want.len());
        ensure!(want.is_empty() || w == dim, "vectors of dimension {} instead of {}", w, dim);
        for (i, terms) in want.iter().enumerate() {
            let mut s = vec![0f32; dim];
            for (k, &x) in terms.iter().enumerate() {
                for j in 0..dim {
                    s[j] = if k == 0 { emb[x][j] } else { s[j] + emb[x][j] };
                }
            }
            let m = s.iter().fold(0f64, |a, x| a.max((*x as f64).abs()));
            for j in 0..dim {
                let q = vs[i][j] as i64;
                let tr = if m == 0.0 { 0.0 } else { s[j] as f64 * 127.0 / m };
                let e = 4.0 * f32::EPSILON as f64;
                ensure!(q == (tr * (1.0 - e)) as i64 || q == (tr * (1.0 + e)) as i64, "component {} of vector {} ({} terms) is {} instead of {}", j, i, terms.len(), q, tr as i64);
            }
        }
        // and through the library
        let f = std::fs::File::open(&out).expect("open");
        let v = no_panic("loading the vectors", || unsafe { angular_int::Vectors::from_file(&f) })?.map_err(|e| format!("the vectors cannot be loaded: {}", e))?;
        ensure!(v.len() == want.len(), "{} vectors loaded of {}", v.len(), want.len());
        let (ef, lf) = (std::fs::File::open(&ep).expect("open"), std::fs::File::open(&el).expect("open"));
        let s = unsafe { SumEmbeddings::from_files(&ef, Some(&lf)) }.map_err(|e| e.to_string())?;
        ensure!(s.len() == want.len(), "{} elements loaded of {}", s.len(), want.len());
        for i in 0..want.len() {
            ensure!(s.get_terms(i) == want[i], "element {} has terms {:?} instead of {:?}", i, s.get_terms(i), want[i]);
            ensure!(v.get(i).as_slice() == &vs[i][..], "vector {} is loaded differently", i);
            let q: angular_int::Vector = s.get_embedding(i).into();
            ensure!(q.as_slice() == &vs[i][..], "vector {} is not the quantized embedding of element {}", i, i);
        }
        first = Some(b);
    }
    c.ctx.count("vectors", want.len() as u64);
    Ok(())
}

fn compute_case(c: &mut Case, many: bool) -> Res {
    let mut rng = c.rng.fork();
    let d = Dir::new(c.ctx);
    let dim = if many { rng.range(1, 8) } else { *rng.pick(&[1, 2, 3, 7, 16, 31, 32, 33, 50, 100]) };
    let nw = rng.range(1, 40);
    let n = match rng.below(5) {
        _ if many => *rng.pick(&[5_000, 9_999, 10_000, 20_000, 33_000, 66_000]) + rng.below(200),
        0 => *rng.pick(&[0, 1, 2, 99, 100, 101, 102, 149, 150, 151, 198, 199, 200, 201, 202]),
        1 => rng.range(1, 120),
        2 => rng.range(100, 400),
        3 => rng.range(0, 30),
        _ => *rng.pick(&[250, 299, 301, 399, 990, 1000, 1001, 1010]),
    };
    c.note(format!("vectors n={} dim={} words={}", n, dim, nw));
    let emb: Vec<Vec<f32>> = (0..nw)
        .map(|i| match rng.below(10) {
            0 => vec![0.0; dim],
            1 if i > 0 => vec![1.0; dim],
            _ => (0..dim).map(|_| rng.sf() * 10f32.powi(rng.below(3) as i32 - 1)).collect(),
        })
        .collect();
    let want: Vec<Vec<usize>> = (0..n).map(|_| (0..if rng.chance(0.1) { 0 } else { rng.range(1, 6) }).map(|_| rng.below(nw)).collect()).collect();
    compute(c, &mut rng, &d, &emb, dim, &want, None)?;
    c.nontrivial(hash_bytes(&encode_terms(&want)) ^ dim as u64);
    Ok(())
}

pub fn run(ctx: &Ctx) {
    ctx.rule("Random word lists (unicode, escapes, words with spaces or colons, up to 75,000 words) and inputs: one file or a directory of up to 1,400 plain, gzip and multi-member gzip parts in shuffled creation order, empty files, lines with any number of colons, odd whitespace, repeated, unknown and almost-known words, CRLF. Output compared with a reference parser through an independent reader, for two thread counts; two random shard counts per case concatenated and compared; precomputed vectors compared with a reference quantized sum around the chunking limits. Non-trivial and distinct: different output bytes.");
    let w = ctx.workers;
    ctx.cases("parse", ctx.n(400, 8000), w, |c| parse_case(c, false, false));
    ctx.cases("many_words", ctx.n(6, 60), w, |c| parse_case(c, true, false));
    ctx.cases("many_lines", ctx.n(12, 100), w, |c| parse_case(c, false, true));
    ctx.cases("many_vectors", ctx.n(8, 120), w, |c| compute_case(c, true));
    ctx.cases("vectors", ctx.n(400, 8000), w, |c| compute_case(c, false));
}
