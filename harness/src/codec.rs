//! Independent reader and writer of the on-disk formats, written from their description alone.
use crate::ensure;
use serde_json::{json, Value};

pub const HEADER: usize = 1024;
pub const PER_CHUNK: usize = 60;

pub fn svb_encode(nums: &[u32]) -> Vec<u8> {
    let mut ctrl = vec![0u8; (nums.len() + 3) / 4];
    let mut data = Vec::new();
    for (i, n) in nums.iter().enumerate() {
        let len = if *n < 1 << 8 {
            1
        } else if *n < 1 << 16 {
            2
        } else if *n < 1 << 24 {
            3
        } else {
            4
        };
        ctrl[i / 4] |= ((len - 1) as u8) << (2 * (i % 4));
        data.extend_from_slice(&n.to_le_bytes()[..len]);
    }
    ctrl.extend(data);
    ctrl
}

pub fn svb_decode(b: &[u8], n: usize) -> Result<(Vec<u32>, usize), String> {
    let nc = (n + 3) / 4;
    ensure!(b.len() >= nc, "control bytes missing");
    let mut at = nc;
    let mut out = Vec::new();
    for i in 0..n {
        let len = 1 + ((b[i / 4] >> (2 * (i % 4))) & 3) as usize;
        ensure!(at + len <= b.len(), "data bytes missing");
        let mut w = [0u8; 4];
        w[..len].copy_from_slice(&b[at..at + len]);
        at += len;
        out.push(u32::from_le_bytes(w));
    }
    Ok((out, at))
}

/// one node: sorted neighbor ids
pub fn encode_node(sorted: &[u32]) -> Vec<u8> {
    let mut deltas: Vec<u32> = sorted.to_vec();
    for i in (1..deltas.len()).rev() {
        deltas[i] -= deltas[i - 1];
    }
    let count = deltas.len();
    let mut padded = deltas.clone();
    while padded.len() < 4 {
        padded.push(0);
    }
    let svb = svb_encode(&padded);
    let mut out = vec![count as u8];
    if svb.len() < 4 * count {
        out.extend(svb);
    } else {
        for d in deltas {
            out.extend(d.to_le_bytes());
        }
    }
    out
}

pub fn decode_node(b: &[u8]) -> Result<Vec<u32>, String> {
    ensure!(!b.is_empty(), "empty node record");
    let count = b[0] as usize;
    let b = &b[1..];
    let mut d = if b.len() == 4 * count {
        b.chunks(4).map(|c| u32::from_le_bytes([c[0], c[1], c[2], c[3]])).collect()
    } else {
        ensure!(b.len() < 4 * count, "stored {} bytes for {} ids, plain would be smaller", b.len(), count);
        let (v, used) = svb_decode(b, count.max(4))?;
        ensure!(used == b.len(), "{} of {} bytes used", used, b.len());
        ensure!(v[count..].iter().all(|x| *x == 0), "padding is not zero");
        v[..count].to_vec()
    };
    for i in 1..d.len() {
        d[i] = d[i].checked_add(d[i - 1]).ok_or("ids overflow")?;
    }
    Ok(d)
}

pub fn encode_layer(nodes: &[Vec<u32>]) -> Vec<u8> {
    let mut data = Vec::new();
    let mut offs = vec![0usize];
    for n in nodes {
        data.extend(encode_node(n));
        offs.push(data.len());
    }
    let chunks = 1 + nodes.len() / PER_CHUNK;
    let mut out = ((chunks * 128) as u64).to_le_bytes().to_vec();
    for c in 0..chunks {
        let mine: Vec<usize> = offs.iter().skip(c * PER_CHUNK).take(PER_CHUNK).copied().collect();
        let initial = mine[0];
        out.extend((initial as u64).to_le_bytes());
        let mut last = initial;
        for k in 0..PER_CHUNK {
            if k < mine.len() {
                out.extend(((mine[k] - last) as u16).to_le_bytes());
                last = mine[k];
            } else {
                out.extend(0xFFFFu16.to_le_bytes());
            }
        }
    }
    out.extend(data);
    out
}

pub fn decode_layer(b: &[u8]) -> Result<Vec<Vec<u32>>, String> {
    ensure!(b.len() >= 8, "layer too short");
    let nb = u64::from_le_bytes(b[..8].try_into().unwrap()) as usize;
    ensure!(nb % 128 == 0 && nb >= 128 && 8 + nb <= b.len(), "offset table of {} bytes in a layer of {}", nb, b.len());
    let mut offs = Vec::new();
    let nchunks = nb / 128;
    for c in 0..nchunks {
        let k = &b[8 + c * 128..8 + (c + 1) * 128];
        let mut last = u64::from_le_bytes(k[..8].try_into().unwrap()) as usize;
        if let Some(&prev) = offs.last() {
            // a new chunk starts at the offset it contains first
            ensure!(last >= prev, "chunk {} starts at {} after offset {}", c, last, prev);
        } else {
            ensure!(last == 0, "first offset is {}", last);
        }
        let mut open = true;
        for i in 0..PER_CHUNK {
            let d = u16::from_le_bytes(k[8 + 2 * i..10 + 2 * i].try_into().unwrap());
            if d == 0xFFFF {
                open = false;
                continue;
            }
            ensure!(open, "offset after an unused slot in chunk {}", c);
            if i == 0 {
                ensure!(d == 0, "chunk {}: first delta is {}", c, d);
            }
            last += d as usize;
            offs.push(last);
        }
        ensure!(open || c + 1 == nchunks, "chunk {} of {} is not full", c, nchunks);
    }
    ensure!(!offs.is_empty(), "no offsets");
    ensure!(nchunks == 1 + (offs.len() - 1) / PER_CHUNK, "{} chunks for {} nodes", nchunks, offs.len() - 1);
    let data = &b[8 + nb..];
    ensure!(*offs.last().unwrap() == data.len(), "last offset {} but {} data bytes", offs.last().unwrap(), data.len());
    let mut out = Vec::new();
    for w in offs.windows(2) {
        let rec = &data[w[0]..w[1]];
        let n = decode_node(rec)?;
        ensure!(encode_node(&n) == rec, "node {} ({:?}) is not stored canonically: {:?}", out.len(), n, rec);
        out.push(n);
    }
    Ok(out)
}

pub fn encode_index(layers: &[Vec<Vec<u32>>], version: &str) -> Vec<u8> {
    let enc: Vec<Vec<u8>> = layers.iter().map(|l| encode_layer(l)).collect();
    let counts: Vec<usize> = layers.iter().map(|l| l.len()).collect();
    let sizes: Vec<usize> = enc.iter().map(|l| l.len()).collect();
    let nn = layers.last().and_then(|l| l.first()).map_or(0, |n| n.len());
    let meta = json!({"granne_version": version, "version": 2, "num_elements": counts.last().unwrap_or(&0),
        "num_layers": counts.len(), "num_neighbors": nn, "layer_counts": counts, "layer_sizes": sizes, "compressed": true});
    let mut out = format!("granne{}", meta).into_bytes();
    assert!(out.len() <= HEADER, "CONTRACT header");
    out.resize(HEADER, b' ');
    for e in enc {
        out.extend(e);
    }
    out
}

/// Strict reader: everything in the file must be accounted for.
pub fn decode_index(b: &[u8]) -> Result<(Value, Vec<Vec<Vec<u32>>>), String> {
    ensure!(b.len() >= HEADER, "no complete header: {} bytes", b.len());
    ensure!(&b[..6] == b"granne", "library string missing");
    let text = std::str::from_utf8(&b[6..HEADER]).map_err(|e| e.to_string())?;
    let json_part = text.trim_end_matches(' ');
    ensure!(json_part.ends_with('}'), "the header is not filled up with spaces");
    let m: Value = serde_json::from_str(json_part).map_err(|e| format!("metadata: {}", e))?;
    ensure!(m["version"] == json!(2), "version {}", m["version"]);
    ensure!(m["compressed"] == json!(true), "compressed {}", m["compressed"]);
    ensure!(m["granne_version"].is_string(), "granne_version {}", m["granne_version"]);
    let nums = |k: &str| -> Result<Vec<usize>, String> { serde_json::from_value(m[k].clone()).map_err(|e| format!("{}: {}", k, e)) };
    let counts = nums("layer_counts")?;
    let sizes = nums("layer_sizes")?;
    ensure!(m["num_layers"] == json!(counts.len()), "num_layers {} but {} counts", m["num_layers"], counts.len());
    ensure!(sizes.len() == counts.len(), "{} sizes, {} counts", sizes.len(), counts.len());
    ensure!(m["num_elements"] == json!(counts.last().copied().unwrap_or(0)), "num_elements {}", m["num_elements"]);
    ensure!(m["num_neighbors"].is_u64(), "num_neighbors {}", m["num_neighbors"]);
    let mut at = HEADER;
    let mut layers = Vec::new();
    for (i, s) in sizes.iter().enumerate() {
        ensure!(at + s <= b.len(), "layer {} of {} bytes at {} exceeds the file ({})", i, s, at, b.len());
        let l = decode_layer(&b[at..at + s]).map_err(|e| format!("layer {}: {}", i, e))?;
        ensure!(l.len() == counts[i], "layer {} holds {} nodes, metadata says {}", i, l.len(), counts[i]);
        at += s;
        layers.push(l);
    }
    ensure!(at == b.len(), "{} bytes after the last layer", b.len() - at);
    Ok((m, layers))
}

pub fn encode_f32(vs: &[Vec<f32>], dim: usize) -> Vec<u8> {
    let mut o = (dim as u64).to_le_bytes().to_vec();
    for v in vs {
        for x in v {
            o.extend(x.to_bits().to_le_bytes());
        }
    }
    o
}

pub fn encode_i8(vs: &[Vec<i8>], dim: usize) -> Vec<u8> {
    let mut o = (dim as u64).to_le_bytes().to_vec();
    for v in vs {
        o.extend(v.iter().map(|x| *x as u8));
    }
    o
}

pub fn encode_terms(els: &[Vec<usize>]) -> Vec<u8> {
    let mut o = (els.len() as u64).to_le_bytes().to_vec();
    let mut at = 0u64;
    o.extend(&at.to_le_bytes()[..5]);
    for e in els {
        at += e.len() as u64;
        o.extend(&at.to_le_bytes()[..5]);
    }
    for e in els {
        for t in e {
            o.extend(&(*t as u64).to_le_bytes()[..3]);
        }
    }
    o
}

pub fn decode_terms(b: &[u8]) -> Result<Vec<Vec<usize>>, String> {
    ensure!(b.len() >= 8, "too short");
    let n = u64::from_le_bytes(b[..8].try_into().unwrap()) as usize;
    ensure!(b.len() >= 8 + 5 * (n + 1), "{} offsets do not fit in {} bytes", n + 1, b.len());
    let five = |i: usize| -> usize {
        let mut w = [0u8; 8];
        w[..5].copy_from_slice(&b[8 + 5 * i..13 + 5 * i]);
        u64::from_le_bytes(w) as usize
    };
    let data = &b[8 + 5 * (n + 1)..];
    ensure!(five(0) == 0, "first offset is {}", five(0));
    ensure!(data.len() == 3 * five(n), "{} data bytes for {} terms", data.len(), five(n));
    let mut out = Vec::new();
    for i in 0..n {
        let (a, e) = (five(i), five(i + 1));
        ensure!(a <= e && e * 3 <= data.len(), "offsets {}..{}", a, e);
        out.push(data[3 * a..3 * e].chunks(3).map(|c| c[0] as usize | (c[1] as usize) << 8 | (c[2] as usize) << 16).collect());
    }
    Ok(out)
}

pub fn decode_i8(b: &[u8]) -> Result<(usize, Vec<Vec<i8>>), String> {
    ensure!(b.len() >= 8, "too short");
    let dim = u64::from_le_bytes(b[..8].try_into().unwrap()) as usize;
    let d = &b[8..];
    if d.is_empty() {
        return Ok((dim, vec![]));
    }
    ensure!(dim > 0 && d.len() % dim == 0, "{} bytes of dimension {}", d.len(), dim);
    Ok((dim, d.chunks(dim).map(|c| c.iter().map(|x| *x as i8).collect()).collect()))
}
