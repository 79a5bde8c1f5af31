//! C20: the library's own answers, for comparison with what the Python module returns.
//! `gv REF` reads one JSON request per line and writes one JSON answer per line.
use granne::embeddings::{self, SumEmbeddings};
use granne::{angular, angular_int, BuildConfig, Builder, Dist, ElementContainer, Granne, GranneBuilder, Index};
use serde_json::{json, Value};
use std::fs::File;
use std::io::{BufRead, Write};

type R<T> = Result<T, String>;

fn s<'a>(q: &'a Value, k: &str) -> R<&'a str> {
    q[k].as_str().ok_or(format!("no {}", k))
}
fn open(p: &str) -> R<File> {
    File::open(p).map_err(|e| format!("{}: {}", p, e))
}
fn floats(v: &Value) -> Vec<f32> {
    v.as_array().map(|a| a.iter().map(|x| f32::from_bits(x.as_u64().unwrap_or(0) as u32)).collect()).unwrap_or_default()
}
fn bits(v: &[f32]) -> Value {
    Value::from(v.iter().map(|x| x.to_bits()).collect::<Vec<u32>>())
}

fn config(q: &Value) -> BuildConfig {
    let mut c = BuildConfig::default();
    if let Some(x) = q["lm"].as_u64() {
        c = c.layer_multiplier(f32::from_bits(x as u32));
    }
    if let Some(x) = q["exp"].as_u64() {
        c = c.expected_num_elements(x as usize);
    }
    if let Some(x) = q["nn"].as_u64() {
        c = c.num_neighbors(x as usize);
    }
    if let Some(x) = q["ms"].as_u64() {
        c = c.max_search(x as usize);
    }
    if let Some(x) = q["re"].as_bool() {
        c = c.reinsert_elements(x);
    }
    c
}

fn build<C: ElementContainer + Sync>(q: &Value, els: C) -> R<Value> {
    let mut b = match q["index"].as_str() {
        Some(p) => GranneBuilder::from_file(config(q), &open(p)?, els).map_err(|e| e.to_string())?,
        None => GranneBuilder::new(config(q), els),
    };
    for st in q["steps"].as_array().ok_or("no steps")? {
        match st.as_u64() {
            Some(k) => b.build_partial(k as usize),
            None => b.build(),
        }
    }
    let mut f = File::create(s(q, "out")?).map_err(|e| e.to_string())?;
    b.write_index(&mut f).map_err(|e| e.to_string())?;
    Ok(json!({ "len": b.len() }))
}

fn describe<C: ElementContainer>(q: &Value, ix: &Granne<C>, query: impl Fn(Vec<f32>) -> C::Element, show: impl Fn(C::Element) -> Value) -> R<Value> {
    let lens: Vec<usize> = (0..ix.num_layers()).map(|l| ix.layer_len(l)).collect();
    let nb: Vec<Vec<Vec<usize>>> = lens
        .iter()
        .enumerate()
        .map(|(l, &n)| {
            (0..n)
                .map(|i| {
                    let mut v = ix.get_neighbors(i, l);
                    v.sort_unstable();
                    v
                })
                .collect()
        })
        .collect();
    let els: Vec<Value> = (0..ix.get_elements().len()).map(|i| show(ix.get_elements().get(i))).collect();
    let res: Vec<Value> = q["queries"]
        .as_array()
        .map(|qs| {
            qs.iter()
                .map(|x| {
                    let e = query(floats(&x["v"]));
                    let r = ix.search(&e, x["ms"].as_u64().unwrap_or(200) as usize, x["k"].as_u64().unwrap_or(10) as usize);
                    Value::from(r.iter().map(|(i, d)| json!([i, d.to_bits()])).collect::<Vec<_>>())
                })
                .collect()
        })
        .unwrap_or_default();
    Ok(json!({ "len": ix.len(), "lens": lens, "nb": nb, "els": els, "res": res }))
}

fn dist<E: Dist<E> + From<Vec<f32>>>(q: &Value) -> R<Value> {
    let v: Vec<u32> = q["pairs"].as_array().ok_or("no pairs")?.iter().map(|p| E::from(floats(&p[0])).dist(&E::from(floats(&p[1]))).into_inner().to_bits()).collect();
    Ok(json!({ "bits": v }))
}

fn sums(q: &Value, with_elements: bool) -> R<SumEmbeddings<'static>> {
    let e = open(s(q, "embeddings")?)?;
    let els = if with_elements { q["elements"].as_str().map(open).transpose()? } else { None };
    unsafe { SumEmbeddings::from_files(&e, els.as_ref()) }.map_err(|e| e.to_string())
}

fn answer(q: &Value) -> R<Value> {
    let ty = s(q, "type")?;
    match (s(q, "op")?, ty) {
        ("build", "angular") => build(q, unsafe { angular::Vectors::from_file(&open(s(q, "elements")?)?) }.map_err(|e| e.to_string())?),
        ("build", "angular_int") => build(q, unsafe { angular_int::Vectors::from_file(&open(s(q, "elements")?)?) }.map_err(|e| e.to_string())?),
        ("build", _) => build(q, sums(q, true)?),
        ("load", "angular") => {
            let els = unsafe { angular::Vectors::from_file(&open(s(q, "elements")?)?) }.map_err(|e| e.to_string())?;
            let ix = unsafe { Granne::from_file(&open(s(q, "index")?)?, els) }.map_err(|e| e.to_string())?;
            describe(q, &ix, |v| v.into(), |e| bits(&e.into_vec()))
        }
        ("load", "angular_int") => {
            let els = unsafe { angular_int::Vectors::from_file(&open(s(q, "elements")?)?) }.map_err(|e| e.to_string())?;
            let ix = unsafe { Granne::from_file(&open(s(q, "index")?)?, els) }.map_err(|e| e.to_string())?;
            describe(q, &ix, |v| v.into(), |e| Value::from(e.into_vec().into_iter().map(|x| x as i64).collect::<Vec<_>>()))
        }
        ("load", _) => {
            let ix = unsafe { Granne::from_file(&open(s(q, "index")?)?, sums(q, true)?) }.map_err(|e| e.to_string())?;
            let mut d = describe(q, &ix, |v| v.into(), |e| bits(&e.into_vec()))?;
            d["terms"] = Value::from((0..ix.get_elements().len()).map(|i| ix.get_elements().get_terms(i)).collect::<Vec<_>>());
            Ok(d)
        }
        ("reorder", "angular") => {
            let els = unsafe { angular::Vectors::from_file(&open(s(q, "elements")?)?) }.map_err(|e| e.to_string())?;
            let mut ix = unsafe { Granne::from_file(&open(s(q, "index")?)?, els) }.map_err(|e| e.to_string())?;
            Ok(json!({ "order": ix.reorder(false) }))
        }
        ("reorder", "angular_int") => {
            let els = unsafe { angular_int::Vectors::from_file(&open(s(q, "elements")?)?) }.map_err(|e| e.to_string())?;
            let mut ix = unsafe { Granne::from_file(&open(s(q, "index")?)?, els) }.map_err(|e| e.to_string())?;
            Ok(json!({ "order": ix.reorder(false) }))
        }
        ("reorder", _) => {
            let mut ix = unsafe { Granne::from_file(&open(s(q, "index")?)?, sums(q, true)?) }.map_err(|e| e.to_string())?;
            let keys = embeddings::compute_keys_for_reordering(ix.get_elements());
            Ok(json!({ "order": ix.reorder_by_keys(&keys, false) }))
        }
        ("dist", "angular") => dist::<angular::Vector>(q),
        ("dist", _) => dist::<angular_int::Vector>(q),
        ("table", _) => {
            let e = sums(q, false)?;
            Ok(json!({ "rows": (0..e.num_embeddings()).map(|i| bits(&e.create_embedding(&[i]))).collect::<Vec<_>>() }))
        }
        ("vectors", "angular_int") => {
            let els = unsafe { angular_int::Vectors::from_file(&open(s(q, "elements")?)?) }.map_err(|e| e.to_string())?;
            Ok(json!({ "rows": (0..els.len()).map(|i| Value::from(els.get_element(i).into_vec().into_iter().map(|x| x as i64).collect::<Vec<_>>())).collect::<Vec<_>>() }))
        }
        (o, _) => Err(format!("unknown request {}", o)),
    }
}

pub fn serve() {
    let (i, mut o) = (std::io::stdin(), std::io::stdout());
    for l in i.lock().lines() {
        let a = match serde_json::from_str::<Value>(&l.expect("stdin")) {
            Ok(q) => match std::panic::catch_unwind(|| answer(&q)) {
                Ok(Ok(v)) => v,
                Ok(Err(e)) => json!({ "error": e }),
                Err(p) => json!({ "error": format!("panic: {}", p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default()) }),
            },
            Err(e) => json!({ "error": e.to_string() }),
        };
        writeln!(o, "{}", a).and_then(|_| o.flush()).expect("stdout");
    }
}
