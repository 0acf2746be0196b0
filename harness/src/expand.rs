//! Extracting tables to directories and reading them back, on a recording file system.
use crate::table::*;
use crate::tracedfs::*;
use crate::util::*;
use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet};
use std::io::Read;
use std::path::{Path, PathBuf};
use vpin::filesystem::{FileSystem, RealFileSystem};
use vpin::vpx::expanded::{self, ExpandOptions, PrimitiveMeshFormat};
use vpin::vpx::{self, VPX};

pub fn unz(h: &str) -> Result<Vec<u8>, String> {
    let mut o = vec![];
    flate2::read::ZlibDecoder::new(&unhex(h)[..]).read_to_end(&mut o).map_err(|e| e.to_string())?;
    Ok(o)
}
fn pstr(r: &Value) -> &str {
    r["p"].as_str().unwrap_or("")
}
/// records of one stream in the form compared: packed data unpacked, derived data left out
fn norm(path: &str, b: &[u8]) -> Result<Vec<(String, String)>, String> {
    let name = path.rsplit('/').next().unwrap();
    let kind = name.trim_end_matches(|c: char| c.is_ascii_digit());
    if !path.starts_with("GameStg/") || !["GameItem", "Image", "Font", "Collection", "GameData", "CustomInfoTags"].contains(&kind) {
        return Ok(vec![("data".into(), fp(b))]);
    }
    let mut out = vec![];
    let b = if kind == "GameItem" {
        out.push(("type".into(), hex(&b[..4])));
        &b[4..]
    } else {
        b
    };
    let recs = recs_of(b)?;
    let has_new = recs.iter().any(|r| r["t"] == "MATR" && r.get("s").is_none() && kind == "GameData");
    let prim = out.first().is_some_and(|x: &(String, String)| x.1 == "13000000");
    for r in &recs {
        let t = r["t"].as_str().unwrap().to_string();
        let p = if let Some(s) = r.get("s").filter(|s| !s.is_null()) { fp(serde_json::to_string(s).unwrap().as_bytes()) } else { pstr(r).to_string() };
        if kind == "GameData" && has_new && (t == "MATE" || t == "PHMA" || t == "MASI") {
            continue; // derived from the current materials
        }
        if kind == "Image" && t == "BITS" {
            out.push((t, fp(&unlzw(&unhex(&p)).unwrap_or_else(|e| e.into_bytes()))));
            continue;
        }
        if prim && ["M3CY", "M3CJ", "M3AY"].contains(&t.as_str()) {
            continue;
        }
        if prim && ["M3CX", "M3CI", "M3AX"].contains(&t.as_str()) {
            out.push((t, unz(&p).map(|d| fp(&d)).unwrap_or_else(|e| e)));
            continue;
        }
        out.push((t, if p.len() > 200 { fp(p.as_bytes()) } else { p }));
    }
    Ok(out)
}
/// where two stored tables differ
pub fn diff(a: &Streams, b: &Streams) -> Vec<Value> {
    let mut out = vec![];
    let keys: BTreeSet<&String> = a.s.keys().chain(b.s.keys()).filter(|k| *k != "GameStg/MAC").collect();
    for k in keys {
        match (a.s.get(k), b.s.get(k)) {
            (Some(_), None) => out.push(json!([k, "missing"])),
            (None, Some(_)) => out.push(json!([k, "extra"])),
            (Some(x), Some(y)) if x != y => {
                let (x, y) = match (norm(k, x), norm(k, y)) {
                    (Ok(x), Ok(y)) => (x, y),
                    (x, y) => {
                        out.push(json!([k, "unreadable", format!("{:?} {:?}", x.err(), y.err())]));
                        continue;
                    }
                };
                if x == y {
                    continue;
                }
                let tx: Vec<_> = x.iter().map(|r| &r.0).collect();
                let ty: Vec<_> = y.iter().map(|r| &r.0).collect();
                if tx != ty {
                    let mut m: BTreeMap<&String, i32> = BTreeMap::new();
                    tx.iter().for_each(|t| *m.entry(t).or_default() += 1);
                    ty.iter().for_each(|t| *m.entry(t).or_default() -= 1);
                    let d: Vec<_> = m.iter().filter(|x| *x.1 != 0).map(|x| x.0.to_string()).collect();
                    out.push(json!([k, "records", if d.is_empty() { "order".into() } else { d.join(",") }]));
                }
                if tx == ty {
                    for (p, q) in x.iter().zip(&y) {
                        if p.1 != q.1 {
                            out.push(json!([k, format!("value {}", p.0), p.1, q.1]));
                        }
                    }
                }
            }
            _ => {}
        }
    }
    out
}
pub fn opts(c: &Value) -> ExpandOptions {
    let f = match c["fmt"].as_str().unwrap_or("obj") {
        "glb" => PrimitiveMeshFormat::Glb,
        "gltf" => PrimitiveMeshFormat::Gltf,
        _ => PrimitiveMeshFormat::Obj,
    };
    ExpandOptions::new().mesh_format(f).generate_derived_meshes(c["derived"].as_bool().unwrap_or(false))
}
/// ok, err:..., panic:...
fn outcome<T, E: std::fmt::Display>(r: Result<Result<T, E>, String>) -> (String, Option<T>) {
    match r {
        Ok(Ok(v)) => ("ok".into(), Some(v)),
        Ok(Err(e)) => (format!("err: {e}"), None),
        Err(p) => (format!("panic: {p}"), None),
    }
}
fn write(v: &VPX, dir: &Path, o: &ExpandOptions, fs: &dyn FileSystem) -> String {
    outcome(guard(|| expanded::write_fs(v, &dir, o, fs))).0
}
fn read(dir: &Path, fs: &dyn FileSystem) -> (String, Option<VPX>) {
    outcome(guard(|| expanded::read_fs(&dir, fs)))
}
fn stored(v: &VPX) -> Result<Streams, String> {
    parse(&guard(|| vpx::to_bytes(v)).map_err(|p| format!("panic: {p}"))?.map_err(|e| e.to_string())?)
}
fn log_json(fs: &TracedFs) -> Value {
    let s = fs.st.0.lock().unwrap();
    json!(s.log.iter().map(|(o, p, r)| json!([o, p, p.iter().map(|x| x.to_lowercase()).collect::<Vec<_>>(), r])).collect::<Vec<_>>())
}
fn pool(n: usize) -> rayon::ThreadPool {
    rayon::ThreadPoolBuilder::new().num_threads(n).build().unwrap()
}
fn tree(fs: &TracedFs) -> BTreeMap<Vec<String>, Vec<u8>> {
    fs.st.0.lock().unwrap().files.clone()
}
fn real_tree(dir: &Path) -> BTreeMap<Vec<String>, Vec<u8>> {
    fn go(d: &Path, base: &Path, o: &mut BTreeMap<Vec<String>, Vec<u8>>) {
        for e in std::fs::read_dir(d).unwrap() {
            let p = e.unwrap().path();
            if p.is_dir() {
                go(&p, base, o);
            } else {
                o.insert(comps(p.strip_prefix(base).unwrap()), std::fs::read(&p).unwrap());
            }
        }
    }
    let mut o = BTreeMap::new();
    go(dir, dir, &mut o);
    o
}
/// file contents that mean the same (JSON objects have no order)
fn canon(p: &[String], b: &[u8]) -> String {
    let sort = |v: &Value| -> String {
        fn s(v: &Value) -> Value {
            match v {
                Value::Object(m) => {
                    let mut b: Vec<_> = m.iter().map(|(k, v)| (k.clone(), s(v))).collect();
                    b.sort_by(|x, y| x.0.cmp(&y.0));
                    Value::Object(b.into_iter().collect())
                }
                Value::Array(a) => Value::Array(a.iter().map(s).collect()),
                v => v.clone(),
            }
        }
        s(v).to_string()
    };
    let n = p.last().map(|s| s.as_str()).unwrap_or("");
    if n.ends_with(".json") || n.ends_with(".gltf") {
        if let Ok(v) = serde_json::from_slice::<Value>(b) {
            return fp(sort(&v).as_bytes());
        }
    }
    fp(b)
}
fn canon_tree(t: &BTreeMap<Vec<String>, Vec<u8>>, skip: usize) -> BTreeMap<Vec<String>, String> {
    t.iter().map(|(k, v)| (k[skip..].to_vec(), canon(k, v))).collect()
}
fn cmp_tree(a: &BTreeMap<Vec<String>, String>, b: &BTreeMap<Vec<String>, String>) -> Vec<String> {
    let keys: BTreeSet<_> = a.keys().chain(b.keys()).collect();
    keys.into_iter()
        .filter_map(|k| match (a.get(k), b.get(k)) {
            (Some(_), None) => Some(format!("missing {}", k.join("/"))),
            (None, Some(_)) => Some(format!("extra {}", k.join("/"))),
            (Some(x), Some(y)) if x != y => Some(format!("differs {}", k.join("/"))),
            _ => None,
        })
        .collect()
}

pub fn case(c: &Value, work: &Path) -> Value {
    let id = &c["id"];
    let base = build(&of_case(&c["streams"], false));
    let t0 = match guard(|| vpx::from_bytes(&base)) {
        Ok(Ok(v)) => v,
        Ok(Err(e)) => return json!({"id": id, "harness": format!("base table: {e}")}),
        Err(p) => return json!({"id": id, "harness": format!("base table: {p}")}),
    };
    let c0 = match stored(&t0) {
        Ok(s) => s,
        Err(e) => return json!({"id": id, "harness": format!("base table: {e}")}),
    };
    let dir = PathBuf::from("/exp/out");
    let o = opts(c);
    let fs = TracedFs::new(&dir);
    let one = pool(1);
    let w = one.install(|| write(&t0, &dir, &o, &fs));
    let mut out = json!({"id": id, "root": comps(&dir), "write": w, "log": log_json(&fs)});
    let round = |fs: &dyn FileSystem, dir: &Path| -> (String, Value) {
        let (r, v) = one.install(|| read(dir, fs));
        let d = match v {
            Some(v) => match stored(&v) {
                Ok(s) => json!(diff(&c0, &s)),
                Err(e) => json!([["table", e]]),
            },
            None => json!([]),
        };
        (r, d)
    };
    match c["mode"].as_str().unwrap() {
        "names" => {}
        "round" => {
            let rf = fs.fork();
            let mut rf2 = rf.clone();
            rf2.chunk = 7;
            let (r, d) = round(if c["slow"] == true { &rf2 } else { &rf }, &dir);
            out["read"] = json!(r);
            out["diff"] = d;
            if c["real"] == true {
                let p = work.join(format!("x{id}"));
                std::fs::create_dir_all(&p).unwrap();
                out["rwrite"] = json!(write(&t0, &p, &o, &RealFileSystem));
                out["tree"] = json!(cmp_tree(&canon_tree(&tree(&fs), comps(&dir).len()), &canon_tree(&real_tree(&p), 0)));
                let (r, d) = round(&RealFileSystem, &p);
                out["rread"] = json!(r);
                out["rdiff"] = d;
                std::fs::remove_dir_all(&p).unwrap();
            }
        }
        "fault" => {
            // every storage operation of writing and of reading fails in turn
            let nw = fs.st.0.lock().unwrap().n;
            let probe = fs.fork();
            let (r, _) = round(&probe, &dir);
            let nr = probe.st.0.lock().unwrap().n;
            out["read"] = json!(r);
            out["ops"] = json!([nw, nr]);
            let mut runs = vec![];
            let max = c["max"].as_u64().unwrap_or(60) as usize;
            let seed = c["pick"].as_u64().unwrap_or(0) as usize;
            for (rw, n) in [("write", nw), ("read", nr)] {
                for q in 0..n.min(max) {
                    let k = if n <= max { q } else { (seed.wrapping_mul(7919) + q * n / max + q) % n };
                    let f = match (k + seed) % 3 {
                        0 => Fault::Once(k),
                        1 => Fault::From(k),
                        _ => Fault::Short(k),
                    };
                    let threads = if (k + seed) % 5 == 0 { 4 } else { 1 };
                    let mut x = if rw == "write" { TracedFs::new(&dir) } else { fs.fork() };
                    x.fault = f.clone();
                    let res = pool_run(threads, || if rw == "write" { (write(&t0, &dir, &o, &x), None) } else { read(&dir, &x) });
                    let whole = if rw == "write" {
                        cmp_tree(&canon_tree(&tree(&fs), 0), &canon_tree(&tree(&x), 0))
                    } else {
                        match res.1 {
                            Some(v) => match stored(&v) {
                                Ok(s) => diff(&c0, &s).iter().map(|d| d.to_string()).collect(),
                                Err(e) => vec![e],
                            },
                            None => vec!["no table".into()],
                        }
                    };
                    let (fired, failed) = {
                        let s = x.st.0.lock().unwrap();
                        (s.fired.clone(), s.log.iter().filter(|l| l.2 == "failed").count())
                    };
                    runs.push(json!({"dir": rw, "k": k, "failed": failed, "fault": format!("{f:?}").split('(').next().unwrap(), "op": fired.as_ref().map(|f| f.0).unwrap_or(""),
                        "path": fired.map(|f| f.1.join("/")).unwrap_or_default(), "res": res.0.split(':').next().unwrap(), "msg": res.0.chars().take(160).collect::<String>(), "whole": whole}));
                }
            }
            out["runs"] = json!(runs);
        }
        "sched" => {
            // forced orders of the workers' storage operations
            let want = canon_tree(&tree(&fs), 0);
            let items: Vec<Vec<String>> = index(&fs, &dir);
            let mut runs = vec![];
            for (gate, q) in [1u8, 2].into_iter().flat_map(|g| c["orders"].as_array().unwrap().iter().map(move |q| (g, q))) {
                let mut x = if gate == 1 { TracedFs::new(&dir) } else { fs.fork() };
                x.gate = gate;
                let order: Vec<Vec<String>> = q.as_array().unwrap().iter().filter_map(|i| items.get(i.as_u64().unwrap() as usize - 1).cloned()).collect();
                x.st.0.lock().unwrap().order = order.clone();
                let threads = c["threads"].as_u64().unwrap_or(8) as usize;
                if threads == 1 {
                    x.gate = 0;
                }
                let (res, v) = pool_run(threads, || if gate == 1 { (write(&t0, &dir, &o, &x), None) } else { read(&dir, &x) });
                let d: Vec<String> = if gate == 1 {
                    cmp_tree(&want, &canon_tree(&tree(&x), 0))
                } else {
                    match v {
                        Some(v) => match stored(&v) {
                            Ok(s) => diff(&c0, &s).iter().map(|d| d.to_string()).collect(),
                            Err(e) => vec![e],
                        },
                        None => vec!["no table".into()],
                    }
                };
                let s = x.st.0.lock().unwrap();
                let seen: Vec<usize> =
                    s.log.iter().filter(|l| l.0 == "write_file").filter_map(|l| items.iter().position(|i| *i == l.1).map(|i| i + 1)).collect();
                runs.push(json!({"dir": if gate == 1 {"write"} else {"read"}, "order": q, "threads": threads, "res": res, "diff": d, "unforced": s.unforced, "seen": seen, "log": if gate == 1 { json!(s.log.iter().map(|(o, p, r)| json!([o, p, p.iter().map(|x| x.to_lowercase()).collect::<Vec<_>>(), r])).collect::<Vec<_>>()) } else { json!([]) }}));
            }
            out["runs"] = json!(runs);
        }
        "damage" => {
            let t = tree(&fs);
            let (r0, v0) = one.install(|| read(&dir, &fs.fork()));
            out["read"] = json!(r0);
            out["items"] = json!(index(&fs, &dir).iter().map(|p| p.last().unwrap().clone()).collect::<Vec<_>>());
            let Some(v0) = v0 else { return out };
            let b0 = stored(&v0).unwrap();
            let mut runs = vec![];
            for (p, b) in &t {
                let js: Option<Value> = if p.last().unwrap().ends_with(".json") { serde_json::from_slice(b).ok() } else { None };
                for how in ["gone", "half", "empty", "junk", "tail", "comment", "scalar", "shape", "retype1", "retype2"] {
                    if how == "comment" && !p.last().unwrap().ends_with(".obj") {
                        continue;
                    }
                    if ["scalar", "shape", "retype1", "retype2"].contains(&how) && js.is_none() {
                        continue;
                    }
                    let x = fs.fork();
                    {
                        let mut s = x.st.0.lock().unwrap();
                        match how {
                            "gone" => {
                                s.files.remove(p);
                            }
                            "half" => {
                                s.files.insert(p.clone(), b[..b.len() / 2].to_vec());
                            }
                            "tail" => {
                                s.files.insert(p.clone(), b[..b.len().saturating_sub(1)].to_vec());
                            }
                            "empty" => {
                                s.files.insert(p.clone(), vec![]);
                            }
                            "scalar" => {
                                s.files.insert(p.clone(), b"7".to_vec());
                            }
                            "shape" => {
                                s.files.insert(p.clone(), if js.as_ref().unwrap().is_array() { b"{\"zz\": [1]}".to_vec() } else { b"[[1]]".to_vec() });
                            }
                            "retype1" | "retype2" => {
                                // one value of the document becomes something no field can hold
                                let mut v = js.clone().unwrap();
                                let n = leaves(&mut v, usize::MAX);
                                let k = (b.len() * 7 + p.len() * 13 + if how == "retype1" { 0 } else { n / 2 + 1 } + c["id"].as_u64().unwrap_or(0) as usize * 31) % n.max(1);
                                leaves(&mut v, k);
                                s.files.insert(p.clone(), serde_json::to_vec_pretty(&v).unwrap());
                            }
                            "comment" => {
                                // the comment that carries a vertex that cannot be written as text, cut short
                                let t = String::from_utf8_lossy(b).replacen("\nvn ", "\n# vpx zz\nvn ", 1);
                                s.files.insert(p.clone(), t.into_bytes());
                            }
                            _ => {
                                s.files.insert(p.clone(), b"\x01{junk]\n\xff".to_vec());
                            }
                        }
                    }
                    let (res, v) = one.install(|| read(&dir, &x));
                    let d: Vec<Value> = match v {
                        Some(v) => match stored(&v) {
                            Ok(s) => split(&diff(&b0, &s)),
                            Err(e) => vec![json!(["unwritable", 0, e, []])],
                        },
                        None => vec![],
                    };
                    runs.push(json!({"path": &p[comps(&dir).len()..], "how": how, "len": b.len(), "res": res.split(':').next().unwrap(), "msg": res.chars().take(200).collect::<String>(), "diff": d}));
                }
            }
            out["runs"] = json!(runs);
            // table files in which one part is missing or empty
            let st = parse(&base).unwrap();
            let mut runs = vec![];
            for (p, how) in st.s.keys().flat_map(|p| ["gone"].into_iter().map(move |h| (p.clone(), h))) {
                let mut x = st.clone();
                x.s.remove(&p);
                let (res, v) = outcome(guard(|| vpx::from_bytes(&build(&x))));
                let d = v.map(|v| lost(&t0, &v)).unwrap_or_default();
                runs.push(json!({"path": p.split('/').collect::<Vec<_>>(), "how": how, "res": res.split(':').next().unwrap(), "msg": res.chars().take(200).collect::<String>(), "diff": d}));
            }
            for g in ["GameStg", "TableInfo"] {
                let mut x = st.clone();
                x.s.retain(|k, _| !k.starts_with(&format!("{g}/")));
                x.stg.remove(g);
                let (res, v) = outcome(guard(|| vpx::from_bytes(&build(&x))));
                let d = v.map(|v| lost(&t0, &v)).unwrap_or_default();
                runs.push(json!({"path": [g], "how": "gone", "res": res.split(':').next().unwrap(), "msg": res.chars().take(200).collect::<String>(), "diff": d}));
            }
            out["truns"] = json!(runs);
        }
        m => panic!("mode {m}"),
    }
    out
}
/// counts the values of a document and replaces the one with this number
fn leaves(v: &mut Value, at: usize) -> usize {
    fn go(v: &mut Value, at: usize, n: &mut usize) {
        match v {
            Value::Array(a) if !a.is_empty() => a.iter_mut().for_each(|x| go(x, at, n)),
            Value::Object(o) if !o.is_empty() => o.values_mut().for_each(|x| go(x, at, n)),
            Value::Null => {}
            _ => {
                if *n == at {
                    *v = json!({"zz": [1]});
                }
                *n += 1;
            }
        }
    }
    let mut n = 0;
    go(v, at, &mut n);
    n
}
fn lost(a: &VPX, b: &VPX) -> Vec<Value> {
    match (stored(a), stored(b)) {
        (Ok(x), Ok(y)) => split(&diff(&x, &y)),
        _ => vec![json!(["unwritable", 0, "", []])],
    }
}
/// differences as [kind of stream, its number, what, record tags]
fn split(d: &[Value]) -> Vec<Value> {
    d.iter()
        .map(|d| {
            let s = d[0].as_str().unwrap();
            let k = s.trim_end_matches(|c: char| c.is_ascii_digit());
            let (k, n) = if ["GameItem", "Image", "Sound", "Font", "Collection"].iter().any(|x| k == format!("GameStg/{x}")) { (k, s[k.len()..].parse().unwrap_or(0)) } else { (s, 0u32) };
            let what = d[1].as_str().unwrap();
            let tags: Vec<String> = if what == "records" { d[2].as_str().unwrap_or("").split(',').map(|x| x.into()).collect() } else { what.strip_prefix("value ").map(|t| vec![t.to_string()]).unwrap_or_default() };
            json!([k, n, what.split(' ').next().unwrap(), tags])
        })
        .collect()
}
fn pool_run<T: Send>(n: usize, f: impl FnOnce() -> T + Send) -> T {
    pool(n).install(f)
}
/// item files in the order of the index
fn index(fs: &TracedFs, dir: &Path) -> Vec<Vec<String>> {
    let s = fs.st.0.lock().unwrap();
    let Some(b) = s.files.get(&comps(&dir.join("gameitems.json"))) else { return vec![] };
    let v: Value = serde_json::from_slice(b).unwrap_or(json!([]));
    v.as_array().unwrap().iter().map(|x| comps(&dir.join("gameitems").join(x["file_name"].as_str().unwrap()))).collect()
}
pub fn run(i: &str, o: &str, work: &str) {
    par_map(i, o, |c| case(c, Path::new(work)));
}
