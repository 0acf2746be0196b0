//! The same history on the disk and on the in-memory file system.
use crate::util::*;
use serde_json::{Map, Value, json};
use std::collections::BTreeMap;
use std::ffi::OsStr;
use std::io::{Read, Write};
use std::os::unix::ffi::OsStrExt;
use std::path::{Path, PathBuf};
use vpin::filesystem::{FileSystem, MemoryFileSystem, RealFileSystem};

/// one letter of the specification is this many bytes
fn grow(d: &str, unit: usize) -> Vec<u8> {
    d.bytes().flat_map(|b| std::iter::repeat_n(b, unit)).collect()
}
fn shrink(b: &[u8], unit: usize) -> String {
    b.chunks(unit).map(|c| if c.len() == unit && c.iter().all(|x| *x == c[0]) && c[0].is_ascii_alphanumeric() { c[0] as char } else { '?' }).collect()
}
fn said<T>(r: std::io::Result<T>) -> Value {
    match r {
        Ok(_) => json!("ok"),
        Err(e) => json!(format!("{:?}", e.kind())),
    }
}
fn content(r: std::io::Result<Vec<u8>>, unit: usize) -> Value {
    match r {
        Ok(b) => json!(shrink(&b, unit)),
        Err(e) if e.kind() == std::io::ErrorKind::NotFound => json!("not found"),
        Err(e) => json!(format!("error {e}")),
    }
}
struct Side<'a> {
    fs: &'a dyn FileSystem,
    w: BTreeMap<String, Box<dyn Write>>,
    r: BTreeMap<String, Box<dyn Read>>,
    unit: usize,
}
impl Side<'_> {
    fn step(&mut self, o: &Value, path: Option<&Path>) -> Value {
        let h = o["h"].to_string();
        let buf = o["buf"] == true;
        match o["op"].as_str().unwrap() {
            "create" => {
                let p = path.unwrap();
                match if buf { self.fs.create_buffered_file(p) } else { self.fs.create_file(p) } {
                    Ok(w) => {
                        self.w.insert(h, w);
                        json!("ok")
                    }
                    Err(e) => said::<()>(Err(e)),
                }
            }
            "write" => {
                let d = grow(o["d"].as_str().unwrap(), self.unit);
                match self.w.get_mut(&h) {
                    Some(w) => said(w.write_all(&d)),
                    None => json!("no writer"),
                }
            }
            "flush" => self.w.get_mut(&h).map(|w| said(w.flush())).unwrap_or(json!("no writer")),
            "close" => {
                self.w.remove(&h);
                json!("ok")
            }
            "put" => said(self.fs.write_file(path.unwrap(), &grow(o["d"].as_str().unwrap(), self.unit))),
            "open" => {
                let p = path.unwrap();
                match if buf { self.fs.open_buffered_file(p) } else { self.fs.open_file(p) } {
                    Ok(r) => {
                        self.r.insert(h, r);
                        json!("ok")
                    }
                    Err(e) => said::<()>(Err(e)),
                }
            }
            "read" => {
                let n = o["n"].as_u64().unwrap() as usize * self.unit;
                let mut b = vec![];
                match self.r.get_mut(&h) {
                    Some(r) => content(r.take(n as u64).read_to_end(&mut b).map(|_| b), self.unit),
                    None => json!("no reader"),
                }
            }
            "closer" => {
                self.r.remove(&h);
                json!("ok")
            }
            x => panic!("op {x}"),
        }
    }
}
fn ways(fs: &dyn FileSystem, p: &Path, unit: usize) -> (bool, Value, Value) {
    let again = fs.open_buffered_file(p).and_then(|mut r| {
        let mut b = vec![];
        r.read_to_end(&mut b).map(|_| b)
    });
    (fs.exists(p), content(fs.read_file(p), unit), content(again, unit))
}
pub fn case(c: &Value, work: &Path) -> Value {
    let root = work.join(format!("f{}", c["id"]));
    std::fs::create_dir_all(&root).unwrap();
    let unit = c["unit"].as_u64().unwrap() as usize;
    // spellings of each path, as bytes
    let paths: BTreeMap<String, Vec<PathBuf>> = c["paths"]
        .as_object()
        .unwrap()
        .iter()
        .map(|(k, v)| (k.clone(), v.as_array().unwrap().iter().map(|s| { let mut b = root.as_os_str().as_bytes().to_vec(); b.push(b'/'); b.extend(unhex(s.as_str().unwrap())); PathBuf::from(OsStr::from_bytes(&b)) }).collect()))
        .collect();
    let mem = MemoryFileSystem::new();
    for v in paths.values() {
        for p in v {
            std::fs::create_dir_all(p.parent().unwrap()).unwrap();
            mem.create_dir_all(p.parent().unwrap()).unwrap();
        }
    }
    let mut a = Side { fs: &RealFileSystem, w: BTreeMap::new(), r: BTreeMap::new(), unit };
    let mut b = Side { fs: &mem, w: BTreeMap::new(), r: BTreeMap::new(), unit };
    let mut ops = vec![];
    for o in c["ops"].as_array().unwrap() {
        let path = o.get("p").map(|p| { let v = &paths[p.as_str().unwrap()]; v[o["s"].as_u64().unwrap_or(0) as usize % v.len()].clone() });
        let path = path.as_deref();
        let (x, y) = match o["op"].as_str().unwrap() {
            "delete" => {
                let x = std::fs::remove_file(path.unwrap());
                // the in-memory file system takes text here
                mem.delete_file(&path.unwrap().to_string_lossy());
                let _ = x;
                (json!("ok"), json!("ok"))
            }
            "clear" => {
                for v in paths.values() {
                    let _ = std::fs::remove_file(&v[0]);
                }
                mem.clear();
                (json!("ok"), json!("ok"))
            }
            _ => (a.step(o, path), b.step(o, path)),
        };
        let mut look = Map::new();
        for (k, v) in &paths {
            let s = ops.len() % v.len();
            let (e1, c1, _) = ways(&RealFileSystem, &v[s], unit);
            let (e2, c2, d2) = ways(&mem, &v[s], unit);
            let g = if c["text"] == true { mem.get_file(&v[s].to_string_lossy()).map(|b| json!(shrink(&b, unit))).unwrap_or(json!("not found")) } else { c2.clone() };
            look.insert(k.clone(), json!([e1, e2, c1, c2, if g == c2 { d2 } else { g }]));
        }
        let list: Vec<String> = mem
            .list_files()
            .iter()
            .map(|f| paths.iter().find(|(_, v)| v.iter().any(|p| p.to_string_lossy() == *f)).map(|(k, _)| k.clone()).unwrap_or(format!("?{f}")))
            .collect();
        let mut r = o.clone();
        r["real"] = x;
        r["mem"] = y;
        r["look"] = json!(look);
        r["list"] = if c["text"] == true { json!(list) } else { json!(paths.iter().filter(|(_, v)| mem.exists(&v[0])).map(|(k, _)| k.clone()).collect::<Vec<_>>()) };
        ops.push(r);
    }
    drop(a);
    std::fs::remove_dir_all(&root).unwrap();
    json!({"id": c["id"], "ops": ops})
}
/// workers that use one in-memory file system at the same time, each with its own files
pub fn crowd(c: &Value) -> Value {
    let mem = MemoryFileSystem::new();
    let all = c["workers"].as_array().unwrap();
    let out: Vec<Value> = std::thread::scope(|s| {
        let h: Vec<_> = all
            .iter()
            .map(|w| {
                let mem = &mem;
                s.spawn(move || {
                    let mut side = Side { fs: mem, w: BTreeMap::new(), r: BTreeMap::new(), unit: 1 };
                    let mut bad = vec![];
                    let mut want: BTreeMap<String, String> = BTreeMap::new();
                    for o in w.as_array().unwrap() {
                        let p = PathBuf::from(format!("/c/{}", o["p"].as_str().unwrap()));
                        let mut parts = vec![];
                        for (op, d) in o["do"].as_array().unwrap().iter().map(|x| (x[0].as_str().unwrap(), x[1].as_str().unwrap())) {
                            side.step(&json!({"op": op, "h": 1, "d": d, "buf": false}), Some(&p));
                            match op {
                                "put" => parts = vec![d],
                                "create" => parts = vec![],
                                "write" => parts.push(d),
                                _ => {}
                            }
                        }
                        want.insert(o["p"].as_str().unwrap().into(), parts.concat());
                        for (k, v) in &want {
                            let got = mem.read_file(&PathBuf::from(format!("/c/{k}"))).map(|b| String::from_utf8_lossy(&b).to_string()).unwrap_or("not found".into());
                            if got != *v {
                                bad.push(json!([k, v, got]));
                            }
                        }
                    }
                    json!([bad, want.len()])
                })
            })
            .collect();
        h.into_iter().map(|h| h.join().unwrap_or(json!([[["panic"]], 0]))).collect()
    });
    let files = mem.list_files().len();
    let want: u64 = out.iter().map(|x| x[1].as_u64().unwrap()).sum();
    json!({"id": c["id"], "bad": out.iter().flat_map(|x| x[0].as_array().unwrap().clone()).collect::<Vec<_>>(), "files": files, "want": want})
}
pub fn run(i: &str, o: &str, work: &str) {
    par_map(i, o, |c| if c.get("workers").is_some() { crowd(c) } else { case(c, Path::new(work)) });
}
