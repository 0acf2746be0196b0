//! Replays histories of operations on one real table file and records what can be observed after every step.
use crate::biffio::{enc_recs, endb};
use crate::table::*;
use crate::util::*;
use serde_json::{Value, json};
use std::fs;
use std::io::Write;
use std::path::{Path, PathBuf};
use vpin::vpx;
use vpin::vpx::gamedata;
use vpin::vpx::version::Version;

struct Run {
    dir: PathBuf,
    table: PathBuf,
    canon: bool,
    session: Option<vpx::VpxFile<fs::File>>,
    signed: Streams,
}

fn err(e: std::io::Error) -> Value {
    json!(format!("err {:?}", e.kind()))
}
fn res<T>(r: std::io::Result<T>, f: impl FnOnce(T) -> Value) -> Value {
    match r {
        Ok(v) => f(v),
        Err(e) => err(e),
    }
}
fn wstr(s: &str) -> String {
    let b: Vec<u8> = s.encode_utf16().flat_map(|c| c.to_le_bytes()).collect();
    hex(&[(b.len() as u32).to_le_bytes().to_vec(), b].concat())
}
fn f32h(v: f32) -> String {
    hex(&v.to_le_bytes())
}

impl Run {
    fn rel(&self, p: &Path) -> String {
        p.strip_prefix(&self.dir).map(|p| p.to_string_lossy().to_string()).unwrap_or(format!("!{}", p.display()))
    }
    fn side(&self, a: &Value) -> Option<PathBuf> {
        a.as_str().map(|s| self.dir.join(s))
    }
    fn sess(&mut self) -> std::io::Result<&mut vpx::VpxFile<fs::File>> {
        if self.session.is_none() {
            self.session = Some(vpx::open_rw(&self.table)?);
        }
        Ok(self.session.as_mut().unwrap())
    }
    fn normal(&self, st: &Streams) -> Result<Vec<(String, String)>, String> {
        let gd = st.s.get("GameStg/GameData").ok_or("no gamedata")?;
        if self.canon {
            return settings_recs(gd);
        }
        let v = st.s.get("GameStg/Version").ok_or("no version")?;
        let v = Version::new(u32::from_le_bytes(v[..4].try_into().unwrap()));
        let b = guard(|| gamedata::write_all_gamedata_records(&gamedata::read_all_gamedata_records(gd, &v), &v))?;
        settings_recs(&b)
    }
    fn observe(&self) -> Value {
        let bytes = fs::read(&self.table).unwrap_or_default();
        let f = fp(&bytes);
        let r = (|| -> Result<Value, String> {
            let st = parse(&bytes)?;
            let mut c = content(&st)?;
            c["settings"] = json!(settings_fp(&self.normal(&st)?));
            Ok(json!({"f": c, "macok": st.s.get("GameStg/MAC").map(|m| *m == mac(&st).unwrap_or_default()).unwrap_or(false), "tree": tree_fp(&st)}))
        })();
        match r {
            Ok(mut v) => {
                v["bytes"] = json!(f);
                v["size"] = json!(bytes.len());
                v
            }
            Err(e) => json!({"bytes": f, "broken": e, "size": bytes.len()}),
        }
    }
    fn listing(&self) -> (Vec<String>, Value) {
        let mut names = vec![];
        let mut side = serde_json::Map::new();
        for d in ["", "sub"] {
            for e in fs::read_dir(self.dir.join(d)).unwrap() {
                let e = e.unwrap();
                if e.file_type().unwrap().is_dir() {
                    continue;
                }
                let n = self.rel(&e.path());
                if e.path() != self.table {
                    let b = fs::read(e.path()).unwrap();
                    let t = match std::str::from_utf8(&b) {
                        Ok(_) => json!({"bytes": fp(&b), "text": fp(&b), "ok": true}),
                        Err(_) => json!({"bytes": fp(&b), "text": fp(text_of(&b).as_bytes()), "ok": false}),
                    };
                    side.insert(n.clone(), t);
                }
                names.push(n);
            }
        }
        names.sort();
        (names, Value::Object(side))
    }
    fn tamper(&self, kind: &str) -> Result<bool, String> {
        let bytes = fs::read(&self.table).map_err(|e| e.to_string())?;
        let mut st = parse(&bytes)?;
        let before = st.clone();
        let edit_recs = |b: &[u8], f: &mut dyn FnMut(&mut Vec<Value>)| -> Result<Vec<u8>, String> {
            let mut r = recs_of(b)?;
            for x in r.iter_mut() {
                match x["t"].as_str().unwrap() {
                    "CODE" | "BITS" => x["k"] = json!("nosize"),
                    "JPEG" => x["k"] = json!("sub"),
                    _ => {}
                }
            }
            f(&mut r);
            let mut o = vec![];
            enc_recs(&r, &mut o);
            endb(&mut o);
            Ok(o)
        };
        let flip = |v: &mut Value, at: usize| {
            let mut b = unhex(v["p"].as_str().unwrap());
            if at < b.len() {
                b[at] ^= 1;
            }
            v["p"] = json!(hex(&b));
        };
        let gd = "GameStg/GameData".to_string();
        let (k, arg) = kind.split_once(':').unwrap_or((kind, ""));
        match k {
            "version" => {
                let b = st.s.get_mut("GameStg/Version").unwrap();
                b[0] ^= 1;
            }
            "info" => {
                let e = st.s.entry(format!("TableInfo/{arg}")).or_default();
                if arg == "Screenshot" || e.is_empty() {
                    e.extend([0x5a, 0]);
                } else {
                    e[0] ^= 1;
                }
            }
            "tags" => {
                let b = st.s.get("GameStg/CustomInfoTags").cloned().unwrap_or({
                    let mut v = vec![];
                    endb(&mut v);
                    v
                });
                let o = edit_recs(&b, &mut |r| r.push(json!({"t":"CUST","p":"040000005a7a3978"})))?;
                st.s.insert("GameStg/CustomInfoTags".into(), o);
            }
            "tagvals" => {
                if let Some(n) = cust_names(&st)?.last() {
                    st.s.entry(format!("TableInfo/{n}")).or_default().extend([0x31, 0]);
                }
            }
            "settings" => {
                let o = edit_recs(&st.s[&gd], &mut |r| {
                    let i = r.iter().position(|x| x["t"] == arg).or(r.iter().position(|x| x["t"] == "RGHT"));
                    if let Some(i) = i {
                        flip(&mut r[i], 0);
                    }
                })?;
                st.s.insert(gd, o);
            }
            "order" => {
                let o = edit_recs(&st.s[&gd], &mut |r| r.swap(0, 1))?;
                st.s.insert(gd, o);
            }
            "lock" => {
                let o = edit_recs(&st.s[&gd], &mut |r| match r.iter_mut().find(|x| x["t"] == "TLCK") {
                    Some(x) => flip(x, 0),
                    None => r.push(json!({"t":"TLCK","p":"01000000"})),
                })?;
                st.s.insert(gd, o);
            }
            "codeb" => {
                let o = edit_recs(&st.s[&gd], &mut |r| {
                    if let Some(x) = r.iter_mut().find(|x| x["t"] == "CODE") {
                        let b = unhex(x["p"].as_str().unwrap());
                        let mut c = b[4..].to_vec();
                        match arg {
                            "first" if !c.is_empty() => c[0] ^= 1,
                            "cut" if !c.is_empty() => {
                                c.pop();
                            }
                            _ => c.push(b'\''),
                        }
                        x["p"] = json!(hex(&[(c.len() as u32).to_le_bytes().to_vec(), c].concat()));
                    }
                })?;
                st.s.insert(gd, o);
            }
            "colls" => {
                let mut i = 0;
                while st.s.contains_key(&format!("GameStg/Collection{}", i + 1)) {
                    i += 1;
                }
                let p = format!("GameStg/Collection{i}");
                if let Some(b) = st.s.get(&p).cloned() {
                    st.s.insert(p, edit_recs(&b, &mut |r| r.push(json!({"t":"ITEM","p":"020000007a00"})))?);
                }
            }
            "savedate" | "saverev" => {
                let p = if k == "savedate" { "TableInfo/TableSaveDate" } else { "TableInfo/TableSaveRev" };
                st.s.entry(p.into()).or_default().extend([0x37, 0]);
            }
            "items" | "sounds" | "fonts" | "images" => {
                let p = match k {
                    "items" => "GameStg/GameItem0",
                    "sounds" => "GameStg/Sound0",
                    "fonts" => "GameStg/Font0",
                    _ => "GameStg/Image0",
                };
                if let Some(b) = st.s.get(p).cloned() {
                    let o = match k {
                        "items" => {
                            let mut v = b[..4].to_vec();
                            v.extend(edit_recs(&b[4..], &mut |r| r.push(json!({"t":"ZZZZ","p":"01"}))).unwrap_or(b[4..].to_vec()));
                            v
                        }
                        "sounds" => {
                            let mut v = b.clone();
                            let n = v.len();
                            v[n - 1] ^= 1;
                            v
                        }
                        _ => edit_recs(&b, &mut |r| r.push(json!({"t":"ZZZZ","p":"01"})))?,
                    };
                    st.s.insert(p.into(), o);
                }
            }
            "extra" => {
                st.s.insert("GameStg/Zextra".into(), vec![9; 70]);
            }
            _ => return Err(format!("tamper {kind}")),
        }
        let changed = st != before;
        if changed {
            fs::write(&self.table, build(&st)).map_err(|e| e.to_string())?;
        }
        Ok(changed)
    }
    fn restore(&self) -> Result<(), String> {
        let mut st = parse(&fs::read(&self.table).map_err(|e| e.to_string())?)?;
        let sg = |p: &str| p.starts_with("TableInfo/") || p.starts_with("GameStg/Collection") || ["GameStg/Version", "GameStg/CustomInfoTags", "GameStg/GameData"].contains(&p);
        st.s.retain(|p, _| !sg(p));
        for (p, b) in &self.signed.s {
            if sg(p) {
                st.s.insert(p.clone(), b.clone());
            }
        }
        fs::write(&self.table, build(&st)).map_err(|e| e.to_string())
    }
    fn intended(&self, n: u64) -> Result<Value, String> {
        let st = parse(&fs::read(&self.table).map_err(|e| e.to_string())?)?;
        let mut r = self.normal(&st)?;
        let (nm, right, grav) = set_values(n);
        for x in r.iter_mut() {
            match x.0.as_str() {
                "NAME" => x.1 = wstr(&nm),
                "RGHT" => x.1 = f32h(right),
                "GAVT" => x.1 = f32h(grav),
                _ => {}
            }
        }
        Ok(json!(settings_fp(&r)))
    }
    fn step(&mut self, op: &[Value], keep: bool) -> (Value, Value) {
        let name = op[0].as_str().unwrap();
        let t = self.table.clone();
        let mut extra = Value::Null;
        let sessionable = ["lock", "unlock", "is_locked", "setgd", "webp", "query"].contains(&name);
        if !sessionable || !keep {
            self.session = None;
        }
        let r = match name {
            "lock" | "unlock" | "is_locked" => {
                let f = |s: &mut vpx::VpxFile<fs::File>| match name {
                    "lock" => s.lock(),
                    "unlock" => s.unlock(),
                    _ => s.is_locked(),
                };
                let r = if name == "is_locked" && !keep { vpx::open(&t).and_then(|mut s| s.is_locked()) } else { self.sess().and_then(f) };
                res(r, |b| json!(b.to_string()))
            }
            "open" => res(self.sess().map(|_| ()), |_| json!("ok")),
            "setgd" => {
                let n = op[1].as_u64().unwrap();
                match self.intended(n) {
                    Ok(v) => extra = v,
                    Err(e) => return (json!(format!("harness {e}")), extra),
                }
                let r = self.sess().and_then(|s| {
                    let mut g = s.read_gamedata()?;
                    let (nm, right, grav) = set_values(n);
                    g.name = nm;
                    g.right = right;
                    g.gravity = grav;
                    s.write_gamedata(&g)
                });
                res(r, |_| json!("ok"))
            }
            "webp" => res(self.sess().and_then(|s| s.images_to_webp()), |v| {
                json!(v.iter().map(|c| json!([c.name, c.old_extension, c.new_extension])).collect::<Vec<_>>())
            }),
            "query" => {
                let whole = vpx::read(&t);
                let r = (|| -> std::io::Result<Vec<&str>> {
                    let w = whole?;
                    let mut ro;
                    let s = if keep {
                        self.sess()?
                    } else {
                        ro = vpx::open(&t)?;
                        &mut ro
                    };
                    let mut d = vec![];
                    let mut ck = |n: &'static str, b: bool| {
                        if !b {
                            d.push(n)
                        }
                    };
                    ck("items", nan_eq(&s.read_gameitems()?, &w.gameitems));
                    ck("sounds", s.read_sounds()? == w.sounds);
                    ck("images", nan_eq(&s.read_images()?, &w.images));
                    ck("fonts", s.read_fonts()? == w.fonts);
                    ck("colls", s.read_collections()? == w.collections);
                    ck("tags", s.read_custominfotags()? == w.custominfotags);
                    ck("info", s.read_tableinfo()? == w.info);
                    ck("version", s.read_version()? == w.version);
                    ck("settings", nan_eq(&s.read_gamedata()?, &w.gamedata));
                    Ok(d)
                })();
                res(r, |d| json!(if d.is_empty() { "same".to_string() } else { format!("differs {d:?}") }))
            }
            "read" => res(vpx::read(&t), |_| json!("ok")),
            "verify" => json!(match vpx::verify(&t) {
                vpx::VerifyResult::Ok(p) => format!("ok {}", self.rel(&p)),
                vpx::VerifyResult::Failed(p, _) => format!("failed {}", self.rel(&p)),
            }),
            "compact" => res(vpx::compact(&t), |_| json!("ok")),
            "rewrite" => res(vpx::read(&t).and_then(|v| vpx::write(&t, &v)), |_| json!("ok")),
            "minimal" => res(vpx::new_minimal_vpx(&t), |_| json!("ok")),
            "import" => res(vpx::importvbs(&t, self.side(&op[1])), |p| json!(format!("ok {}", self.rel(&p)))),
            "extract" => res(vpx::extractvbs(&t, self.side(&op[1]), op[2].as_bool().unwrap()), |r| {
                json!(match r {
                    vpx::ExtractResult::Extracted(p) => format!("extracted {}", self.rel(&p)),
                    vpx::ExtractResult::Existed(p) => format!("existed {}", self.rel(&p)),
                })
            }),
            "paths" => json!([self.rel(&vpx::vbs_path_for(&t)), self.rel(&vpx::ini_path_for(&t))]),
            "edit" => {
                let p = self.dir.join(op[1].as_str().unwrap());
                match op[2].as_str() {
                    Some(h) => fs::write(p, unhex(h)).unwrap(),
                    None => {
                        let _ = fs::remove_file(p);
                    }
                }
                json!("ok")
            }
            "tamper" => match self.tamper(op[1].as_str().unwrap()) {
                Ok(c) => json!(if c { "changed" } else { "same" }),
                Err(e) => json!(format!("harness {e}")),
            },
            "restore" => match self.restore() {
                Ok(()) => json!("ok"),
                Err(e) => json!(format!("harness {e}")),
            },
            x => panic!("op {x}"),
        };
        (r, extra)
    }
}
fn nan_eq<T: PartialEq + std::fmt::Debug>(a: &T, b: &T) -> bool {
    // NaN differs from itself and sets print in any order
    let sorted = |x: &T| {
        let mut v: Vec<char> = format!("{x:?}").chars().collect();
        v.sort();
        v
    };
    a == b || sorted(a) == sorted(b)
}
fn set_values(n: u64) -> (String, f32, f32) {
    (format!("Tisch {n} \u{fc}\u{4e2d}"), 900.0 + n as f32, 1.5 * n as f32)
}

pub fn container(inp: &str, out: &str, scratch: &str) {
    par_map(inp, out, |c| {
        let id = c["id"].as_u64().unwrap();
        let dir = PathBuf::from(scratch).join(format!("c{id}"));
        let _ = fs::remove_dir_all(&dir);
        fs::create_dir_all(dir.join("sub")).unwrap();
        let r = run(c, &dir);
        let _ = fs::remove_dir_all(&dir);
        match r {
            Ok(v) => v,
            Err(e) => json!({"id": id, "err": e}),
        }
    })
}

fn run(c: &Value, dir: &Path) -> Result<Value, String> {
    let canon = c["canon"].as_bool().unwrap();
    let table = dir.join(c["file"].as_str().unwrap());
    let mut st = of_case(&c["streams"], c["clsid"].as_bool().unwrap_or(false));
    let m = mac(&st)?;
    st.s.insert("GameStg/MAC".into(), m);
    let raw = build(&st);
    if canon {
        let v = guard(|| vpx::from_bytes(&raw))?.map_err(|e| format!("base: {e}"))?;
        guard(|| vpx::write(&table, &v))?.map_err(|e| format!("base: {e}"))?;
    } else {
        fs::File::create(&table).unwrap().write_all(&raw).unwrap();
    }
    let mut run = Run { dir: dir.to_path_buf(), table, canon, session: None, signed: Streams::default() };
    let mut steps = vec![];
    let first = run.observe();
    let mut last_bytes = first["bytes"].clone();
    let mut last_dir = json!(null);
    run.signed = parse(&fs::read(&run.table).unwrap())?;
    for (i, o) in c["ops"].as_array().unwrap().iter().enumerate() {
        let op = o["op"].as_array().unwrap();
        let keep = o["keep"].as_bool().unwrap_or(false);
        if i == 0 {
            let (n, s) = run.listing();
            last_dir = json!([n, s]);
        }
        let was = last_dir.clone();
        let (r, x) = match guard(|| run.step(op, keep)) {
            Ok(v) => v,
            Err(e) => {
                run.session = None;
                (json!(format!("panic {e}")), Value::Null)
            }
        };
        let mut s = json!({"op": op[0], "arg": op.get(1).filter(|v| v.is_string()).cloned().unwrap_or(json!("")),
            "over": op.get(2).map(|v| *v == json!(true)).unwrap_or(false), "res": r, "want": if x.is_null() { json!("") } else { x }});
        let o = run.observe();
        // the file's own verdict about itself, by the library
        s["verify"] = json!(matches!(guard(|| vpx::verify(&run.table)), Ok(vpx::VerifyResult::Ok(_))));
        s["changed"] = json!(o["bytes"] != last_bytes);
        if o["bytes"] != last_bytes {
            s["obs"] = o.clone();
            last_bytes = o["bytes"].clone();
        }
        let (n, sd) = run.listing();
        s["dir"] = json!(n);
        s["side"] = sd.clone();
        last_dir = json!([n, sd]);
        let _ = was;
        let name = op[0].as_str().unwrap();
        if o["broken"].is_null() && name != "tamper" && name != "restore" && s["changed"] == json!(true) && name != "webp" && name != "compact" {
            run.signed = parse(&fs::read(&run.table).unwrap())?;
        }
        let stop = !o["broken"].is_null();
        steps.push(s);
        if stop {
            break;
        }
    }
    Ok(json!({"id": c["id"], "file": c["file"], "side_default": c["side_default"], "ini_default": c["ini_default"], "first": first, "steps": steps}))
}
