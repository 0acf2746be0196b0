//! Histories of loading, editing, writing and opening whole tables.
use crate::biffio::dec_recs;
use crate::records::decode_item;
use crate::table::*;
use crate::util::*;
use serde_json::{Value, json};
use std::fs;
use std::path::{Path, PathBuf};
use vpin::vpx::{self, VPX};

const KINDS: [&str; 5] = ["GameItem", "Image", "Sound", "Font", "Collection"];

/// stream path as the specification writes it
fn path_of(p: &str) -> Value {
    let (a, b) = p.split_once('/').unwrap_or((p, ""));
    if a == "GameStg" {
        for k in KINDS {
            if let Some(n) = b.strip_prefix(k).and_then(|n| n.parse::<u32>().ok()) {
                return json!([a, k, n]);
            }
        }
    }
    json!([a, b])
}
pub fn stored(st: &Streams) -> Result<Value, String> {
    let mut s = vec![];
    let gd = st.s.get("GameStg/GameData").ok_or("no settings stored")?;
    let recs = recs_of(gd)?;
    let mut counts = serde_json::Map::new();
    for (k, t) in KINDS.iter().zip(["SEDT", "SIMG", "SSND", "SFNT", "SCOL"]) {
        let n = recs
            .iter()
            .rev()
            .find(|r| r["t"] == t)
            .map(|r| u32::from_le_bytes(unhex(r["p"].as_str().unwrap()).try_into().unwrap()))
            .unwrap_or(0);
        counts.insert(k.to_string(), json!(n));
    }
    let rest: Vec<_> = recs.iter().filter(|r| !["SEDT", "SIMG", "SSND", "SFNT", "SCOL"].contains(&r["t"].as_str().unwrap())).collect();
    let set = fp(serde_json::to_string(&rest).unwrap().as_bytes());
    for (p, b) in &st.s {
        if p == "GameStg/MAC" {
            continue;
        }
        s.push(json!([path_of(p), if p == "GameStg/GameData" { String::new() } else { fp(b) }]));
    }
    for (p, id) in &st.stg {
        if !["GameStg", "TableInfo"].contains(&p.as_str()) || !id.is_empty() {
            s.push(json!([["storage", p], ""]));
        }
    }
    Ok(json!({"s": s, "counts": counts, "set": set}))
}
pub fn same(a: &VPX, b: &VPX) -> bool {
    fn k<T: std::fmt::Debug>(x: &T) -> Vec<char> {
        let mut v: Vec<char> = format!("{x:?}").chars().collect();
        v.sort();
        v
    }
    if a == b {
        return true;
    }
    // NaN differs from itself: compare part by part by the printed form, whose sets and maps have no order
    let p = |x: &VPX| {
        let mut v = vec![k(&x.custominfotags), k(&x.info), k(&x.version), k(&x.gamedata)];
        v.extend(x.gameitems.iter().map(|i| k(i)));
        v.push(vec!['|']);
        v.extend(x.images.iter().map(|i| k(i)));
        v.push(vec!['|']);
        v.extend(x.sounds.iter().map(|i| k(i)));
        v.push(vec!['|']);
        v.extend(x.fonts.iter().map(|i| k(i)));
        v.push(vec!['|']);
        v.extend(x.collections.iter().map(|i| k(i)));
        v
    };
    p(a) == p(b)
}
/// the record streams of a stored table, decoded, for the field-by-field comparison
fn decoded(st: &Streams) -> Value {
    let mut o = vec![];
    for (p, b) in &st.s {
        let k = path_of(p);
        let sp = match k[1].as_str().unwrap() {
            "GameItem" => {
                o.push(match decode_item(b) {
                    Ok((t, r)) => json!({"path":p,"type":t,"out":r}),
                    Err(e) => json!({"path":p,"err":e}),
                });
                continue;
            }
            "GameData" => json!({"CODE":"code","MATR":"nest","RPRB":"nest"}),
            "Image" => json!({"JPEG":"sub","BITS":"bits"}),
            "Font" | "Collection" | "CustomInfoTags" => json!({}),
            _ => continue,
        };
        let mut pos = 0;
        o.push(match dec_recs(b, &mut pos, sp.as_object().unwrap()) {
            Ok(r) if pos == b.len() => json!({"path":p,"out":r}),
            Ok(_) => json!({"path":p,"err":"bytes after the end"}),
            Err(e) => json!({"path":p,"err":e}),
        });
    }
    json!(o)
}

pub fn run(inp: &str, out: &str, scratch: &str) {
    par_map(inp, out, |c| {
        let id = c["id"].as_u64().unwrap();
        let dir = PathBuf::from(scratch).join(format!("t{id}"));
        let _ = fs::remove_dir_all(&dir);
        fs::create_dir_all(&dir).unwrap();
        let r = one(c, &dir);
        let _ = fs::remove_dir_all(&dir);
        r
    })
}
fn with_mac(streams: &Value) -> Result<Vec<u8>, String> {
    let mut st = of_case(streams, false);
    let m = mac(&st)?;
    st.s.insert("GameStg/MAC".into(), m);
    Ok(build(&st))
}
fn one(c: &Value, dir: &Path) -> Value {
    let bases: Vec<Vec<u8>> = match c["bases"].as_array().unwrap().iter().map(with_mac).collect() {
        Ok(v) => v,
        Err(e) => return json!({"id": c["id"], "harness": e}),
    };
    // streams of the base whose bytes are kept as they are; the others have their form checked record by record
    let exact: Vec<Value> = bases
        .iter()
        .map(|b| {
            let st = parse(b).unwrap();
            let mut v = vec![];
            for (p, x) in &st.s {
                if p == "GameStg/MAC" || p == "GameStg/GameData" {
                    continue;
                }
                let ex = p.starts_with("TableInfo/") || p == "GameStg/Version" || p == "GameStg/CustomInfoTags" || p.starts_with("GameStg/Sound");
                v.push(json!([path_of(p), if ex { fp(x) } else { String::new() }]));
            }
            json!(v)
        })
        .collect();
    // parts to add come from the second base
    let mut mem: Option<VPX> = None;
    let mut steps = vec![];
    let mut dec = vec![json!(null); bases.len()];
    for o in c["ops"].as_array().unwrap() {
        let op = o[0].as_str().unwrap();
        let arg = o.get(1).cloned().unwrap_or(json!(""));
        let mut want = json!("");
        let mut taken = mem.take();
        let r: Result<Result<(VPX, Vec<u8>), String>, String> = guard(|| {
            let e = |x: std::io::Error| x.to_string();
            let mut bytes = None;
            let v = match op {
                "load" => vpx::from_bytes(&bases[arg.as_u64().unwrap() as usize - 1]).map_err(e)?,
                "open" => vpx::read(&dir.join(arg.as_str().unwrap())).map_err(e)?,
                "write" => {
                    let v = taken.take().unwrap();
                    let p = dir.join(arg.as_str().unwrap());
                    vpx::write(&p, &v).map_err(e)?;
                    bytes = Some(fs::read(&p).map_err(e)?);
                    v
                }
                "bytes" => {
                    let b = vpx::to_bytes(&taken.take().unwrap()).map_err(e)?;
                    vpx::from_bytes(&b).map_err(e)?
                }
                "add" | "drop" => {
                    let mut v = taken.take().unwrap();
                    let add = op == "add";
                    let src = if add { Some(vpx::from_bytes(&bases[1]).map_err(e)?) } else { None };
                    macro_rules! edit {
                        ($f:ident, $n:ident) => {{
                            if add {
                                let x = src.unwrap().$f.into_iter().next_back();
                                if let Some(x) = x {
                                    v.$f.push(x);
                                }
                            } else {
                                v.$f.remove(0);
                            }
                            v.gamedata.$n = v.$f.len() as u32;
                        }};
                    }
                    match arg.as_str().unwrap() {
                        "GameItem" => edit!(gameitems, gameitems_size),
                        "Image" => edit!(images, images_size),
                        "Sound" => edit!(sounds, sounds_size),
                        "Font" => edit!(fonts, fonts_size),
                        _ => edit!(collections, collections_size),
                    }
                    v
                }
                "info" => {
                    let mut v = taken.take().unwrap();
                    let f = if arg == "TableName" { &mut v.info.table_name } else { &mut v.info.table_rules };
                    *f = if f.is_some() { None } else { Some("neu \u{e4}\u{4e2d}".into()) };
                    v
                }
                x => panic!("op {x}"),
            };
            let b = match bytes {
                Some(b) => b,
                None => vpx::to_bytes(&v).map_err(e)?,
            };
            Ok((v, b))
        });
        let (v, b) = match r.and_then(|x| x) {
            Ok(x) => x,
            Err(e) => {
                steps.push(json!({"op": op, "arg": arg, "ok": false, "err": e}));
                break;
            }
        };
        let st = match parse(&b) {
            Ok(s) => s,
            Err(e) => {
                steps.push(json!({"op": op, "arg": arg, "ok": false, "err": e}));
                break;
            }
        };
        if op == "load" {
            dec[arg.as_u64().unwrap() as usize - 1] = decoded(&st);
        }
        if op == "add" {
            // the added part must be stored as it is stored in the table it came from
            let i = match arg.as_str().unwrap() {
                "GameItem" => v.gameitems.len(),
                "Image" => v.images.len(),
                "Sound" => v.sounds.len(),
                "Font" => v.fonts.len(),
                _ => v.collections.len(),
            };
            let src = guard(|| vpx::to_bytes(&vpx::from_bytes(&bases[1]).unwrap()).unwrap()).ok().and_then(|b| parse(&b).ok());
            let n = src.as_ref().map(|s| (0..).take_while(|n| s.s.contains_key(&format!("GameStg/{}{n}", arg.as_str().unwrap()))).count()).unwrap_or(0);
            if n > 0 && i > 0 {
                want = json!(fp(&src.unwrap().s[&format!("GameStg/{}{}", arg.as_str().unwrap(), n - 1)]));
            }
        }
        if op == "info" {
            let w: Vec<u8> = "neu \u{e4}\u{4e2d}".encode_utf16().flat_map(|c| c.to_le_bytes()).collect();
            want = json!(fp(&w));
        }
        // reading what was stored gives an equal table
        let eq = matches!(guard(|| vpx::from_bytes(&b)), Ok(Ok(w)) if same(&v, &w));
        let obs = stored(&st);
        match obs {
            Ok(o) => steps.push(json!({"op": op, "arg": arg, "ok": true, "obs": o, "eq": eq, "want": want})),
            Err(e) => {
                steps.push(json!({"op": op, "arg": arg, "ok": false, "err": e}));
                break;
            }
        }
        mem = Some(v);
    }
    json!({"id": c["id"], "bases": exact, "steps": steps, "dec": dec})
}
