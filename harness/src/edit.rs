//! Editing tables in memory, and the part group validation.
use crate::expand::diff;
use crate::table::*;
use crate::util::*;
use serde_json::{Value, json};
use std::path::Path;
use vpin::filesystem::MemoryFileSystem;
use vpin::vpx::expanded::{self, ExpandOptions};
use vpin::vpx::gameitem::{GameItemEnum, validate_part_group_order};
use vpin::vpx::{self, AddImageResult, VPX};

fn open(streams: &Value) -> Result<VPX, String> {
    guard(|| vpx::from_bytes(&build(&of_case(streams, false))))?.map_err(|e| e.to_string())
}
fn stored(v: &VPX) -> Result<Streams, String> {
    parse(&guard(|| vpx::to_bytes(v))?.map_err(|e| e.to_string())?)
}
fn ident(p: &str) -> String {
    p.rsplit(['/', '\\']).next().unwrap().split('.').next().unwrap().to_string()
}
pub fn case(c: &Value, work: &Path) -> Value {
    if c.get("list").is_some() {
        let v = match open(&c["streams"]) {
            Ok(v) => v,
            Err(e) => return json!({"id": c["id"], "harness": e}),
        };
        return match guard(|| validate_part_group_order(&v.gameitems)) {
            Ok(r) => json!({"id": c["id"], "got": r}),
            Err(p) => json!({"id": c["id"], "got": [], "panic": p}),
        };
    }
    let (mut v, pool) = match (open(&c["streams"]), open(&c["pool"])) {
        (Ok(v), Ok(p)) => (v, p),
        (a, b) => return json!({"id": c["id"], "harness": format!("{:?} {:?}", a.err(), b.err())}),
    };
    let VPX { gameitems, images, .. } = pool;
    let mut more: std::vec::IntoIter<GameItemEnum> = gameitems.into_iter();
    let mut pics = images.into_iter();
    let mut ops = vec![];
    for (k, o) in c["ops"].as_array().unwrap().iter().enumerate() {
        let mut d = json!([]);
        let ret = match o["op"].as_str().unwrap() {
            "item" => {
                let i = more.next().unwrap();
                guard(|| {
                    v.add_game_item(i);
                    "ok".to_string()
                })
            }
            "image" => {
                let mut i = pics.next().unwrap();
                i.name = o["text"].as_str().unwrap().into();
                i.path = format!("x/{}.jpg", o["i"].as_str().unwrap());
                guard(|| match v.add_or_replace_image(i) {
                    AddImageResult::Added => "added".to_string(),
                    AddImageResult::Replaced(old) => ident(&old.path),
                })
            }
            "script" => guard(|| {
                v.set_script(o["text"].as_str().unwrap().into());
                "ok".to_string()
            }),
            "save" => {
                let before = stored(&v);
                let r: Result<Result<VPX, String>, String> = guard(|| match o["how"].as_str().unwrap() {
                    "bytes" => vpx::to_bytes(&v).and_then(|b| vpx::from_bytes(&b)).map_err(|e| e.to_string()),
                    "file" => {
                        let p = work.join(format!("e{}-{k}.vpx", c["id"]));
                        let r = vpx::write(&p, &v).and_then(|_| vpx::read(&p)).map_err(|e| e.to_string());
                        let _ = std::fs::remove_file(&p);
                        r
                    }
                    _ => {
                        let fs = MemoryFileSystem::new();
                        let p = Path::new("/e");
                        expanded::write_fs(&v, &p, &ExpandOptions::new(), &fs).map_err(|e| e.to_string()).and_then(|_| expanded::read_fs(&p, &fs).map_err(|e| e.to_string()))
                    }
                });
                r.map(|r| match r {
                    Ok(n) => {
                        d = match (&before, stored(&n)) {
                            (Ok(a), Ok(b)) => json!(diff(a, &b).into_iter().take(5).collect::<Vec<_>>()),
                            (a, b) => json!([[format!("{:?} {:?}", a.as_ref().err(), b.err())]]),
                        };
                        v = n;
                        "ok".to_string()
                    }
                    Err(e) => format!("error: {e}"),
                })
            }
            x => panic!("op {x}"),
        };
        let g = &v.gamedata;
        let others: Vec<_> = [("sounds", g.sounds_size, v.sounds.len()), ("fonts", g.fonts_size, v.fonts.len()), ("collections", g.collections_size, v.collections.len())]
            .into_iter()
            .filter(|x| x.1 as usize != x.2)
            .map(|x| x.0)
            .collect();
        let mut r = o.clone();
        r["ret"] = json!(ret.unwrap_or_else(|p| format!("panic: {p}")));
        r["diff"] = d;
        r["items"] = json!(v.gameitems.iter().map(|i| i.name().to_string()).collect::<Vec<_>>());
        r["imgs"] = json!(v.images.iter().map(|i| json!([i.name, ident(&i.path)])).collect::<Vec<_>>());
        r["counts"] = json!([g.gameitems_size, g.images_size]);
        r["others"] = json!(others);
        r["script"] = json!(g.code.string);
        ops.push(r);
    }
    json!({"id": c["id"], "ops": ops})
}
pub fn run(i: &str, o: &str, work: &str) {
    par_map(i, o, |c| case(c, Path::new(work)));
}
