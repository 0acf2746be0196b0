//! Mesh files of an extracted table as another tool reads them.
use crate::export::{facts, int, item, list, open_gltf, s};
use crate::place::{floats, some, whole};
use crate::util::*;
use flate2::Compression;
use flate2::write::ZlibEncoder;
use serde_json::{Value, json};
use std::collections::{BTreeMap, HashMap};
use std::io::Write;
use std::path::Path;
use vpin::filesystem::{FileSystem, MemoryFileSystem};
use vpin::vpx::gameitem::GameItemEnum as G;
use vpin::vpx::gameitem::primitive::Primitive;
use vpin::vpx::{VPX, expanded};

fn z(b: &[u8]) -> Vec<u8> {
    let mut e = ZlibEncoder::new(vec![], Compression::fast());
    e.write_all(b).unwrap();
    e.finish().unwrap()
}
/// numbers in 1/1024; anything that is no number is none
fn pack(rows: &Value) -> Vec<u8> {
    list(rows).iter().flat_map(|r| list(r).iter()).flat_map(|x| x.as_i64().map_or(f32::NAN, |x| (x as f64 / 1024.0) as f32).to_le_bytes()).collect()
}
fn primitive(m: &Value) -> Primitive {
    let (v, nv) = (pack(&m["v"]), list(&m["v"]).len());
    let nf = list(&m["f"]).len();
    let wide = nv > 65535;
    let f: Vec<u8> = list(&m["f"])
        .iter()
        .flat_map(|r| list(r).iter())
        .flat_map(|x| {
            let i = x.as_u64().unwrap() - 1;
            if wide { (i as u32).to_le_bytes().to_vec() } else { (i as u16).to_le_bytes().to_vec() }
        })
        .collect();
    let mut p = Primitive::default();
    p.name = s(&m["name"]);
    p.use_3d_mesh = true;
    p.num_vertices = Some(nv as u32);
    p.num_indices = Some(3 * nf as u32);
    let (cv, cf) = (z(&v), z(&f));
    p.compressed_vertices_len = Some(cv.len() as u32);
    p.compressed_vertices_data = Some(cv);
    p.compressed_indices_len = Some(cf.len() as u32);
    p.compressed_indices_data = Some(cf);
    if !list(&m["frames"]).is_empty() {
        let cz: Vec<_> = list(&m["frames"]).iter().map(|x| z(&pack(x))).collect();
        p.compressed_animation_vertices_len = Some(cz.iter().map(|x| x.len() as u32).collect());
        p.compressed_animation_vertices_data = Some(cz);
    }
    p
}
#[derive(Default)]
struct Mesh {
    name: String,
    v: Vec<Vec<f64>>,
    n: Vec<Vec<f64>>,
    t: Vec<Vec<f64>>,
    f: Vec<[usize; 3]>,
}
impl Mesh {
    fn json(&self, many: usize) -> Value {
        let (sv, sf) = (some(self.v.len(), many), some(self.f.len(), many));
        let c = |x: Option<&Vec<f64>>| x.map_or(vec![], |x| x.iter().map(|q| whole(q * 1024.0)).collect::<Vec<_>>());
        json!({"n": self.name, "nv": self.v.len(), "nf": self.f.len(), "nn": self.n.len(), "nt": self.t.len(),
            "iv": sv.iter().map(|i| i + 1).collect::<Vec<_>>(), "if": sf.iter().map(|i| i + 1).collect::<Vec<_>>(),
            "v": sv.iter().map(|&i| c(self.v.get(i))).collect::<Vec<_>>(), "m": sv.iter().map(|&i| c(self.n.get(i))).collect::<Vec<_>>(),
            "t": sv.iter().map(|&i| c(self.t.get(i))).collect::<Vec<_>>(),
            "f": sf.iter().map(|&i| self.f[i].to_vec()).collect::<Vec<_>>()})
    }
}
fn open_obj(b: Vec<u8>) -> Result<Mesh, String> {
    let text = String::from_utf8(b).map_err(|_| "not text")?;
    let mut m = Mesh::default();
    let mut objects = 0;
    for l in text.lines() {
        let w: Vec<&str> = l.split_ascii_whitespace().collect();
        let nums = |n: usize| -> Result<Vec<f64>, String> {
            if w.len() != n + 1 {
                return Err(format!("{} with {} numbers", w[0], w.len() - 1));
            }
            w[1..].iter().map(|x| if x.chars().all(|c| c.is_ascii_digit() || "+-.eE".contains(c)) { x.parse().map_err(|_| "number".to_string()) } else { Err("number".into()) }).collect()
        };
        match w.first().copied().unwrap_or("#") {
            x if x.starts_with('#') => (),
            "o" => {
                objects += 1;
                m.name = l[1..].trim().to_string();
            }
            "v" => m.v.push(nums(3)?),
            "vt" => m.t.push(nums(2)?),
            "vn" => m.n.push(nums(3)?),
            "s" => (),
            "f" => {
                let mut q = [0; 3];
                if w.len() != 4 {
                    return Err("face".into());
                }
                for k in 0..3 {
                    let c: Vec<usize> = w[k + 1].split('/').map(|x| x.parse().unwrap_or(0)).collect();
                    // so far: a corner is named once it is there
                    if c.len() != 3 || c[0] != c[1] || c[1] != c[2] || c[0] < 1 || c[0] > m.v.len() || c[1] > m.t.len() || c[2] > m.n.len() {
                        return Err("corner of a face".into());
                    }
                    q[k] = c[0];
                }
                m.f.push(q);
            }
            x => return Err(format!("statement {x}")),
        }
    }
    if objects != 1 {
        return Err(format!("{objects} objects"));
    }
    Ok(m)
}
fn gltf(path: &Path, glb: bool, fs: &MemoryFileSystem) -> Result<(Mesh, Value), String> {
    let (j, bufs) = open_gltf(path, glb, fs)?;
    if j["asset"]["version"] != "2.0" {
        return Err("version".into());
    }
    let doc = facts(&j, &bufs, &HashMap::new())["doc"].clone();
    // only what is sound is read
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let q = &j["meshes"][0]["primitives"][0];
        let at = |k: &str, n: usize| floats(&j, &bufs, int(&q["attributes"][k]), n);
        let ix: Vec<usize> = floats(&j, &bufs, int(&q["indices"]), 1).iter().map(|x| x[0] as usize + 1).collect();
        Mesh {
            name: j["nodes"][0]["name"].as_str().unwrap_or("").to_string(),
            v: at("POSITION", 3),
            n: at("NORMAL", 3),
            t: at("TEXCOORD_0", 2),
            f: ix.chunks_exact(3).map(|c| [c[0], c[1], c[2]]).collect(),
        }
    }));
    let mode = j["meshes"][0]["primitives"][0]["mode"].as_i64().unwrap_or(4);
    if mode != 4 {
        return Err("mode".into());
    }
    match r {
        Ok(m) => Ok((m, doc)),
        Err(_) => Ok((Mesh::default(), doc)),
    }
}
fn case(c: &Value) -> Value {
    let mut t = VPX::default();
    for it in list(&c["items"]) {
        t.add_game_item(item(it));
    }
    for m in list(&c["meshes"]) {
        t.add_game_item(G::Primitive(primitive(m)));
    }
    let many = c["many"].as_u64().unwrap_or(40) as usize;
    let mut out = json!({"id": c["id"], "result": "ok"});
    for fmt in ["obj", "glb", "gltf"] {
        let fs = MemoryFileSystem::new();
        let o = crate::expand::opts(&json!({"fmt": fmt, "derived": c["derived"]}));
        let r = match guard(|| expanded::write_fs(&t, &Path::new("/x"), &o, &fs)) {
            Ok(Ok(())) => "ok".to_string(),
            Ok(Err(e)) => format!("err: {e}"),
            Err(e) => format!("panic: {e}"),
        };
        if r != "ok" {
            out["result"] = json!(r);
            return out;
        }
        let mut files = BTreeMap::new();
        let (mut bins, mut other) = (vec![], vec![]);
        for p in fs.list_files() {
            let p = std::path::PathBuf::from(p);
            let (Some(stem), Some(ext)) = (p.file_stem().map(|x| x.to_string_lossy().to_string()), p.extension().map(|x| x.to_string_lossy().to_string())) else { continue };
            if ext == "bin" {
                bins.push(stem);
            } else if ext == fmt {
                let e = match fmt {
                    "obj" => open_obj(fs.read_file(&p).unwrap()).map(|m| (m, json!({}))),
                    _ => gltf(&p, fmt == "glb", &fs),
                };
                files.insert(stem, match e {
                    Ok((m, d)) => json!({"error": "", "mesh": m.json(many), "doc": d}),
                    Err(e) => json!({"error": e, "mesh": Mesh::default().json(0), "doc": {}}),
                });
            } else if ["obj", "glb", "gltf"].contains(&&ext[..]) {
                other.push(stem);
            }
        }
        bins.sort();
        let index: Value = fs.read_file(Path::new("/x/gameitems.json")).ok().and_then(|b| serde_json::from_slice(&b).ok()).unwrap_or(json!([]));
        let names: Vec<String> = list(&index).iter().map(|x| s(&x["file_name"]).strip_suffix(".json").unwrap_or("").to_string()).collect();
        out[fmt] = json!({"files": files, "bins": bins, "other": other, "index": names});
    }
    out
}
pub fn run(i: &str, o: &str) {
    par_map(i, o, case)
}
