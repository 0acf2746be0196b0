//! Where exported models put things: builds tables from a description, exports them, and reports the places of vertices, lights and
//! the triangles between them, as integers.
use crate::export::*;
use crate::util::*;
use serde_json::{Value, json};
use std::path::Path;
use vpin::filesystem::{FileSystem, MemoryFileSystem};
use vpin::vpx::VPX;
use vpin::vpx::export::gltf_export::{GltfExportOptions, GltfFormat, export_gltf};
use vpin::vpx::export::obj_export::{ObjExportOptions, export_obj};
use vpin::vpx::gameitem::GameItemEnum as G;

fn v3(v: &Value, d: &mut vpin::vpx::gameitem::vertex3d::Vertex3D) {
    if v.is_array() {
        d.x = f(&v[0], d.x);
        d.y = f(&v[1], d.y);
        d.z = f(&v[2], d.z);
    }
}
/// sets the numbers a description names
fn tune(g: &mut G, it: &Value) {
    let q = &it["set"];
    match g {
        G::Primitive(x) => {
            if let Some(m) = it["mesh"].as_object() {
                let mut b = vec![];
                for v in list(&m["v"]) {
                    for k in list(v) {
                        b.extend((k.as_f64().unwrap() as f32).to_le_bytes());
                    }
                }
                let mut w = vec![];
                for t in list(&m["f"]) {
                    for k in list(t) {
                        w.extend((k.as_u64().unwrap() as u16).to_le_bytes());
                    }
                }
                x.use_3d_mesh = true;
                x.num_vertices = Some(list(&m["v"]).len() as u32);
                x.num_indices = Some(list(&m["f"]).len() as u32 * 3);
                let (b, w) = (z(&b), z(&w));
                x.compressed_vertices_len = Some(b.len() as u32);
                x.compressed_vertices_data = Some(b);
                x.compressed_indices_len = Some(w.len() as u32);
                x.compressed_indices_data = Some(w);
            }
        }
        G::Bumper(x) => { x.radius = f(&q["radius"], x.radius); x.height_scale = f(&q["height_scale"], x.height_scale); x.orientation = f(&q["orientation"], x.orientation); },
        G::Flipper(x) => {
            { x.base_radius = f(&q["base_radius"], x.base_radius); x.end_radius = f(&q["end_radius"], x.end_radius); x.flipper_radius_max = f(&q["flipper_radius_max"], x.flipper_radius_max); x.start_angle = f(&q["start_angle"], x.start_angle); x.end_angle = f(&q["end_angle"], x.end_angle); x.height = f(&q["height"], x.height); };
            if q["rubber_height"].is_number() {
                x.rubber_height = Some(f(&q["rubber_height"], 0.0));
                x.rubber_width = Some(f(&q["rubber_width"], 0.0));
                x.rubber_thickness = Some(f(&q["rubber_thickness"], 0.0));
            }
        }
        G::Gate(x) => { x.length = f(&q["length"], x.length); x.height = f(&q["height"], x.height); x.rotation = f(&q["rotation"], x.rotation); },
        G::Spinner(x) => { x.rotation = f(&q["rotation"], x.rotation); x.height = f(&q["height"], x.height); x.length = f(&q["length"], x.length); },
        G::Trigger(x) => {
            { x.radius = f(&q["radius"], x.radius); x.rotation = f(&q["rotation"], x.rotation); x.scale_x = f(&q["scale_x"], x.scale_x); x.scale_y = f(&q["scale_y"], x.scale_y); };
            if q["wire_thickness"].is_number() {
                x.wire_thickness = Some(f(&q["wire_thickness"], 0.0));
            }
        }
        G::HitTarget(x) => {
            { x.rot_z = f(&q["rot_z"], x.rot_z); };
            v3(&q["size"], &mut x.size);
        }
        G::Kicker(x) => { x.radius = f(&q["radius"], x.radius); x.orientation = f(&q["orientation"], x.orientation); },
        G::Light(x) => {
            { x.falloff_radius = f(&q["falloff_radius"], x.falloff_radius); x.mesh_radius = f(&q["mesh_radius"], x.mesh_radius); x.bulb_halo_height = f(&q["bulb_halo_height"], x.bulb_halo_height); };
            if q["height"].is_number() {
                x.height = Some(f(&q["height"], 0.0));
            }
        }
        G::Plunger(x) => { x.width = f(&q["width"], x.width); x.height = f(&q["height"], x.height); x.z_adjust = f(&q["z_adjust"], x.z_adjust); x.stroke = f(&q["stroke"], x.stroke); x.park_position = f(&q["park_position"], x.park_position); x.rod_diam = f(&q["rod_diam"], x.rod_diam); x.ring_gap = f(&q["ring_gap"], x.ring_gap); x.ring_diam = f(&q["ring_diam"], x.ring_diam); x.ring_width = f(&q["ring_width"], x.ring_width); x.spring_diam = f(&q["spring_diam"], x.spring_diam); x.spring_gauge = f(&q["spring_gauge"], x.spring_gauge); },
        G::Decal(x) => { x.width = f(&q["width"], x.width); x.height = f(&q["height"], x.height); x.rotation = f(&q["rotation"], x.rotation); },
        G::Flasher(x) => { x.height = f(&q["height"], x.height); x.pos_x = f(&q["pos_x"], x.pos_x); x.pos_y = f(&q["pos_y"], x.pos_y); x.rot_x = f(&q["rot_x"], x.rot_x); x.rot_y = f(&q["rot_y"], x.rot_y); x.rot_z = f(&q["rot_z"], x.rot_z); },
        G::Ball(x) => { x.radius = f(&q["radius"], x.radius); },
        G::Ramp(x) => { x.height_bottom = f(&q["height_bottom"], x.height_bottom); x.height_top = f(&q["height_top"], x.height_top); x.width_bottom = f(&q["width_bottom"], x.width_bottom); x.width_top = f(&q["width_top"], x.width_top); x.left_wall_height_visible = f(&q["left_wall_height_visible"], x.left_wall_height_visible); x.right_wall_height_visible = f(&q["right_wall_height_visible"], x.right_wall_height_visible); x.wire_diameter = f(&q["wire_diameter"], x.wire_diameter); x.wire_distance_x = f(&q["wire_distance_x"], x.wire_distance_x); x.wire_distance_y = f(&q["wire_distance_y"], x.wire_distance_y); },
        G::Rubber(x) => {
            { x.height = f(&q["height"], x.height); x.rot_x = f(&q["rot_x"], x.rot_x); x.rot_y = f(&q["rot_y"], x.rot_y); x.rot_z = f(&q["rot_z"], x.rot_z); };
            if q["hit_height"].is_number() {
                x.hit_height = Some(f(&q["hit_height"], 0.0));
            }
            if q["thickness"].is_number() {
                x.thickness = q["thickness"].as_i64().unwrap() as i32;
            }
        }
        G::Wall(x) => { x.height_bottom = f(&q["height_bottom"], x.height_bottom); x.height_top = f(&q["height_top"], x.height_top); },
        _ => (),
    }
}
pub(crate) fn whole(x: f64) -> i64 {
    if x.is_finite() { x.round().clamp(-2e9, 2e9) as i64 } else { 2_000_000_001 }
}
/// at most n of them, evenly spread
pub(crate) fn some(count: usize, n: usize) -> Vec<usize> {
    if count <= n { (0..count).collect() } else { (0..n).map(|i| i * (count - 1) / (n - 1)).collect() }
}
struct Part {
    name: String,
    v: Vec<[f64; 3]>,
    n: Vec<[f64; 3]>,
    t: Vec<[f64; 2]>,
    f: Vec<[usize; 3]>,
}
impl Part {
    fn json(&self, k: f64, many: usize) -> Value {
        let sv = some(self.v.len(), many);
        let sf = some(self.f.len(), many);
        let c = |x: &[f64], k: f64| x.iter().map(|q| whole(q * k)).collect::<Vec<_>>();
        json!({"n": self.name, "nv": self.v.len(), "nf": self.f.len(),
            "v": sv.iter().map(|&i| c(&self.v[i], k)).collect::<Vec<_>>(),
            "m": sv.iter().map(|&i| self.n.get(i).map_or(vec![], |x| c(x, 1000.0))).collect::<Vec<_>>(),
            "t": sv.iter().map(|&i| self.t.get(i).map_or(vec![], |x| c(x, 1000.0))).collect::<Vec<_>>(),
            "f": sf.iter().map(|&i| self.f[i].iter().map(|j| j + 1).collect::<Vec<_>>()).collect::<Vec<_>>(),
            "at": sf.iter().map(|&i| self.f[i].iter().map(|&j| self.v.get(j).map_or(vec![], |x| c(x, k))).collect::<Vec<_>>()).collect::<Vec<_>>()})
    }
}
type M = [[f64; 4]; 4]; // column vectors
fn mul(a: &M, b: &M) -> M {
    std::array::from_fn(|i| std::array::from_fn(|j| (0..4).map(|k| a[i][k] * b[k][j]).sum()))
}
fn num(v: &Value, d: f64) -> f64 {
    v.as_f64().unwrap_or(d)
}
fn local(n: &Value) -> M {
    if n["matrix"].is_array() {
        return std::array::from_fn(|i| std::array::from_fn(|j| num(&n["matrix"][j * 4 + i], 0.0)));
    }
    let t: [f64; 3] = std::array::from_fn(|i| num(&n["translation"][i], 0.0));
    let s: [f64; 3] = std::array::from_fn(|i| num(&n["scale"][i], 1.0));
    let (x, y, z, w) = (num(&n["rotation"][0], 0.0), num(&n["rotation"][1], 0.0), num(&n["rotation"][2], 0.0), num(&n["rotation"][3], 1.0));
    let r = [
        [1.0 - 2.0 * (y * y + z * z), 2.0 * (x * y - z * w), 2.0 * (x * z + y * w)],
        [2.0 * (x * y + z * w), 1.0 - 2.0 * (x * x + z * z), 2.0 * (y * z - x * w)],
        [2.0 * (x * z - y * w), 2.0 * (y * z + x * w), 1.0 - 2.0 * (x * x + y * y)],
    ];
    std::array::from_fn(|i| {
        std::array::from_fn(|j| match (i, j) {
            (3, 3) => 1.0,
            (3, _) => 0.0,
            (_, 3) => t[i],
            _ => r[i][j] * s[j],
        })
    })
}
fn unit(v: [f64; 3]) -> [f64; 3] {
    let l = (v[0] * v[0] + v[1] * v[1] + v[2] * v[2]).sqrt();
    if l > 0.0 { v.map(|x| x / l) } else { v }
}
pub(crate) fn floats(j: &Value, bufs: &[(Vec<u8>, i64)], acc: i64, comps: usize) -> Vec<Vec<f64>> {
    let a = &j["accessors"][acc as usize];
    let v = &j["bufferViews"][int(&a["bufferView"]) as usize];
    let b = &bufs[int(&v["buffer"]) as usize].0;
    let at = (v["byteOffset"].as_i64().unwrap_or(0) + a["byteOffset"].as_i64().unwrap_or(0)) as usize;
    let n = int(&a["count"]) as usize;
    let (ty, stride) = (int(&a["componentType"]), v["byteStride"].as_i64());
    let size = match ty {
        5121 => 1,
        5123 => 2,
        _ => 4,
    };
    let stride = stride.map_or(size * comps, |x| x as usize);
    (0..n)
        .map(|i| {
            (0..comps)
                .map(|k| {
                    let q = &b[at + i * stride + k * size..][..size];
                    match ty {
                        5126 => f32::from_le_bytes(q.try_into().unwrap()) as f64,
                        _ => q.iter().rev().fold(0u64, |p, x| p << 8 | *x as u64) as f64,
                    }
                })
                .collect()
        })
        .collect()
}
fn gltf(t: &VPX, u: &Value, fs: &MemoryFileSystem) -> Result<(Vec<Part>, Vec<Part>), String> {
    let mut o = GltfExportOptions::glb();
    o.format = GltfFormat::Glb;
    o.units = units(u);
    let p = Path::new("/x/t.glb");
    export_gltf(t, p, fs, &o).map_err(|e| e.to_string())?;
    let (j, bufs) = open_gltf(p, true, fs)?;
    let (mut parts, mut lights) = (vec![], vec![]);
    let one: M = std::array::from_fn(|i| std::array::from_fn(|j| if i == j { 1.0 } else { 0.0 }));
    let mut todo: Vec<(i64, M)> = list(&j["scenes"][0]["nodes"]).iter().map(|n| (int(n), one)).collect();
    while let Some((n, m)) = todo.pop() {
        let node = &j["nodes"][n as usize];
        let w = mul(&m, &local(node));
        todo.extend(list(&node["children"]).iter().map(|c| (int(c), w)));
        let name = node["name"].as_str().unwrap_or("").to_string();
        let put = |v: &[f64], d: f64| -> [f64; 3] { std::array::from_fn(|i| w[i][0] * v[0] + w[i][1] * v[1] + w[i][2] * v[2] + w[i][3] * d) };
        if let Some(k) = node["mesh"].as_u64() {
            for q in list(&j["meshes"][k as usize]["primitives"]) {
                let v = floats(&j, &bufs, int(&q["attributes"]["POSITION"]), 3);
                let nn = if q["attributes"]["NORMAL"].is_number() { floats(&j, &bufs, int(&q["attributes"]["NORMAL"]), 3) } else { vec![] };
                let tt = if q["attributes"]["TEXCOORD_0"].is_number() { floats(&j, &bufs, int(&q["attributes"]["TEXCOORD_0"]), 2) } else { vec![] };
                let ix: Vec<usize> = floats(&j, &bufs, int(&q["indices"]), 1).iter().map(|x| x[0] as usize).collect();
                parts.push(Part {
                    name: name.clone(),
                    v: v.iter().map(|x| put(x, 1.0)).collect(),
                    n: nn.iter().map(|x| unit(put(x, 0.0))).collect(),
                    t: tt.iter().map(|x| [x[0], x[1]]).collect(),
                    f: ix.chunks_exact(3).map(|c| [c[0], c[1], c[2]]).collect(),
                });
            }
        }
        let l = int(&node["extensions"]["KHR_lights_punctual"]["light"]);
        if l >= 0 {
            let range = num(&j["extensions"]["KHR_lights_punctual"]["lights"][l as usize]["range"], -1.0);
            lights.push(Part { name, v: vec![put(&[0.0; 3], 1.0)], n: vec![], t: vec![[range, 0.0]], f: vec![] });
        }
    }
    parts.reverse();
    lights.reverse();
    Ok((parts, lights))
}
fn obj(t: &VPX, u: &Value, fs: &MemoryFileSystem) -> Result<Vec<Part>, String> {
    let o = ObjExportOptions { dedup_mtl_blocks: true, extract_textures: u["tex"] == true, units: units(u), include_plunger: true };
    export_obj(t, Path::new("/y/t.obj"), fs, &o).map_err(|e| e.to_string())?;
    let b = fs.read_file(Path::new("/y/t.obj")).map_err(|e| e.to_string())?;
    let text = String::from_utf8(b).map_err(|e| e.to_string())?;
    let (mut v, mut vt, mut vn): (Vec<[f64; 3]>, Vec<[f64; 2]>, Vec<[f64; 3]>) = (vec![], vec![], vec![]);
    let mut parts: Vec<Part> = vec![];
    let mut start: Vec<usize> = vec![];
    for l in text.lines() {
        let w: Vec<&str> = l.split_ascii_whitespace().collect();
        let g = |k: usize| w.get(k).and_then(|x| x.parse::<f64>().ok()).unwrap_or(f64::NAN);
        match w.first().copied().unwrap_or("") {
            "o" => {
                parts.push(Part { name: l[1..].trim().to_string(), v: vec![], n: vec![], t: vec![], f: vec![] });
                start.push(v.len());
            }
            "v" => v.push([g(1), g(2), g(3)]),
            "vt" => vt.push([g(1), g(2)]),
            "vn" => vn.push([g(1), g(2), g(3)]),
            "f" => {
                let Some(p) = parts.last_mut() else { return Err("face outside an object".into()) };
                let from = start[start.len() - 1];
                let mut q = [0; 3];
                for k in 0..3 {
                    let c: Vec<usize> = w.get(k + 1).ok_or("short face")?.split('/').map(|x| x.parse().unwrap_or(0)).collect();
                    if c.len() != 3 || c[0] != c[1] || c[1] != c[2] || c[0] <= from {
                        return Err("face names others' corners".into());
                    }
                    q[k] = c[0] - 1 - from;
                }
                p.f.push(q);
            }
            _ => (),
        }
    }
    if v.len() != vt.len() || v.len() != vn.len() {
        return Err("corners without all attributes".into());
    }
    start.push(v.len());
    for (k, p) in parts.iter_mut().enumerate() {
        let r = start[k]..start[k + 1];
        p.v = v[r.clone()].to_vec();
        p.t = vt[r.clone()].to_vec();
        p.n = vn[r].iter().map(|x| unit(*x)).collect();
    }
    Ok(parts)
}

pub fn run(i: &str, o: &str) {
    par_map(i, o, |c: &Value| {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let mut t = table(c);
            for (g, it) in t.gameitems.iter_mut().zip(list(&c["items"])) {
                tune(g, it);
            }
            if c["size"].is_array() {
                t.gamedata.left = f(&c["size"][0], 0.0);
                t.gamedata.top = f(&c["size"][1], 0.0);
                t.gamedata.right = f(&c["size"][2], 0.0);
                t.gamedata.bottom = f(&c["size"][3], 0.0);
            }
            t.gamedata.light_height = f(&c["lightheight"], t.gamedata.light_height);
            let fs = MemoryFileSystem::new();
            let many = c["many"].as_u64().unwrap_or(24) as usize;
            let k = 16.0 / match c["units"].as_str().unwrap_or("m") {
                "vpu" => 1.0,
                "mm" => 1.0,
                "cm" => 0.1,
                _ => 0.001,
            };
            let (a, l) = gltf(&t, c, &fs)?;
            let b = obj(&t, c, &fs)?;
            let js = |x: &[Part]| x.iter().map(|p| p.json(k, many)).collect::<Vec<_>>();
            Ok::<_, String>((js(&a), js(&l), js(&b)))
        }));
        match r {
            Ok(Ok((a, l, b))) => json!({"id": c["id"], "result": "ok", "gltf": a, "lights": l, "obj": b}),
            Ok(Err(e)) => json!({"id": c["id"], "result": format!("error: {e}"), "gltf": [], "lights": [], "obj": []}),
            Err(_) => json!({"id": c["id"], "result": "panic", "gltf": [], "lights": [], "obj": []}),
        }
    });
}
