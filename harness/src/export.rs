//! Tables exported as glTF, GLB and OBJ: builds a table from a description, exports it, and reports the facts of what was written.
use crate::util::*;
use flate2::Compression;
use flate2::write::ZlibEncoder;
use serde_json::{Value, json};
use std::collections::{BTreeSet, HashMap};
use std::io::Write;
use std::path::{Path, PathBuf};
use vpin::filesystem::{FileSystem, MemoryFileSystem};
use vpin::vpx::VPX;
use vpin::vpx::export::gltf_export::{GltfExportOptions, GltfFormat, export_gltf};
use vpin::vpx::export::obj_export::{ExportUnits, ObjExportOptions, export_obj};
use vpin::vpx::color::Color;
use vpin::vpx::gameitem::GameItemEnum as G;
use vpin::vpx::gameitem::dragpoint::DragPoint;
use vpin::vpx::gameitem::gate::GateType;
use vpin::vpx::gameitem::hittarget::TargetType;
use vpin::vpx::gameitem::kicker::KickerType;
use vpin::vpx::gameitem::plunger::PlungerType;
use vpin::vpx::gameitem::ramp::RampType;
use vpin::vpx::gameitem::trigger::TriggerShape;
use vpin::vpx::gameitem::vertex2d::Vertex2D;
use vpin::vpx::gameitem::vertex3d::Vertex3D;
use vpin::vpx::gameitem::{
    ball, bumper, decal, flasher, flipper, gate, hittarget, kicker, light, lightsequencer, partgroup, plunger, primitive, ramp, reel, rubber, spinner,
    textbox, timer, trigger, wall,
};
use vpin::vpx::image::{ImageData, ImageDataBits, ImageDataJpeg};
use vpin::vpx::material::{Material, MaterialType};
use vpin::vpx::version::Version;

pub(crate) fn s(v: &Value) -> String {
    v.as_str().unwrap_or("").to_string()
}
pub(crate) fn f(v: &Value, d: f32) -> f32 {
    v.as_f64().map_or(d, |x| x as f32)
}
pub(crate) fn z(b: &[u8]) -> Vec<u8> {
    let mut e = ZlibEncoder::new(vec![], Compression::fast());
    e.write_all(b).unwrap();
    e.finish().unwrap()
}
fn rgb(v: &Value) -> Color {
    let c = |k: usize| v[k].as_u64().unwrap_or(0) as u8;
    Color::rgb(c(0), c(1), c(2))
}
/// a number of thousandths
fn mille(v: &Value, d: f32) -> f32 {
    v.as_f64().map_or(d, |x| (x / 1000.0) as f32)
}
fn hexrgb(v: &Value, d: Color) -> Color {
    v.as_str().map_or(d, |h| {
        let b = unhex(h);
        Color::rgb(b[0], b[1], b[2])
    })
}
fn points(v: &Value) -> Vec<DragPoint> {
    v.as_array().map_or(vec![], |a| {
        a.iter()
            .map(|p| DragPoint { x: f(&p[0], 0.0), y: f(&p[1], 0.0), z: f(&p[2], 0.0), smooth: p[3] == true, ..Default::default() })
            .collect()
    })
}
fn mesh_bytes(it: &Value) -> (usize, usize, Vec<u8>, Vec<u8>) {
    let nv = it["nv"].as_u64().unwrap_or(0) as usize;
    let nf = it["nf"].as_u64().unwrap_or(0) as usize;
    let k = it["k"].as_u64().unwrap_or(1) as usize;
    let mut v = Vec::with_capacity(nv * 32);
    for i in 0..nv {
        let x = [(i * 7 % 101) as f32, (i * k % 97) as f32 - 40.0, (i % 13) as f32 * 0.5, 0.0, 0.0, 1.0, (i % 5) as f32 / 4.0, (i % 3) as f32 / 2.0];
        for y in x {
            v.extend(y.to_le_bytes());
        }
    }
    let mut w = vec![];
    for i in 0..nf {
        for j in [nv - 1 - i % nv, (i * k + 1) % nv, (i + k) % nv] {
            if nv > 65535 {
                w.extend((j as u32).to_le_bytes());
            } else {
                w.extend((j as u16).to_le_bytes());
            }
        }
    }
    (nv, nf, v, w)
}

macro_rules! layered {
    ($x:expr, $it:expr) => {{
        let lay = s(&$it["lay"]);
        let mut x = $x;
        x.editor_layer = None;
        x.editor_layer_name = None;
        if let Ok(n) = lay.parse::<u32>() {
            x.editor_layer = Some(n - 1);
            if $it["k"].as_u64().unwrap_or(0) % 2 == 1 {
                x.editor_layer_name = Some(String::new());
            }
        } else if lay != "" {
            x.editor_layer_name = Some(lay);
        }
        x
    }};
}

pub(crate) fn item(it: &Value) -> G {
    let (name, vis, vis2) = (s(&it["name"]), it["vis"] == true, it["vis2"] == true);
    let on = |k: usize| it["on"][k] == true;
    let sub = s(&it["sub"]);
    let (img, img2, mat, mat2) = (s(&it["img"]), s(&it["img2"]), s(&it["mat"]), s(&it["mat2"]));
    let at = Vertex2D { x: f(&it["at"][0], 100.0), y: f(&it["at"][1], 200.0) };
    let at3 = Vertex3D { x: at.x, y: at.y, z: f(&it["at"][2], 0.0) };
    let pts = points(&it["pts"]);
    let surface = s(&it["surface"]);
    let below = it["below"].as_f64().map(|x| x as f32);
    match it["kind"].as_str().unwrap() {
        "primitive" => {
            let mut p = primitive::Primitive { name, is_visible: vis, image: img, material: mat, position: at3, disable_lighting_below: below, ..Default::default() };
            if let Some(a) = it["size"].as_array() {
                p.size = Vertex3D { x: f(&a[0], 1.0), y: f(&a[1], 1.0), z: f(&a[2], 1.0) };
            }
            if let Some(a) = it["rot"].as_array() {
                for k in 0..9 {
                    p.rot_and_tra[k] = f(&a[k], 0.0);
                }
            }
            p.use_3d_mesh = matches!(sub.as_str(), "mesh" | "nomesh" | "empty");
            p.sides = it["sides"].as_u64().unwrap_or(4) as u32;
            p.draw_textures_inside = it["inside"] == true;
            if sub == "mesh" || sub == "empty" {
                let (nv, nf, v, w) = mesh_bytes(it);
                let (v, w) = (z(&v), z(&w));
                p.num_vertices = Some(nv as u32);
                p.num_indices = Some(nf as u32 * 3);
                p.compressed_vertices_len = Some(v.len() as u32);
                p.compressed_vertices_data = Some(v);
                p.compressed_indices_len = Some(w.len() as u32);
                p.compressed_indices_data = Some(w);
            }
            G::Primitive(layered!(p, it))
        }
        "wall" => G::Wall(layered!(
            wall::Wall {
                name,
                is_top_bottom_visible: vis,
                is_side_visible: vis2,
                image: img,
                side_image: img2,
                top_material: mat,
                side_material: mat2,
                drag_points: pts,
                disable_lighting_below: below,
                ..Default::default()
            },
            it
        )),
        "ramp" => {
            let t = match sub.as_str() {
                "OneWire" => RampType::OneWire,
                "TwoWire" => RampType::TwoWire,
                "ThreeWireLeft" => RampType::ThreeWireLeft,
                "ThreeWireRight" => RampType::ThreeWireRight,
                "FourWire" => RampType::FourWire,
                _ => RampType::Flat,
            };
            let mut r = ramp::Ramp { name, is_visible: vis, image: img, material: mat, ramp_type: t, drag_points: pts, ..Default::default() };
            if it["flat"] == true {
                r.width_bottom = 0.0;
                r.width_top = 0.0;
            }
            G::Ramp(layered!(r, it))
        }
        "rubber" => {
            let mut r = rubber::Rubber { name, is_visible: vis, image: img, material: mat, drag_points: pts, ..Default::default() };
            if it["flat"] == true {
                r.thickness = 0;
            }
            G::Rubber(layered!(r, it))
        }
        "flasher" => {
            let mut x = flasher::Flasher { name, is_visible: vis, image_a: img, drag_points: pts, ..Default::default() };
            x.color = hexrgb(&it["rgb"], x.color);
            x.alpha = it["a"].as_i64().map_or(x.alpha, |a| a as _);
            G::Flasher(layered!(x, it))
        }
        "flipper" => {
            let mut x = flipper::Flipper { name, is_visible: vis, center: at, image: Some(img), material: mat, rubber_material: mat2, surface, ..Default::default() };
            if it["k"].as_u64().unwrap_or(0) % 5 == 4 && x.image.as_deref() == Some("") {
                x.image = None;
            }
            if !vis2 {
                x.rubber_thickness = Some(0.0);
                x.rubber_thickness_int = 0;
            } else if x.rubber_thickness.is_none_or(|t| t <= 0.0) {
                x.rubber_thickness = Some(7.0);
                x.rubber_thickness_int = 7;
            }
            G::Flipper(layered!(x, it))
        }
        "bumper" => {
            let opt = it["k"].as_u64().unwrap_or(0) % 3 == 0;
            G::Bumper(layered!(
                bumper::Bumper {
                    name,
                    center: at,
                    is_base_visible: on(0),
                    is_socket_visible: if on(1) && opt { None } else { Some(on(1)) },
                    is_ring_visible: if on(2) && opt { None } else { Some(on(2)) },
                    is_cap_visible: on(3),
                    base_material: mat.clone(),
                    socket_material: mat,
                    cap_material: mat2,
                    surface,
                    ..Default::default()
                },
                it
            ))
        }
        "hittarget" => {
            let t = match sub.as_str() {
                "DropTargetBeveled" => TargetType::DropTargetBeveled,
                "DropTargetSimple" => TargetType::DropTargetSimple,
                "HitTargetRound" => TargetType::HitTargetRound,
                "HitTargetRectangle" => TargetType::HitTargetRectangle,
                "HitFatTargetRectangle" => TargetType::HitFatTargetRectangle,
                "HitFatTargetSquare" => TargetType::HitFatTargetSquare,
                "DropTargetFlatSimple" => TargetType::DropTargetFlatSimple,
                "HitFatTargetSlim" => TargetType::HitFatTargetSlim,
                _ => TargetType::HitTargetSlim,
            };
            G::HitTarget(layered!(
                hittarget::HitTarget { name, position: at3, is_visible: vis, image: img, material: mat, target_type: t, disable_lighting_below: below, ..Default::default() },
                it
            ))
        }
        "spinner" => G::Spinner(layered!(
            spinner::Spinner { name, center: at, is_visible: vis, show_bracket: vis2, image: img, material: mat, surface, ..Default::default() },
            it
        )),
        "gate" => {
            let t = match sub.as_str() {
                "WireW" => Some(GateType::WireW),
                "WireRectangle" => Some(GateType::WireRectangle),
                "Plate" => Some(GateType::Plate),
                "LongPlate" => Some(GateType::LongPlate),
                _ => None,
            };
            G::Gate(layered!(
                gate::Gate { name, center: at, is_visible: vis, show_bracket: vis2, material: mat, gate_type: t, surface, ..Default::default() },
                it
            ))
        }
        "trigger" => {
            let t = match sub.as_str() {
                "None" => TriggerShape::None,
                "WireA" => TriggerShape::WireA,
                "WireB" => TriggerShape::WireB,
                "WireC" => TriggerShape::WireC,
                "WireD" => TriggerShape::WireD,
                "Star" => TriggerShape::Star,
                "Button" => TriggerShape::Button,
                _ => TriggerShape::Inder,
            };
            G::Trigger(layered!(
                trigger::Trigger { name, center: at, is_visible: vis, shape: t, material: mat, surface, drag_points: pts, ..Default::default() },
                it
            ))
        }
        "light" => {
            let mut x = light::Light {
                name,
                center: at,
                is_backglass: on(0),
                show_bulb_mesh: on(1),
                is_bulb_light: on(2),
                visible: if vis && it["k"].as_u64().unwrap_or(0) % 2 == 0 { None } else { Some(vis) },
                image: img,
                surface,
                drag_points: pts,
                ..Default::default()
            };
            x.color = hexrgb(&it["rgb"], x.color);
            if it["power"].is_number() {
                x.intensity = f(&it["power"], 0.0) / 10.0;
                x.falloff_radius = f(&it["falloff"], 0.0);
            }
            G::Light(layered!(x, it))
        }
        "plunger" => {
            let t = match sub.as_str() {
                "Modern" => PlungerType::Modern,
                "Flat" => PlungerType::Flat,
                "Custom" => PlungerType::Custom,
                _ => PlungerType::Unknown,
            };
            let mut x = plunger::Plunger { name, center: at, is_visible: vis, plunger_type: t, image: img, material: mat, surface, ..Default::default() };
            if it["loops"].is_array() {
                x.spring_loops = it["loops"][0].as_f64().unwrap() as f32;
                x.spring_end_loops = it["loops"][1].as_f64().unwrap() as f32;
            }
            if it["tip"].is_string() {
                x.tip_shape = s(&it["tip"]);
            }
            G::Plunger(layered!(x, it))
        }
        "kicker" => {
            let t = match sub.as_str() {
                "Invisible" => KickerType::Invisible,
                "Hole" => KickerType::Hole,
                "Cup" => KickerType::Cup,
                "HoleSimple" => KickerType::HoleSimple,
                "Williams" => KickerType::Williams,
                "Gottlieb" => KickerType::Gottlieb,
                _ => KickerType::Cup2,
            };
            G::Kicker(layered!(kicker::Kicker { name, center: at, kicker_type: t, material: mat, surface, ..Default::default() }, it))
        }
        "decal" => G::Decal(layered!(
            decal::Decal {
                name,
                center: at,
                decal_type: if sub == "Image" { decal::DecalType::Image } else { decal::DecalType::Text },
                backglass: on(0),
                image: img,
                material: mat,
                surface,
                ..Default::default()
            },
            it
        )),
        "ball" => {
            let mut x = ball::Ball { name, pos: at3, decal_mode: on(0), image_decal: img, image: img2, ..Default::default() };
            x.color = hexrgb(&it["rgb"], x.color);
            G::Ball(layered!(x, it))
        }
        "timer" => G::Timer(layered!(timer::Timer { name, ..Default::default() }, it)),
        "reel" => G::Reel(layered!(reel::Reel { name, ..Default::default() }, it)),
        "textbox" => G::TextBox(layered!(textbox::TextBox { name, ..Default::default() }, it)),
        "lightseq" => G::LightSequencer(layered!(lightsequencer::LightSequencer { name, ..Default::default() }, it)),
        "partgroup" => G::PartGroup(partgroup::PartGroup { name, ..Default::default() }),
        k => panic!("kind {k}"),
    }
}

/// a pixel of an image that shows what is behind it
fn cleared(mut px: Vec<u8>, v: &Value) -> Vec<u8> {
    if let Some(k) = v["clear"].as_u64() {
        let n = px.len() as u64 / 4;
        px[(k % n * 4 + 3) as usize] = 254;
    }
    px
}
fn bgra(w: u32, h: u32, k: u64) -> Vec<u8> {
    (0..w as u64 * h as u64).flat_map(|i| [(i * 31 + k) as u8, (i * k * 17 + 5) as u8, (i * i + k * 3) as u8, 255]).collect()
}
fn image(v: &Value) -> ImageData {
    let name = s(&v["name"]);
    let (w, h) = (v["w"].as_u64().unwrap_or(1) as u32, v["h"].as_u64().unwrap_or(1) as u32);
    let mut i = ImageData { name: name.clone(), path: s(&v["path"]), width: w, height: h, ..Default::default() };
    if v["opaque"].is_boolean() {
        i.is_opaque = v["opaque"].as_bool();
    }
    match v["kind"].as_str().unwrap() {
        "jpeg" => {
            i.jpeg = Some(ImageDataJpeg { path: s(&v["path"]), name, internal_name: None, data: unhex(v["data"].as_str().unwrap()) });
        }
        "bits" => {
            i.bits = Some(ImageDataBits { lzw_compressed_data: vpin::vpx::lzw::to_lzw_blocks(&cleared(bgra(w, h, v["k"].as_u64().unwrap_or(0)), v)) });
        }
        "png" => {
            let px = cleared(bgra(w, h, v["k"].as_u64().unwrap_or(0)), v);
            let mut data = std::io::Cursor::new(vec![]);
            image::RgbaImage::from_raw(w, h, px).unwrap().write_to(&mut data, image::ImageFormat::Png).unwrap();
            i.jpeg = Some(ImageDataJpeg { path: s(&v["path"]), name, internal_name: None, data: data.into_inner() });
        }
        _ => {
            i.jpeg = None;
            i.bits = None;
        }
    }
    i
}
/// whether bytes written for an image are that image
fn same_image(v: &Value, b: &[u8]) -> &'static str {
    match v["kind"].as_str().unwrap() {
        "jpeg" if b == &unhex(v["data"].as_str().unwrap())[..] => "same",
        "bits" => {
            let (w, h) = (v["w"].as_u64().unwrap_or(1) as u32, v["h"].as_u64().unwrap_or(1) as u32);
            let want = bgra(w, h, v["k"].as_u64().unwrap_or(0));
            match image::load_from_memory(b) {
                Ok(i) if i.width() == w && i.height() == h => {
                    let got = i.to_rgb8();
                    if got.pixels().zip(want.chunks(4)).all(|(g, q)| g.0 == [q[2], q[1], q[0]]) { "same" } else { "differs" }
                }
                _ => "unreadable",
            }
        }
        _ => "differs",
    }
}

pub(crate) fn table(c: &Value) -> VPX {
    let mut t = VPX::default();
    t.version = Version::new(c["version"].as_u64().unwrap() as u32);
    t.gamedata.name = s(&c["table"]);
    t.gamedata.image = s(&c["pfimg"]);
    t.gamedata.playfield_material = s(&c["pfmat"]);
    t.gamedata.playfield_reflection_strength = f(&c["reflect"], 0.2);
    if c["lamps"].is_object() {
        let l = &c["lamps"];
        t.gamedata.light0_emission = rgb(&l["lc"]);
        t.gamedata.light_emission_scale = f(&l["lscale"], 0.0) * 1000.0;
        t.gamedata.global_emission_scale = mille(&l["gscale"], 1.0);
        t.gamedata.light_range = f(&l["lrange"], 0.0);
    }
    let mats: Vec<Material> = c["mats"]
        .as_array()
        .unwrap()
        .iter()
        .map(|m| {
            let mut x = Material::default();
            x.name = s(&m["name"]);
            x.base_color = rgb(&m["rgb"]);
            x.type_ = if m["metal"] == true { MaterialType::Metal } else { MaterialType::Basic };
            x.opacity_active = m["opacity"].is_number();
            x.opacity = f(&m["opacity"], 1.0);
            if m["op"].is_number() {
                x.opacity_active = m["oa"] == true;
                x.opacity = mille(&m["op"], 1.0);
                x.roughness = mille(&m["shine"], 0.0);
                x.glossy_color = hexrgb(&m["gloss"], x.glossy_color);
            }
            x
        })
        .collect();
    if c["oldmats"] == true {
        t.gamedata.materials = None;
        t.gamedata.materials_old = mats.iter().map(|m| m.into()).collect();
        t.gamedata.materials_size = mats.len() as u32;
    } else {
        t.gamedata.materials = Some(mats);
    }
    t.images = c["images"].as_array().unwrap().iter().map(image).collect();
    for it in c["items"].as_array().unwrap() {
        t.add_game_item(item(it));
    }
    t
}
pub(crate) fn units(c: &Value) -> ExportUnits {
    match c["units"].as_str().unwrap_or("m") {
        "vpu" => ExportUnits::Vpu,
        "mm" => ExportUnits::Mm,
        "cm" => ExportUnits::Cm,
        _ => ExportUnits::M,
    }
}

pub(crate) fn int(v: &Value) -> i64 {
    v.as_i64().unwrap_or(-1)
}
pub(crate) fn list(v: &Value) -> &[Value] {
    v.as_array().map_or(&[], |a| &a[..])
}
fn percent(u: &str) -> Option<String> {
    let b = u.as_bytes();
    if b.iter().any(|c| *c <= b' ' || *c == b'#' || *c == b'?') {
        return None; // not a URI
    }
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' {
            let h = u.get(i + 1..i + 3)?;
            o.push(u8::from_str_radix(h, 16).ok()?);
            i += 3;
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    String::from_utf8(o).ok()
}
fn le(b: &[u8], at: usize) -> usize {
    u32::from_le_bytes(b[at..at + 4].try_into().unwrap()) as usize
}
fn extensions(v: &Value, out: &mut BTreeSet<String>) {
    match v {
        Value::Object(m) => {
            for (k, x) in m {
                if k == "extras" {
                    continue;
                }
                if k == "extensions" {
                    if let Some(e) = x.as_object() {
                        out.extend(e.keys().cloned());
                    }
                }
                extensions(x, out);
            }
        }
        Value::Array(a) => a.iter().for_each(|x| extensions(x, out)),
        _ => (),
    }
}
fn textures(v: &Value, out: &mut Vec<i64>) {
    if let Value::Object(m) = v {
        // what it shows first
        if let Some(x) = v.pointer("/pbrMetallicRoughness/baseColorTexture/index") {
            out.push(int(x));
        }
        for (k, x) in m {
            if k == "extras" {
                continue;
            }
            if k.ends_with("Texture") && k != "baseColorTexture" {
                out.push(int(&x["index"]));
            } else {
                textures(x, out);
            }
        }
    }
}
fn hexcolor(v: &Value) -> String {
    let c = |k: usize| (v[k].as_f64().unwrap_or(1.0) * 255.0).round().clamp(0.0, 255.0) as u8;
    format!("{:02x}{:02x}{:02x}", c(0), c(1), c(2))
}

/// the document and its buffer, or what is wrong with the file
pub(crate) fn open_gltf(path: &Path, glb: bool, fs: &MemoryFileSystem) -> Result<(Value, Vec<(Vec<u8>, i64)>), String> {
    let b = fs.read_file(path).map_err(|_| "no file".to_string())?;
    if !glb {
        let j: Value = serde_json::from_slice(&b).map_err(|_| "not JSON".to_string())?;
        let mut bufs = vec![];
        for x in list(&j["buffers"]) {
            let u = x["uri"].as_str().ok_or("buffer without file")?;
            let n = percent(u).ok_or("buffer name is no URI")?;
            let d = fs.read_file(&path.parent().unwrap().join(n)).map_err(|_| "buffer file not found")?;
            bufs.push((d, int(&x["byteLength"])));
        }
        return Ok((j, bufs));
    }
    if b.len() < 20 || &b[..4] != b"glTF" || le(&b, 4) != 2 {
        return Err("header".into());
    }
    if le(&b, 8) != b.len() {
        return Err("declared file size".into());
    }
    let mut at = 12;
    let mut chunks = vec![];
    while at < b.len() {
        if at + 8 > b.len() || at + 8 + le(&b, at) > b.len() || le(&b, at) % 4 != 0 {
            return Err("chunks".into());
        }
        let n = le(&b, at);
        chunks.push((b[at + 4..at + 8].to_vec(), b[at + 8..at + 8 + n].to_vec()));
        at += 8 + n;
    }
    if chunks.is_empty() || chunks[0].0 != b"JSON" || chunks.len() > 2 || (chunks.len() == 2 && chunks[1].0 != b"BIN\0") {
        return Err("chunks".into());
    }
    let j: Value = serde_json::from_slice(&chunks[0].1).map_err(|_| "not JSON".to_string())?;
    let mut bufs = vec![];
    for x in list(&j["buffers"]) {
        if !x["uri"].is_null() || bufs.len() > 0 || chunks.len() < 2 {
            return Err("buffer without data".into());
        }
        let d = chunks[1].1.clone();
        let want = int(&x["byteLength"]);
        // the chunk may be padded
        let have = d.len() as i64;
        let keep = if have >= want && have - want < 4 && want >= 0 { want } else { have };
        bufs.push((d[..keep as usize].to_vec(), want));
    }
    Ok((j, bufs))
}

pub(crate) fn facts(j: &Value, bufs: &[(Vec<u8>, i64)], images: &HashMap<String, Value>) -> Value {
    let views: Vec<(i64, i64, i64)> = list(&j["bufferViews"])
        .iter()
        .map(|v| (int(&v["buffer"]), v["byteOffset"].as_i64().unwrap_or(0), int(&v["byteLength"])))
        .collect();
    let bytes = |view: i64, off: i64, len: i64| -> Option<&[u8]> {
        let v = views.get(usize::try_from(view).ok()?)?;
        let b = &bufs.get(usize::try_from(v.0).ok()?)?.0;
        let (a, n) = (usize::try_from(v.1.checked_add(off)?).ok()?, usize::try_from(len).ok()?);
        b.get(a..a.checked_add(n)?)
    };
    let mut order: Vec<usize> = (0..views.len()).collect();
    order.sort_by_key(|&i| (views[i].0, views[i].1, views[i].2, i));
    let acc: Vec<Value> = list(&j["accessors"])
        .iter()
        .map(|a| {
            let size = match int(&a["componentType"]) {
                5120 | 5121 => 1,
                5122 | 5123 => 2,
                5125 | 5126 => 4,
                _ => 0,
            };
            let comps = match a["type"].as_str().unwrap_or("") {
                "SCALAR" => 1,
                "VEC2" => 2,
                "VEC3" => 3,
                "VEC4" => 4,
                _ => 0,
            };
            let (view, off, count) = (int(&a["bufferView"]), a["byteOffset"].as_i64().unwrap_or(0), int(&a["count"]));
            let data = bytes(view, off, size * comps * count.max(0));
            let (mut hi, mut bounds) = (0i64, "none");
            if let Some(d) = data {
                if int(&a["componentType"]) == 5126 {
                    let x: Vec<f32> = d.chunks_exact(4).map(|c| f32::from_le_bytes(c.try_into().unwrap())).collect();
                    if a["min"].is_array() && a["max"].is_array() && comps > 0 {
                        let ok = (0..comps as usize).all(|k| {
                            let col = x.iter().skip(k).step_by(comps as usize);
                            let lo = col.clone().fold(f32::INFINITY, |p, q| p.min(*q));
                            let hi = col.fold(f32::NEG_INFINITY, |p, q| p.max(*q));
                            a["min"][k].as_f64().is_some_and(|m| m as f32 == lo) && a["max"][k].as_f64().is_some_and(|m| m as f32 == hi)
                        }) && list(&a["min"]).len() == comps as usize
                            && list(&a["max"]).len() == comps as usize;
                        bounds = if ok { "ok" } else { "bad" };
                    }
                    if x.iter().any(|q| !q.is_finite()) {
                        bounds = "bad";
                    }
                } else if size > 0 {
                    hi = d.chunks_exact(size as usize).map(|c| c.iter().rev().fold(0i64, |p, q| p << 8 | *q as i64)).max().unwrap_or(0);
                }
            }
            json!({"view": view, "off": off, "size": if size == 0 { 1 } else { size }, "comps": comps, "count": count, "hi": hi.min(i32::MAX as i64), "bounds": bounds})
        })
        .collect();
    let meshes: Vec<Value> = list(&j["meshes"])
        .iter()
        .map(|m| {
            list(&m["primitives"])
                .iter()
                .map(|p| {
                    json!({"pos": int(&p["attributes"]["POSITION"]), "nor": int(&p["attributes"]["NORMAL"]),
                           "tex": int(&p["attributes"]["TEXCOORD_0"]), "idx": int(&p["indices"]), "mat": int(&p["material"])})
                })
                .collect::<Vec<_>>()
                .into()
        })
        .collect();
    let nodes = list(&j["nodes"]);
    let roots: Vec<i64> = list(&j["scenes"]).iter().flat_map(|x| list(&x["nodes"]).iter().map(int)).collect();
    let mut depth = vec![-1i64; nodes.len()];
    let mut layer = vec![String::new(); nodes.len()];
    let mut todo: Vec<(i64, i64, String)> = roots.iter().map(|r| (*r, 0, String::new())).collect();
    while let Some((n, d, l)) = todo.pop() {
        let Some(k) = usize::try_from(n).ok().filter(|k| *k < nodes.len()) else { continue };
        if depth[k] >= 0 {
            continue;
        }
        depth[k] = d;
        layer[k] = l.clone();
        // a layer hangs below the table
        let name = nodes[k]["name"].as_str().unwrap_or("");
        let below = if d == 1 && name.starts_with("Layer_") && nodes[k]["mesh"].is_null() { name.to_string() } else { l };
        todo.extend(list(&nodes[k]["children"]).iter().map(|c| (int(c), d + 1, below.clone())));
    }
    let nv: Vec<Value> = nodes
        .iter()
        .enumerate()
        .map(|(k, n)| {
            json!({"mesh": int(&n["mesh"]), "light": int(&n["extensions"]["KHR_lights_punctual"]["light"]), "cam": int(&n["camera"]),
                   "ch": list(&n["children"]).iter().map(int).collect::<Vec<_>>(), "n": n["name"].as_str().unwrap_or(""),
                   "v": n["extensions"]["KHR_node_visibility"]["visible"] != json!(false), "l": layer[k]})
        })
        .collect();
    let mats: Vec<Vec<i64>> = list(&j["materials"])
        .iter()
        .map(|m| {
            let mut t = vec![];
            textures(m, &mut t);
            t
        })
        .collect();
    let colors: Vec<String> = list(&j["materials"]).iter().map(|m| hexcolor(&m["pbrMetallicRoughness"]["baseColorFactor"])).collect();
    let (mut used, mut pixels) = (BTreeSet::new(), vec![]);
    extensions(j, &mut used);
    for i in list(&j["images"]) {
        let name = i["name"].as_str().unwrap_or("");
        let v = int(&i["bufferView"]);
        let d = usize::try_from(v).ok().and_then(|k| views.get(k)).and_then(|x| bytes(v, 0, x.2));
        pixels.push(match (images.get(name), d) {
            (Some(x), Some(d)) => {
                let r = same_image(x, d);
                let mime = i["mimeType"].as_str().unwrap_or("");
                if r == "same" && d.starts_with(b"\x89PNG") && mime != "image/png" || r == "same" && d.starts_with(b"\xff\xd8\xff") && mime != "image/jpeg" {
                    "type"
                } else {
                    r
                }
            }
            _ => "missing",
        });
    }
    json!({
        "pixels": pixels, "used": used, "declared": j["extensionsUsed"],
        "doc": {
            "buf": bufs.iter().map(|b| b.0.len()).collect::<Vec<_>>(), "decl": bufs.iter().map(|b| b.1).collect::<Vec<_>>(),
            "views": views.iter().map(|v| json!({"b": v.0, "off": v.1, "len": v.2})).collect::<Vec<_>>(), "order": order, "acc": acc, "meshes": meshes,
            "nodes": nv, "depth": depth, "roots": roots, "scene": int(&j["scene"]), "nscenes": list(&j["scenes"]).len(), "narrow": 65535,
            "mats": mats, "colors": colors,
            "textures": list(&j["textures"]).iter().map(|t| json!({"samp": int(&t["sampler"]), "src": int(&t["source"])})).collect::<Vec<_>>(),
            "images": list(&j["images"]).iter().map(|t| json!({"view": int(&t["bufferView"]), "name": t["name"].as_str().unwrap_or("")})).collect::<Vec<_>>(),
            "nsamp": list(&j["samplers"]).len(), "nlights": list(&j["extensions"]["KHR_lights_punctual"]["lights"]).len(), "ncams": list(&j["cameras"]).len(),
        }
    })
}

fn gltf(c: &Value) -> Value {
    let t = table(c);
    let fs = MemoryFileSystem::new();
    let glb = c["format"] == "glb";
    let path = PathBuf::from("/out").join(format!("{}.{}", c["stem"].as_str().unwrap(), if glb { "glb" } else { "gltf" }));
    fs.create_dir_all(Path::new("/out")).unwrap();
    let o = GltfExportOptions {
        format: if glb { GltfFormat::Glb } else { GltfFormat::Gltf },
        export_invisible_items: c["inv"] == true,
        units: units(c),
    };
    let result = match guard(|| export_gltf(&t, &path, &fs, &o)) {
        Ok(Ok(())) => "ok".to_string(),
        Ok(Err(e)) => format!("err: {e}"),
        Err(e) => format!("panic: {e}"),
    };
    let images: HashMap<String, Value> = list(&c["images"]).iter().map(|i| (s(&i["name"]), i.clone())).collect();
    let mut out = json!({"id": c["id"], "result": result, "file": ""});
    if result == "ok" {
        match open_gltf(&path, glb, &fs) {
            Err(e) => out["file"] = json!(e),
            Ok((j, bufs)) => {
                if j["asset"]["version"] != "2.0" {
                    out["file"] = json!("version");
                }
                for (k, v) in facts(&j, &bufs, &images).as_object().unwrap() {
                    out[k] = v.clone();
                }
            }
        }
    }
    out
}

/// what the parts of an exported scene look like, and its lights
fn looks(c: &Value) -> Value {
    let t = table(c);
    let fs = MemoryFileSystem::new();
    let glb = c["format"] == "glb";
    let path = PathBuf::from("/out").join(if glb { "x.glb" } else { "x.gltf" });
    fs.create_dir_all(Path::new("/out")).unwrap();
    let o = GltfExportOptions { format: if glb { GltfFormat::Glb } else { GltfFormat::Gltf }, export_invisible_items: c["inv"] == true, units: units(c) };
    let result = match guard(|| export_gltf(&t, &path, &fs, &o)) {
        Ok(Ok(())) => "ok".to_string(),
        Ok(Err(e)) => format!("err: {e}"),
        Err(e) => format!("panic: {e}"),
    };
    let mut out = json!({"id": c["id"], "result": result, "looks": [], "lamps": []});
    if result != "ok" {
        return out;
    }
    let j = match open_gltf(&path, glb, &fs) {
        Ok((j, _)) => j,
        Err(e) => {
            out["result"] = json!(e);
            return out;
        }
    };
    let m1000 = |v: &Value, d: f64| (v.as_f64().unwrap_or(d) * 1000.0).round().clamp(-2e9, 2e9) as i64;
    let none = json!({"c": "none", "a": 0, "m": false, "r": -1, "b": false, "t": 0});
    let look = |k: i64| -> Value {
        let Some(m) = usize::try_from(k).ok().and_then(|k| list(&j["materials"]).get(k)) else { return none.clone() };
        let p = &m["pbrMetallicRoughness"];
        json!({"c": hexcolor(&p["baseColorFactor"]), "a": m1000(&p["baseColorFactor"][3], 1.0), "m": m1000(&p["metallicFactor"], 1.0) == 1000,
               "r": m1000(&p["roughnessFactor"], 1.0), "b": m["alphaMode"] == "BLEND", "t": m1000(&m["extensions"]["KHR_materials_transmission"]["transmissionFactor"], 0.0)})
    };
    let nodes: Vec<Value> = list(&j["nodes"])
        .iter()
        .filter_map(|n| {
            let mesh = usize::try_from(int(&n["mesh"])).ok()?;
            let p = &list(&j["meshes"]).get(mesh)?["primitives"][0];
            Some(json!({"n": n["name"].as_str().unwrap_or(""), "l": look(int(&p["material"]))}))
        })
        .collect();
    // a unit of length of the file, in vpu: 50 vpu are 1 1/16 inch
    let vpu = match c["units"].as_str() {
        Some("mm") => 50.0 / 26.9875,
        Some("cm") => 50.0 / 2.69875,
        Some("m") => 50.0 / 0.0269875,
        _ => 1.0,
    };
    let lamps: Vec<Value> = list(&j["extensions"]["KHR_lights_punctual"]["lights"])
        .iter()
        .map(|l| {
            json!({"n": l["name"].as_str().unwrap_or(""), "c": hexcolor(&l["color"]), "i": m1000(&l["intensity"], 1.0),
                   "d": (l["range"].as_f64().unwrap_or(0.0) * vpu).round().clamp(-2e9, 2e9) as i64})
        })
        .collect();
    out["looks"] = json!(nodes);
    out["lamps"] = json!(lamps);
    out
}

/// what an OBJ and its material library say
fn obj(c: &Value) -> Value {
    let t = table(c);
    let fs = MemoryFileSystem::new();
    let path = PathBuf::from("/out").join(format!("{}.obj", c["stem"].as_str().unwrap()));
    let o = ObjExportOptions { dedup_mtl_blocks: c["dedup"] == true, extract_textures: c["tex"] == true, units: units(c), include_plunger: c["plunger"] == true };
    let result = match guard(|| export_obj(&t, &path, &fs, &o)) {
        Ok(Ok(())) => "ok".to_string(),
        Ok(Err(e)) => format!("err: {e}"),
        Err(e) => format!("panic: {e}"),
    };
    let images: Vec<Value> = list(&c["images"]).to_vec();
    let mut out = json!({"id": c["id"], "result": result, "file": ""});
    if result != "ok" {
        return out;
    }
    let read = |p: &Path| fs.read_file(p).ok().and_then(|b| String::from_utf8(b).ok());
    let Some(text) = read(&path) else {
        out["file"] = json!("no file");
        return out;
    };
    let (mut v, mut vt, mut vn) = (0i64, 0i64, 0i64);
    let mut lib = String::new();
    let mut mat = "-".to_string(); // none used yet
    let mut objects: Vec<Value> = vec![];
    let fresh = |n: &str, v: i64, vt: i64, vn: i64| json!({"n": n, "v": [v, 0], "vt": [vt, 0], "vn": [vn, 0], "fv": [i32::MAX, 0], "ft": [i32::MAX, 0], "fn": [i32::MAX, 0], "faces": 0, "m": []});
    for line in text.lines() {
        let (k, rest) = line.split_once(' ').unwrap_or((line, ""));
        let nums = || rest.split_whitespace().map(|x| x.parse::<f32>().ok()).collect::<Option<Vec<_>>>();
        match k {
            "o" => objects.push(fresh(rest, v + 1, vt + 1, vn + 1)),
            "v" | "vt" | "vn" => {
                if nums().is_none_or(|x| x.len() < 2 || x.iter().any(|y| !y.is_finite())) {
                    out["file"] = json!("numbers");
                }
                let Some(o) = objects.last_mut() else {
                    out["file"] = json!("vertex outside an object");
                    continue;
                };
                let n = match k {
                    "v" => &mut v,
                    "vt" => &mut vt,
                    _ => &mut vn,
                };
                *n += 1;
                o[k][1] = json!(*n);
            }
            "usemtl" => mat = rest.to_string(),
            "mtllib" => lib = rest.to_string(),
            "f" => {
                let Some(o) = objects.last_mut() else {
                    out["file"] = json!("face outside an object");
                    continue;
                };
                let corners: Vec<Vec<Option<i64>>> = rest.split_whitespace().map(|x| x.split('/').map(|y| y.parse().ok()).collect()).collect();
                if corners.len() != 3 || corners.iter().any(|x| x.len() != 3 || x.iter().any(|y| y.is_none())) {
                    out["file"] = json!("face");
                    continue;
                }
                for x in &corners {
                    for (key, y) in ["fv", "ft", "fn"].iter().zip(x) {
                        let y = y.unwrap().clamp(-1, i32::MAX as i64);
                        let (lo, hi) = (o[*key][0].as_i64().unwrap(), o[*key][1].as_i64().unwrap());
                        o[*key] = json!([lo.min(y), hi.max(y)]);
                    }
                }
                o["faces"] = json!(o["faces"].as_i64().unwrap() + 1);
                let m = o["m"].as_array_mut().unwrap();
                if m.last() != Some(&json!(mat)) {
                    m.push(json!(mat));
                }
            }
            _ => (),
        }
    }
    let Some(mtl) = read(&Path::new("/out").join(&lib)) else {
        out["file"] = json!("no material library");
        return out;
    };
    let mut defs: Vec<Value> = vec![];
    for line in mtl.lines() {
        let (k, rest) = line.split_once(' ').unwrap_or((line, ""));
        if k == "newmtl" {
            defs.push(json!({"n": rest, "kd": "", "ks": "", "d": 1000, "maps": []}));
            continue;
        }
        let Some(d) = defs.last_mut() else { continue };
        match k {
            "Kd" => {
                let n: Vec<Value> = rest.split_whitespace().map(|x| json!(x.parse::<f64>().unwrap_or(9.0))).collect();
                d["kd"] = json!(hexcolor(&json!(n)));
            }
            "Ks" => {
                let n: Vec<Value> = rest.split_whitespace().map(|x| json!(x.parse::<f64>().unwrap_or(9.0))).collect();
                d["ks"] = json!(hexcolor(&json!(n)));
            }
            "d" => d["d"] = json!((rest.parse::<f64>().unwrap_or(9.0) * 1000.0).round().clamp(-2e9, 2e9) as i64),
            "map_Kd" | "map_Ka" => {
                // the image a file holds
                let shows = match fs.read_file(&Path::new("/out").join(rest)) {
                    Err(_) => "no file".to_string(),
                    Ok(b) => images.iter().find(|i| same_image(i, &b) == "same").map_or("not an image of the table".to_string(), |i| format!("={}", s(&i["name"]))),
                };
                d["maps"].as_array_mut().unwrap().push(json!(shows));
            }
            _ => (),
        }
    }
    out["objects"] = json!(objects);
    out["defs"] = json!(defs);
    out
}

pub fn run(i: &str, o: &str, what: &str) {
    match what {
        "gltf" => par_map(i, o, gltf),
        "obj" => par_map(i, o, obj),
        "looks" => par_map(i, o, looks),
        _ => panic!("{what}"),
    }
}
