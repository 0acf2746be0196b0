//! Meshes of primitives through the files of an extracted table.
use crate::table::*;
use crate::util::*;
use flate2::Compression;
use flate2::read::ZlibDecoder;
use flate2::write::ZlibEncoder;
use serde_json::{Value, json};
use std::io::{Read, Write};
use std::path::Path;
use vpin::filesystem::{FileSystem, MemoryFileSystem};
use vpin::vpx::gameitem::GameItemEnum;
use vpin::vpx::gameitem::primitive::Primitive;
use vpin::vpx::{VPX, expanded};

fn z(b: &[u8]) -> Vec<u8> {
    let mut e = ZlibEncoder::new(vec![], Compression::fast());
    e.write_all(b).unwrap();
    e.finish().unwrap()
}
fn un(b: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    match ZlibDecoder::new(b).read_to_end(&mut o) {
        Ok(_) => o,
        Err(_) => b"unreadable".to_vec(),
    }
}
fn case(c: &Value) -> Value {
    let id = &c["id"];
    let h = |x: &Value| unhex(x.as_str().unwrap());
    let (v, f) = (h(&c["v"]), h(&c["f"]));
    let frames: Vec<Vec<u8>> = c["frames"].as_array().unwrap().iter().map(h).collect();
    let nv = v.len() / 32;
    let nf = f.len() / if nv > 65535 { 4 } else { 2 };
    let mut p = Primitive::default();
    p.name = c["name"].as_str().unwrap_or("m").to_string();
    p.use_3d_mesh = true;
    p.num_vertices = Some(nv as u32);
    p.num_indices = Some(nf as u32);
    let (cv, cf) = (z(&v), z(&f));
    p.compressed_vertices_len = Some(cv.len() as u32);
    p.compressed_vertices_data = Some(cv);
    p.compressed_indices_len = Some(cf.len() as u32);
    p.compressed_indices_data = Some(cf);
    if !frames.is_empty() {
        let cz: Vec<_> = frames.iter().map(|x| z(x)).collect();
        p.compressed_animation_vertices_len = Some(cz.iter().map(|x| x.len() as u32).collect());
        p.compressed_animation_vertices_data = Some(cz);
    }
    let mut t = VPX::default();
    t.add_game_item(GameItemEnum::Primitive(p));
    let fs = MemoryFileSystem::new();
    let dir = Path::new("/x");
    let o = crate::expand::opts(c);
    let w = match guard(|| expanded::write_fs(&t, &dir, &o, &fs)) {
        Ok(Ok(())) => "ok".to_string(),
        Ok(Err(e)) => format!("err: {e}"),
        Err(e) => format!("panic: {e}"),
    };
    let mut out = json!({"id": id, "write": w});
    if w != "ok" {
        return out;
    }
    if let Some(put) = c["put"].as_object() {
        for (name, text) in put {
            let path = dir.join("gameitems").join(name);
            if !fs.exists(&path) && !name.ends_with(".bin") {
                return json!({"id": id, "harness": format!("{name} is not a file of the extracted table")});
            }
            let text = text.as_str().unwrap();
            let data = if c["puthex"] == true { unhex(text) } else { text.as_bytes().to_vec() };
            fs.write_file(&path, &data).unwrap();
        }
    }
    if c["strip"] == true {
        // what another tool keeps of the file
        for name in (0..=frames.len()).map(|k| if k == 0 { "Primitive.m".to_string() } else { format!("Primitive.m_anim_{}", k - 1) }) {
            let path = dir.join("gameitems").join(format!("{name}.{}", c["fmt"].as_str().unwrap()));
            let b = fs.read_file(&path).unwrap();
            let glb = c["fmt"] == "glb";
            let n = if glb { u32::from_le_bytes(b[12..16].try_into().unwrap()) as usize } else { 0 };
            let mut j: Value = serde_json::from_slice(if glb { &b[20..20 + n] } else { &b[..] }).unwrap();
            j["meshes"][0]["primitives"][0].as_object_mut().unwrap().remove("extras");
            let mut t = j.to_string().into_bytes();
            if glb {
                while t.len() % 4 != 0 {
                    t.push(b' ');
                }
                let mut o = b[..8].to_vec();
                o.extend(((12 + 8 + t.len() + b.len() - 20 - n) as u32).to_le_bytes());
                o.extend((t.len() as u32).to_le_bytes());
                o.extend(b"JSON");
                o.extend(&t);
                o.extend(&b[20 + n..]);
                t = o;
            }
            fs.write_file(&path, &t).unwrap();
        }
    }
    let r = match guard(|| expanded::read_fs(&dir, &fs)) {
        Ok(Ok(v)) => v,
        Ok(Err(e)) => {
            out["read"] = json!(format!("err: {e}"));
            return out;
        }
        Err(e) => {
            out["read"] = json!(format!("panic: {e}"));
            return out;
        }
    };
    out["read"] = json!("ok");
    let [GameItemEnum::Primitive(q)] = &r.gameitems[..] else {
        out["read"] = json!("err: not the primitive");
        return out;
    };
    let nothing = vec![];
    let rv = un(q.compressed_vertices_data.as_ref().unwrap_or(&nothing));
    let rf = un(q.compressed_indices_data.as_ref().unwrap_or(&nothing));
    out["nv"] = json!(q.num_vertices.unwrap_or(0));
    out["nf"] = json!(q.num_indices.unwrap_or(0));
    out["lens"] = json!([q.compressed_vertices_len.map(|x| x as usize) == q.compressed_vertices_data.as_ref().map(|x| x.len()), q.compressed_indices_len.map(|x| x as usize) == q.compressed_indices_data.as_ref().map(|x| x.len())]);
    out["vlen"] = json!(rv.len());
    out["flen"] = json!(rf.len());
    let fr: Vec<Vec<u8>> = q.compressed_animation_vertices_data.as_ref().unwrap_or(&vec![]).iter().map(|x| un(x)).collect();
    let fl = q.compressed_animation_vertices_len.clone().unwrap_or_default();
    out["flens"] = json!(fl.len() == fr.len() && q.compressed_animation_vertices_data.as_ref().unwrap_or(&vec![]).iter().zip(&fl).all(|(a, b)| a.len() == *b as usize));
    // the library can use what it read
    out["usable"] = json!(match guard(|| q.read_mesh().map(|m| m.map(|m| (m.vertices.len(), m.indices.len())))) {
        Ok(Ok(Some((a, b)))) => format!("{a} {b}"),
        Ok(Ok(None)) => "none".into(),
        Ok(Err(e)) => format!("err: {e}"),
        Err(e) => format!("panic: {e}"),
    });
    if c["big"] == true {
        out["v_same"] = json!(rv == v);
        out["f_same"] = json!(rf == f);
        out["fr_same"] = json!(fr == frames);
    } else {
        out["v"] = json!(hex(&rv));
        out["f"] = json!(hex(&rf));
        out["frames"] = json!(fr.iter().map(|x| hex(x)).collect::<Vec<_>>());
    }
    // and once more through a table file
    let again = guard(|| vpin::vpx::to_bytes(&r).map_err(|e| e.to_string()).and_then(|b| parse(&b).map(|_| ())));
    out["stored"] = json!(match again {
        Ok(Ok(())) => "ok".to_string(),
        Ok(Err(e)) => format!("err: {e}"),
        Err(e) => format!("panic: {e}"),
    });
    out
}
pub fn run(inp: &str, out: &str) {
    par_map(inp, out, case)
}
