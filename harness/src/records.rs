//! Items and settings: stored records -> library read -> library write -> stored records.
use crate::biffio::*;
use crate::util::*;
use rayon::prelude::*;
use serde_json::{Map, Value, json};
use std::io::{Cursor, Read};
use vpin::vpx::gameitem::GameItemEnum;
use vpin::vpx::{self, VPX, gameitem};

pub fn item_bytes(c: &Value) -> Vec<u8> {
    let mut b = (c["type"].as_u64().unwrap() as u32).to_le_bytes().to_vec();
    enc_recs(c["recs"].as_array().unwrap(), &mut b);
    endb(&mut b);
    b
}

fn special() -> Map<String, Value> {
    json!({"DPNT":"sub","FONT":"font"}).as_object().unwrap().clone()
}

fn empty_vpx() -> VPX {
    VPX::default()
}

pub fn decode_item(b: &[u8]) -> Result<(u64, Vec<Value>), String> {
    if b.len() < 4 {
        return Err("short item".into());
    }
    let ty = u32::from_le_bytes(b[..4].try_into().unwrap()) as u64;
    let mut pos = 4;
    let mut sp = special();
    if ty != 4 && ty != 9 {
        sp.remove("FONT");
    }
    let r = dec_recs(b, &mut pos, &sp)?;
    if pos != b.len() {
        return Err(format!("{} bytes after ENDB", b.len() - pos));
    }
    Ok((ty, r))
}

fn write_items(items: Vec<GameItemEnum>) -> Result<Vec<Vec<u8>>, String> {
    guard(move || {
        let mut v = empty_vpx();
        let n = items.len();
        v.gamedata.gameitems_size = n as u32;
        v.gameitems = items;
        let bytes = vpx::to_bytes(&v).map_err(|e| e.to_string())?;
        let mut c = cfb::CompoundFile::open(Cursor::new(bytes)).map_err(|e| e.to_string())?;
        let mut out = vec![];
        for i in 0..n {
            let mut d = vec![];
            c.open_stream(format!("/GameStg/GameItem{i}"))
                .map_err(|e| e.to_string())?
                .read_to_end(&mut d)
                .map_err(|e| e.to_string())?;
            out.push(d);
        }
        Ok(out)
    })
    .and_then(|x| x)
}

pub fn items(inp: &str, out: &str) {
    let cases = read_cases(inp);
    let res: Vec<Vec<Value>> = cases
        .par_chunks(64)
        .map(|ch| {
            let mut results: Vec<Value> = vec![Value::Null; ch.len()];
            let mut ok: Vec<(usize, GameItemEnum)> = vec![];
            for (i, c) in ch.iter().enumerate() {
                let b = item_bytes(c);
                match guard(|| gameitem::read(&b)) {
                    Ok(it) => ok.push((i, it)),
                    Err(m) => results[i] = json!({"id":c["id"],"err":format!("read: {m}")}),
                }
            }
            let idx: Vec<usize> = ok.iter().map(|x| x.0).collect();
            let all = write_items(ok.into_iter().map(|x| x.1).collect());
            let outs: Vec<Result<Vec<u8>, String>> = match all {
                Ok(v) => v.into_iter().map(Ok).collect(),
                Err(_) => idx
                    .iter()
                    .map(|i| {
                        let it = guard(|| gameitem::read(&item_bytes(&ch[*i])))?;
                        write_items(vec![it]).map(|mut v| v.remove(0))
                    })
                    .collect(),
            };
            for (i, o) in idx.into_iter().zip(outs) {
                let c = &ch[i];
                results[i] = match o.map_err(|m| format!("write: {m}")).and_then(|b| decode_item(&b).map_err(|m| format!("written item malformed: {m}"))) {
                    Ok((ty, r)) => json!({"id":c["id"],"type":ty,"out":r}),
                    Err(m) => json!({"id":c["id"],"err":m}),
                };
            }
            results
        })
        .collect();
    write_results(out, &res.concat());
}

/// Table settings: stored records + file version -> GameData -> stored records.
pub fn gamedata(inp: &str, out: &str) {
    par_map(inp, out, |c| {
        let mut b = vec![];
        enc_recs(c["recs"].as_array().unwrap(), &mut b);
        endb(&mut b);
        let v = vpx::version::Version::new(c["version"].as_u64().unwrap() as u32);
        let r = guard(|| {
            let gd = vpx::gamedata::read_all_gamedata_records(&b, &v);
            vpx::gamedata::write_all_gamedata_records(&gd, &v)
        });
        let sp = json!({"CODE":"code","MATR":"nest","RPRB":"nest"});
        finish(c, r, sp.as_object().unwrap())
    });
}

pub fn collection(inp: &str, out: &str) {
    par_map(inp, out, |c| {
        let mut b = vec![];
        enc_recs(c["recs"].as_array().unwrap(), &mut b);
        endb(&mut b);
        let r = guard(|| vpx::collection::write(&vpx::collection::read(&b)));
        finish(c, r, &Map::new())
    });
}

/// Images, fonts and custom info tags.
pub fn parts(inp: &str, out: &str) {
    use vpin::vpx::biff::{BiffRead, BiffReader, BiffWrite, BiffWriter};
    par_map(inp, out, |c| {
        let mut b = vec![];
        enc_recs(c["recs"].as_array().unwrap(), &mut b);
        endb(&mut b);
        let r = guard(|| match c["n"].as_str().unwrap() {
            "Image" => {
                let i = vpx::image::ImageData::biff_read(&mut BiffReader::new(&b));
                let mut w = BiffWriter::new();
                i.biff_write(&mut w);
                w.get_data().to_vec()
            }
            "Font" => vpx::font::write(&vpx::font::read(&b)),
            "Tags" => vpx::custominfotags::write_custominfotags(&vpx::custominfotags::read_custominfotags(&b)),
            x => panic!("kind {x}"),
        });
        let sp = json!({"JPEG":"sub","BITS":"bits"});
        finish(c, r, sp.as_object().unwrap())
    });
}

fn finish(c: &Value, r: Result<Vec<u8>, String>, sp: &Map<String, Value>) -> Value {
    match r.and_then(|o| {
        let mut pos = 0;
        let x = dec_recs(&o, &mut pos, sp).map_err(|m| format!("written data malformed: {m}"))?;
        if pos != o.len() {
            return Err("bytes after ENDB".into());
        }
        Ok(x)
    }) {
        Ok(x) => json!({"id":c["id"],"out":x}),
        Err(m) => json!({"id":c["id"],"err":m}),
    }
}
