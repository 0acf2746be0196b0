//! Table files built and taken apart without the library (compound-file streams + own MAC).
use crate::biffio::{dec_recs, enc_recs, endb};
use crate::util::{fp, unhex};
use md2::{Digest, Md2};
use serde_json::{Map, Value, json};
use std::collections::BTreeMap;
use std::io::{Cursor, Read, Write};

pub const SIGNED_INFO: [&str; 10] = [
    "TableName", "AuthorName", "TableVersion", "ReleaseDate", "AuthorEmail", "AuthorWebSite", "TableBlurb",
    "TableDescription", "TableRules", "Screenshot",
];

/// streams by path without leading slash, plus non-default storages
#[derive(Clone, Default, Debug, PartialEq)]
pub struct Streams {
    pub s: BTreeMap<String, Vec<u8>>,
    pub stg: BTreeMap<String, String>,
}

pub fn stream_bytes(x: &Value) -> Vec<u8> {
    if let Some(h) = x["hex"].as_str() {
        return unhex(h);
    }
    let mut b = vec![];
    if let Some(t) = x["type"].as_u64() {
        b.extend((t as u32).to_le_bytes());
    }
    enc_recs(x["recs"].as_array().unwrap(), &mut b);
    endb(&mut b);
    b
}

pub fn of_case(streams: &Value, clsid: bool) -> Streams {
    let mut r = Streams::default();
    for x in streams.as_array().unwrap() {
        r.s.insert(x["path"].as_str().unwrap().to_string(), stream_bytes(x));
    }
    r.stg.insert("GameStg".into(), String::new());
    r.stg.insert("TableInfo".into(), String::new());
    if clsid {
        r.stg.insert("".into(), "f29f85e0-4ff9-1068-ab91-08002b27b3d9".into());
        r.stg.insert("Other".into(), "00020906-0000-0000-c000-000000000046".into());
    }
    r
}

pub fn build(st: &Streams) -> Vec<u8> {
    let mut c = cfb::CompoundFile::create(Cursor::new(Vec::new())).unwrap();
    for (p, id) in &st.stg {
        if !p.is_empty() {
            c.create_storage_all(format!("/{p}")).unwrap();
        }
        if !id.is_empty() {
            c.set_storage_clsid(format!("/{p}"), id.parse().unwrap()).unwrap();
        }
    }
    for (p, b) in &st.s {
        let mut s = c.create_stream(format!("/{p}")).unwrap();
        s.write_all(b).unwrap();
        s.flush().unwrap();
    }
    c.flush().unwrap();
    c.into_inner().into_inner()
}

pub fn parse(bytes: &[u8]) -> Result<Streams, String> {
    let mut c = cfb::CompoundFile::open_strict(Cursor::new(bytes)).map_err(|e| format!("container: {e}"))?;
    let mut r = Streams::default();
    let es: Vec<(String, bool, String)> = c
        .walk()
        .map(|e| {
            let p = e.path().to_string_lossy().trim_start_matches('/').to_string();
            (p, e.is_stream(), e.clsid().to_string())
        })
        .collect();
    for (p, is, id) in es {
        if is {
            let mut b = vec![];
            c.open_stream(format!("/{p}")).and_then(|mut s| s.read_to_end(&mut b)).map_err(|e| format!("{p}: {e}"))?;
            r.s.insert(p, b);
        } else {
            let id = if id == "00000000-0000-0000-0000-000000000000" { String::new() } else { id };
            if p.is_empty() && id.is_empty() {
                continue;
            }
            r.stg.insert(p, id);
        }
    }
    Ok(r)
}

pub fn special() -> Map<String, Value> {
    json!({"CODE":"code","JPEG":"sub","BITS":"bits"}).as_object().unwrap().clone()
}
pub fn recs_of(b: &[u8]) -> Result<Vec<Value>, String> {
    let mut pos = 0;
    let r = dec_recs(b, &mut pos, &special())?;
    if pos != b.len() {
        return Err(format!("{} bytes after the end", b.len() - pos));
    }
    Ok(r)
}
/// tag bytes and data of every record (sizes are not signed)
fn mac_biff(b: &[u8], h: &mut Md2) -> Result<(), String> {
    let mut p = 0;
    while p < b.len() {
        let size = u32::from_le_bytes(b.get(p..p + 4).ok_or("short")?.try_into().unwrap()) as usize;
        let t = b.get(p + 4..p + 8).ok_or("short")?;
        h.update(t);
        if t == b"CODE" {
            let n = u32::from_le_bytes(b.get(p + 8..p + 12).ok_or("short")?.try_into().unwrap()) as usize;
            h.update(b.get(p + 12..p + 12 + n).ok_or("short")?);
            p += 12 + n;
        } else {
            h.update(b.get(p + 8..p + 4 + size).ok_or("short")?);
            p += 4 + size;
        }
    }
    Ok(())
}
pub fn cust_names(st: &Streams) -> Result<Vec<String>, String> {
    let Some(b) = st.s.get("GameStg/CustomInfoTags") else { return Ok(vec![]) };
    Ok(recs_of(b)?
        .iter()
        .filter(|r| r["t"] == "CUST")
        .map(|r| unhex(&r["p"].as_str().unwrap()[8..]).iter().map(|c| *c as char).collect())
        .collect())
}
pub fn mac(st: &Streams) -> Result<Vec<u8>, String> {
    let mut h = Md2::new();
    h.update(b"Visual Pinball");
    let g = |p: &str| st.s.get(p).map(|v| v.as_slice()).unwrap_or(&[]);
    h.update(g("GameStg/Version"));
    for k in SIGNED_INFO {
        h.update(g(&format!("TableInfo/{k}")));
    }
    mac_biff(g("GameStg/CustomInfoTags"), &mut h)?;
    for n in cust_names(st)? {
        h.update(g(&format!("TableInfo/{n}")));
    }
    mac_biff(g("GameStg/GameData"), &mut h)?;
    let mut i = 0;
    while let Some(b) = st.s.get(&format!("GameStg/Collection{i}")) {
        mac_biff(b, &mut h)?;
        i += 1;
    }
    Ok(h.finalize().to_vec())
}

/// GIF-style LZW decoder, 8 bit literals, over blocks
pub fn unlzw(b: &[u8]) -> Result<Vec<u8>, String> {
    let mut d: Vec<u8> = vec![];
    let mut p = 0;
    while p < b.len() {
        let n = b[p] as usize;
        if n == 0 {
            break;
        }
        d.extend(b.get(p + 1..p + 1 + n).ok_or("short block")?);
        p += 1 + n;
    }
    let (mut acc, mut nb, mut i) = (0u32, 0, 0);
    let mut w = 9;
    let mut tab: Vec<Vec<u8>> = vec![];
    let mut prev: Option<Vec<u8>> = None;
    let mut out = vec![];
    let reset = |tab: &mut Vec<Vec<u8>>| {
        *tab = (0..256).map(|x| vec![x as u8]).collect();
        tab.push(vec![]);
        tab.push(vec![]);
    };
    reset(&mut tab);
    loop {
        while nb < w {
            acc |= (*d.get(i).ok_or("lzw data ends early")? as u32) << nb;
            nb += 8;
            i += 1;
        }
        let code = (acc & ((1 << w) - 1)) as usize;
        acc >>= w;
        nb -= w;
        if code == 256 {
            reset(&mut tab);
            w = 9;
            prev = None;
            continue;
        }
        if code == 257 {
            return Ok(out);
        }
        let e = match &prev {
            None => tab.get(code).cloned().ok_or("bad code")?,
            Some(pv) => {
                let e = if code < tab.len() {
                    tab[code].clone()
                } else if code == tab.len() {
                    let mut x = pv.clone();
                    x.push(pv[0]);
                    x
                } else {
                    return Err(format!("bad code {code}"));
                };
                if tab.len() < 4096 {
                    let mut x = pv.clone();
                    x.push(e[0]);
                    tab.push(x);
                }
                e
            }
        };
        out.extend(&e);
        prev = Some(e);
        if tab.len() == (1 << w) && w < 12 {
            w += 1;
        }
    }
}

pub fn lstr(p: &Value) -> Vec<u8> {
    unhex(p.as_str().unwrap()).get(4..).map(|b| b.to_vec()).unwrap_or_default()
}
pub fn txt(b: &[u8]) -> String {
    b.iter().map(|c| *c as char).collect()
}
pub fn split_ext(p: &str) -> (String, String) {
    match p.rfind('.') {
        Some(i) => (p[..i].to_string(), p[i + 1..].to_string()),
        None => (p.to_string(), String::new()),
    }
}
/// What an image shows and what else is stored about it.
pub fn image(b: &[u8]) -> Result<Value, String> {
    let recs = recs_of(b)?;
    let last = |t: &str| recs.iter().rev().find(|r| r["t"] == t);
    let name = last("NAME").map(|r| txt(&lstr(&r["p"]))).unwrap_or_default();
    let path = last("PATH").map(|r| txt(&lstr(&r["p"]))).unwrap_or_default();
    let n = |t: &str| last(t).map(|r| u32::from_le_bytes(unhex(r["p"].as_str().unwrap()).try_into().unwrap())).unwrap_or(0);
    let (stem, ext) = split_ext(&path);
    let rest: Vec<&Value> = recs.iter().filter(|r| !["PATH", "JPEG", "BITS"].contains(&r["t"].as_str().unwrap())).collect();
    let rest = fp(serde_json::to_string(&rest).unwrap().as_bytes());
    let (mut kind, mut px, mut conv, mut sub, mut dim) = ("none".to_string(), String::new(), false, json!([name, stem, ""]), json!([]));
    if let Some(j) = last("JPEG") {
        let s = j["s"].as_array().unwrap();
        let l = |t: &str| s.iter().rev().find(|r| r["t"] == t);
        let data = l("DATA").map(|r| unhex(r["p"].as_str().unwrap())).unwrap_or_default();
        let size = l("SIZE").map(|r| u32::from_le_bytes(unhex(r["p"].as_str().unwrap()).try_into().unwrap())).unwrap_or(0);
        if size as usize != data.len() {
            return Err("image data size".into());
        }
        sub = json!([
            l("NAME").map(|r| txt(&lstr(&r["p"]))).unwrap_or_default(),
            split_ext(&l("PATH").map(|r| txt(&lstr(&r["p"]))).unwrap_or_default()).0,
            l("INME").map(|r| txt(&lstr(&r["p"]))).unwrap_or_default()
        ]);
        kind = "file".into();
        let e = ext.to_lowercase();
        let f = match e.as_str() {
            "png" => Some(image::ImageFormat::Png),
            "webp" => Some(image::ImageFormat::WebP),
            _ => None,
        };
        px = fp(&data);
        if let Some(f) = f {
            if let Ok(i) = image::load_from_memory_with_format(&data, f) {
                dim = json!([i.width(), i.height()]);
                px = fp(&i.to_rgba8());
                conv = e == "png";
            }
        }
    } else if let Some(r) = last("BITS") {
        kind = "bits".into();
        let d = unlzw(&unhex(r["p"].as_str().unwrap()))?;
        let rgba: Vec<u8> = d.chunks_exact(4).flat_map(|c| [c[2], c[1], c[0], c[3]]).collect();
        px = fp(&rgba);
        dim = json!([n("WDTH"), n("HGHT")]);
        conv = ext.eq_ignore_ascii_case("bmp");
    }
    Ok(json!({"name":name,"kind":kind,"ext":ext.to_lowercase(),"stem":stem,"px":px,"dim":dim,"rest":rest,"sub":sub,"conv":conv}))
}

pub fn text_of(b: &[u8]) -> String {
    match std::str::from_utf8(b) {
        Ok(s) => s.to_string(),
        Err(_) => txt(b),
    }
}

/// gamedata records without script and lock counter
pub fn settings_recs(b: &[u8]) -> Result<Vec<(String, String)>, String> {
    Ok(recs_of(b)?
        .iter()
        .map(|r| {
            let t = r["t"].as_str().unwrap().to_string();
            let p = if t == "CODE" || t == "TLCK" { String::new() } else { r["p"].as_str().unwrap().to_string() };
            (t, p)
        })
        .collect())
}
pub fn settings_fp(r: &[(String, String)]) -> String {
    let mut v: Vec<_> = r.iter().filter(|x| x.0 != "CODE" && x.0 != "TLCK").cloned().collect();
    v.sort();
    fp(format!("{v:?}").as_bytes())
}
fn series<'a>(st: &'a Streams, kind: &str) -> Vec<&'a Vec<u8>> {
    let mut v = vec![];
    while let Some(b) = st.s.get(&format!("GameStg/{kind}{}", v.len())) {
        v.push(b);
    }
    v
}
fn cat(v: &[&Vec<u8>]) -> String {
    v.iter().map(|b| fp(b)).collect::<Vec<_>>().join(",")
}
/// The content of a table file, part by part.
pub fn content(st: &Streams) -> Result<Value, String> {
    let g = |p: &str| st.s.get(p).cloned().unwrap_or_default();
    let gd = g("GameStg/GameData");
    let recs = recs_of(&gd).map_err(|e| format!("GameData: {e}"))?;
    let code = recs.iter().rev().find(|r| r["t"] == "CODE").map(|r| lstr(&r["p"])).unwrap_or_default();
    let lock = recs.iter().rev().find(|r| r["t"] == "TLCK").map(|r| {
        let v = u32::from_le_bytes(unhex(r["p"].as_str().unwrap()).try_into().unwrap());
        json!([v >> 16, v & 0xffff])
    });
    let set = settings_recs(&gd)?;
    let raw: Vec<_> = set.iter().filter(|x| x.0 != "TLCK").collect();
    let mut info = vec![];
    let mut sign = vec![];
    for (p, b) in &st.s {
        if let Some(k) = p.strip_prefix("TableInfo/") {
            info.push(format!("{k}={}", fp(b)));
        }
    }
    for k in SIGNED_INFO {
        let b = g(&format!("TableInfo/{k}"));
        if !b.is_empty() {
            sign.push(format!("{k}={}", fp(&b)));
        }
    }
    let mut tv = vec![];
    for n in cust_names(st)? {
        tv.push(format!("{n}={}", fp(&g(&format!("TableInfo/{n}")))));
    }
    let images = series(st, "Image").iter().map(|b| image(b)).collect::<Result<Vec<_>, _>>()?;
    let mut extra = vec![];
    let known = |p: &str| {
        p.starts_with("TableInfo/")
            || ["GameStg/Version", "GameStg/GameData", "GameStg/CustomInfoTags", "GameStg/MAC"].contains(&p)
            || ["GameItem", "Image", "Sound", "Font", "Collection"].iter().any(|k| {
                p.strip_prefix(&format!("GameStg/{k}")).is_some_and(|n| n.parse::<usize>().is_ok_and(|i| i < series(st, k).len()))
            })
    };
    for (p, b) in &st.s {
        if !known(p) {
            extra.push(format!("{p}={}", fp(b)));
        }
    }
    for (p, id) in &st.stg {
        if !["GameStg", "TableInfo"].contains(&p.as_str()) || !id.is_empty() {
            extra.push(format!("{p}:{id}"));
        }
    }
    Ok(json!({
        "version": fp(&g("GameStg/Version")),
        "info": fp(info.join(";").as_bytes()),
        "signinfo": sign.join(";"),
        "tags": fp(&g("GameStg/CustomInfoTags")),
        "tagvals": tv.join(";"),
        "settings": settings_fp(&set),
        "rawset": fp(format!("{raw:?}").as_bytes()),
        "lock": lock.unwrap_or(json!([])),
        "codeb": fp(&code),
        "script": fp(text_of(&code).as_bytes()),
        "items": cat(&series(st, "GameItem")),
        "images": images,
        "sounds": cat(&series(st, "Sound")),
        "fonts": cat(&series(st, "Font")),
        "colls": cat(&series(st, "Collection")),
        "extra": extra.join(";"),
    }))
}
pub fn tree_fp(st: &Streams) -> String {
    fp(format!("{:?}", st).as_bytes())
}
