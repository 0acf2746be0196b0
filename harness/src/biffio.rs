//! Independent encoder/decoder of the tagged-record format (does not use the library's).
use crate::util::{hex, unhex};
use serde_json::{Map, Value, json};

pub fn enc_recs(recs: &[Value], out: &mut Vec<u8>) {
    for r in recs {
        let t = r["t"].as_str().unwrap();
        let k = r["k"].as_str().unwrap_or("");
        let p = unhex(r["p"].as_str().unwrap_or(""));
        let x = unhex(r["x"].as_str().unwrap_or(""));
        match k {
            "nosize" => {
                out.extend(4u32.to_le_bytes());
                tag(t, out);
                out.extend(&p);
            }
            "sub" => {
                out.extend(4u32.to_le_bytes());
                tag(t, out);
                enc_recs(r["s"].as_array().unwrap(), out);
                endb(out);
            }
            "nest" => {
                let mut b = vec![];
                let mut tail = vec![];
                let mut recs = vec![];
                for c in r["s"].as_array().unwrap() {
                    if c["t"] == "#tail" {
                        tail = unhex(c["p"].as_str().unwrap());
                    } else {
                        recs.push(c.clone());
                    }
                }
                enc_recs(&recs, &mut b);
                endb(&mut b);
                b.extend(tail);
                out.extend(((4 + b.len()) as u32).to_le_bytes());
                tag(t, out);
                out.extend(&b);
            }
            _ => {
                out.extend(((4 + p.len() + x.len()) as u32).to_le_bytes());
                tag(t, out);
                out.extend(&p);
                out.extend(&x);
            }
        }
    }
}
fn tag(t: &str, out: &mut Vec<u8>) {
    let mut b = t.as_bytes().to_vec();
    b.resize(4, 0);
    out.extend(b);
}
pub fn endb(out: &mut Vec<u8>) {
    out.extend(4u32.to_le_bytes());
    out.extend(b"ENDB");
}
fn u32at(d: &[u8], p: usize) -> Result<usize, String> {
    d.get(p..p + 4)
        .map(|b| u32::from_le_bytes(b.try_into().unwrap()) as usize)
        .ok_or_else(|| format!("short at {p}"))
}
/// Decodes records until ENDB. `special`: tag -> "font" | "sub" | "code"
pub fn dec_recs(d: &[u8], pos: &mut usize, special: &Map<String, Value>) -> Result<Vec<Value>, String> {
    let mut out = vec![];
    loop {
        let size = u32at(d, *pos)?;
        if size < 4 {
            return Err(format!("record size {size} at {pos}"));
        }
        let tb = d.get(*pos + 4..*pos + 8).ok_or("short tag")?;
        let t: String = tb.iter().take_while(|c| **c != 0).map(|c| *c as char).collect();
        *pos += 8;
        if t == "ENDB" {
            if size != 4 {
                return Err("ENDB size".into());
            }
            return Ok(out);
        }
        match special.get(&t).and_then(|v| v.as_str()) {
            Some("sub") if size == 4 => {
                let s = dec_recs(d, pos, special)?;
                out.push(json!({"t":t,"s":s}));
            }
            Some("nest") => {
                let e = *pos + size - 4;
                let b = d.get(*pos..e).ok_or("short nested record")?;
                let mut q = 0;
                let mut s = dec_recs(b, &mut q, special)?;
                if q < b.len() {
                    s.push(json!({"t":"#tail","p":hex(&b[q..])}));
                }
                out.push(json!({"t":t,"s":s}));
                *pos = e;
            }
            Some("font") if size == 4 => {
                let b = *pos;
                let len = *d.get(b + 10).ok_or("short font")? as usize;
                let e = b + 11 + len;
                out.push(json!({"t":t,"p":hex(d.get(b..e).ok_or("short font")?)}));
                *pos = e;
            }
            Some("bits") if size == 4 => {
                // blocks of <len><bytes>; the next record is always ALTV
                let b = *pos;
                let mut e = b;
                while d.get(e..e + 8) != Some(b"\x08\0\0\0ALTV") {
                    e += 1 + *d.get(e).ok_or("short bitmap data")? as usize;
                }
                out.push(json!({"t":t,"p":hex(&d[b..e])}));
                *pos = e;
            }
            Some("code") if size == 4 => {
                let b = *pos;
                let len = u32at(d, b)?;
                let e = b + 4 + len;
                out.push(json!({"t":t,"p":hex(d.get(b..e).ok_or("short code")?)}));
                *pos = e;
            }
            _ => {
                let e = *pos + size - 4;
                out.push(json!({"t":t,"p":hex(d.get(*pos..e).ok_or("short record")?)}));
                *pos = e;
            }
        }
    }
}
