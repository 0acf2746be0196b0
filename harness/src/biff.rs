//! The generic record layer: programs of typed reads / writes against BiffReader / BiffWriter.
use crate::util::*;
use serde_json::{Value, json};
use vpin::vpx::biff::{BiffReader, BiffWriter};

fn nums(b: &[u8]) -> Value {
    Value::from(b.iter().map(|x| *x as u64).collect::<Vec<_>>())
}
fn chars(s: &str) -> Value {
    Value::from(s.chars().map(|x| x as u64).collect::<Vec<_>>())
}
fn bytes(v: &Value) -> Vec<u8> {
    v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect()
}
fn text(v: &Value) -> String {
    v.as_array().unwrap().iter().map(|x| char::from_u32(x.as_u64().unwrap() as u32).unwrap()).collect()
}
fn le<const N: usize>(v: &Value) -> [u8; N] {
    bytes(v).try_into().unwrap()
}

fn run(r: &mut BiffReader<'_>, ops: &[Value], steps: &mut Vec<Value>, path: &str) {
    for op in ops {
        let o = op["o"].as_str().unwrap();
        let n = op["n"].as_u64().unwrap_or(0) as usize;
        let res = match o {
            "next" => match r.next(false) {
                None => json!([]),
                Some(t) => chars(&t),
            },
            "u8" => nums(&r.get_u8().to_le_bytes()),
            "u16" => nums(&r.get_u16().to_le_bytes()),
            "u32" => nums(&r.get_u32().to_le_bytes()),
            "32" => nums(&r.get_32().to_le_bytes()),
            "i16" => nums(&r.get_i16().to_le_bytes()),
            "i32" => nums(&r.get_i32().to_le_bytes()),
            "i64" => nums(&r.get_i64().to_le_bytes()),
            "u64" => nums(&r.get_u64().to_le_bytes()),
            "f32" => nums(&r.get_f32().to_le_bytes()),
            "f64" => nums(&r.get_double().to_le_bytes()),
            "bool" => json!([if r.get_bool() { 1 } else { 0 }]),
            "str" => chars(&r.get_str(n)),
            "string" => chars(&r.get_string()),
            "wstring" => chars(&r.get_wide_string()),
            "get" => nums(r.get(n)),
            "data" => nums(r.get_data(n)),
            "skip" => {
                r.skip(n);
                json!([])
            }
            "skip_tag" => {
                let k = r.skip_tag();
                json!([k])
            }
            "record_data" => nums(&r.get_record_data(false)),
            "record_data_tag" => nums(&r.get_record_data(true)),
            "u16s" => nums(&r.get_u16_array(n).iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<_>>()),
            "i16s" => nums(&r.get_i16_array(n).iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<_>>()),
            "u32s" => nums(&r.get_u32_array(n).iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<_>>()),
            "i32s" => nums(&r.get_i32_array(n).iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<_>>()),
            "i64s" => nums(&r.get_i64_array(n).iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<_>>()),
            "u64s" => nums(&r.get_u64_array(n).iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<_>>()),
            "f32s" => nums(&r.get_f32_array(n).iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<_>>()),
            "f64s" => nums(&r.get_f64_array(n).iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<_>>()),
            "strings" => Value::from(r.get_string_array(n).iter().flat_map(|s| s.chars().map(|c| c as u64)).collect::<Vec<_>>()),
            "child" => {
                let base = r.pos();
                let used = {
                    let mut c = r.child_reader();
                    let mut sub = vec![];
                    run(&mut c, op["ops"].as_array().unwrap(), &mut sub, "c");
                    steps.push(json!({"o":"enter"}));
                    steps.append(&mut sub);
                    c.pos()
                };
                r.skip_end_tag(used);
                let _ = base;
                json!([used])
            }
            x => panic!("op {x}"),
        };
        let mut s = json!({"o":o,"n":n,"res":res,"pos":r.pos(),"rem":r.remaining_in_record(),"tag":r.tag(),"eof":r.is_eof(),"d":path});
        if let Some(e) = op.get("exp") {
            s["exp"] = e.clone();
        }
        steps.push(s);
    }
}

fn write(ops: &[Value]) -> Vec<u8> {
    let mut w = BiffWriter::new();
    for op in ops {
        let v = &op["v"];
        let t = op["t"].as_str().unwrap_or("");
        match op["o"].as_str().unwrap() {
            "new" => w.new_tag(t),
            "end" => w.end_tag(),
            "end0" => w.end_tag_no_size(),
            "u8" => w.write_u8(le::<1>(v)[0]),
            "8" => w.write_8(le::<1>(v)[0] as i8),
            "u16" => w.write_u16(u16::from_le_bytes(le(v))),
            "16" => w.write_16(i16::from_le_bytes(le(v))),
            "u32" => w.write_u32(u32::from_le_bytes(le(v))),
            "32" => w.write_32(i32::from_le_bytes(le(v))),
            "f32" => w.write_f32(f32::from_le_bytes(le(v))),
            "bool" => w.write_bool(bytes(v)[0] != 0),
            "string" => w.write_string(&text(v)),
            "short" => w.write_short_string(&text(v)),
            "string0" => w.write_string_empty_zero(&text(v)),
            "wstring" => w.write_wide_string(&text(v)),
            "lp" => w.write_length_prefixed_data(&bytes(v)),
            "data" => w.write_data(&bytes(v)),
            "t_empty" => w.write_tagged_empty(t),
            "t_bool" => w.write_tagged_bool(t, bytes(v)[0] != 0),
            "t_f32" => w.write_tagged_f32(t, f32::from_le_bytes(le(v))),
            "t_u32" => w.write_tagged_u32(t, u32::from_le_bytes(le(v))),
            "t_i32" => w.write_tagged_i32(t, i32::from_le_bytes(le(v))),
            "t_string" => w.write_tagged_string(t, &text(v)),
            "t_string0" => w.write_tagged_string_no_size(t, &text(v)),
            "t_wstring" => w.write_tagged_wide_string(t, &text(v)),
            "t_data" => w.write_tagged_data(t, &bytes(v)),
            "t_data0" => w.write_tagged_data_without_size(t, &bytes(v)),
            "t_vec2" | "t_vec3" | "t_vec3p" => {
                let b = bytes(v);
                let f: Vec<f32> = b.chunks(4).map(|c| f32::from_le_bytes(c.try_into().unwrap())).collect();
                match op["o"].as_str().unwrap() {
                    "t_vec2" => w.write_tagged_vec2(t, f[0], f[1]),
                    "t_vec3" => w.write_tagged_unpadded_vector(t, f[0], f[1], f[2]),
                    _ => w.write_tagged_padded_vector(t, f[0], f[1], f[2]),
                }
            }
            "close" => w.close(true),
            x => panic!("wop {x}"),
        }
    }
    w.get_data().to_vec()
}

/// case: {"id", "data"?:[bytes], "w"?:[ops], "ops":[ops]} ; with "w" the data is what the writer produced
pub fn biff(inp: &str, out: &str) {
    par_map(inp, out, |c| {
        let mut steps = vec![];
        let r = guard(|| {
            let data = if c.get("w").is_some() { write(c["w"].as_array().unwrap()) } else { bytes(&c["data"]) };
            let mut r = BiffReader::new(&data);
            run(&mut r, c["ops"].as_array().unwrap(), &mut steps, "p");
            data
        });
        match r {
            Ok(data) => json!({"id":c["id"],"data":nums(&data),"steps":steps}),
            Err(m) => json!({"id":c["id"],"err":m}),
        }
    });
}
