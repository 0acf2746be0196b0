//! Compressed bitmap data.
use crate::table::*;
use crate::util::*;
use serde_json::{Value, json};
use vpin::vpx;
use vpin::vpx::lzw::{from_lzw_blocks, to_lzw_blocks};

fn case(c: &Value) -> Value {
    let id = &c["id"];
    let r = match c["mode"].as_str().unwrap() {
        "compress" => {
            let d = unhex(c["data"].as_str().unwrap());
            guard(|| {
                let b = to_lzw_blocks(&d);
                let back = from_lzw_blocks(&b) == d;
                json!({"id": id, "blocks": hex(&b), "back": back})
            })
        }
        "decompress" => {
            let d = unhex(c["data"].as_str().unwrap());
            guard(|| json!({"id": id, "back": from_lzw_blocks(&unhex(c["blocks"].as_str().unwrap())) == d}))
        }
        _ => {
            let start = of_case(&c["streams"], false);
            guard(|| {
                let r = vpx::from_bytes(&build(&start)).map_err(|e| e.to_string()).and_then(|v| vpx::to_bytes(&v).map(|o| (v, o)).map_err(|e| e.to_string()));
                match r {
                    Err(e) => json!({"id": id, "error": e}),
                    Ok((v, o)) => {
                        let d = parse(&o).map(|o| crate::expand::diff(&start, &o)).unwrap_or_else(|e| vec![json!([e])]);
                        let d: Vec<_> = d.into_iter().map(|x| x.to_string()).filter(|x| x.contains("Image")).map(|x| x.chars().take(200).collect::<String>()).collect();
                        let bits: Vec<_> = v.images.iter().map(|i| i.bits.as_ref().map(|b| hex(&b.lzw_compressed_data))).collect();
                        json!({"id": id, "diff": d, "bits": bits})
                    }
                }
            })
        }
    };
    r.unwrap_or_else(|p| json!({"id": id, "panic": p}))
}
pub fn run(i: &str, o: &str) {
    par_map(i, o, case);
}
