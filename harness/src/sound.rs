//! Sounds: wave files read and written, and the stored records.
use crate::table::*;
use crate::util::*;
use serde_json::{Value, json};
use vpin::vpx;
use vpin::vpx::sound::{OutputTarget, SoundData, WaveForm, read_sound, write_sound};

fn wave(w: &WaveForm) -> Value {
    json!([w.format_tag, w.channels, w.samples_per_sec, w.avg_bytes_per_sec, w.block_align, w.bits_per_sample, w.cb_size])
}
fn empty(path: &str) -> SoundData {
    SoundData {
        name: "s".into(),
        path: path.into(),
        wave_form: WaveForm::new(),
        data: vec![],
        internal_name: "".into(),
        fade: 0,
        volume: 0,
        balance: 0,
        output_target: OutputTarget::Table,
    }
}
fn case(c: &Value) -> Value {
    let id = &c["id"];
    match c["mode"].as_str().unwrap() {
        "read" => {
            let mut s = empty("x.wav");
            s.data = vec![1, 2, 3];
            let r = guard(|| read_sound(&unhex(c["hex"].as_str().unwrap()), &mut s).map_err(|e| e.to_string()));
            match r {
                Ok(Ok(())) => json!({"id": id, "ok": true, "wave": wave(&s.wave_form), "data": hex(&s.data)}),
                Ok(Err(e)) => json!({"id": id, "ok": false, "error": e}),
                Err(p) => json!({"id": id, "ok": false, "panic": p}),
            }
        }
        "write" => {
            let w: Vec<u64> = c["wave"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
            let mut s = empty(c["path"].as_str().unwrap());
            s.wave_form = WaveForm {
                format_tag: w[0] as u16,
                channels: w[1] as u16,
                samples_per_sec: w[2] as u32,
                avg_bytes_per_sec: w[3] as u32,
                block_align: w[4] as u16,
                bits_per_sample: w[5] as u16,
                cb_size: w[6] as u16,
            };
            s.data = unhex(c["data"].as_str().unwrap());
            let mut t = empty(c["path"].as_str().unwrap());
            match guard(|| {
                let b = write_sound(&s);
                let r = read_sound(&b, &mut t).map_err(|e| e.to_string());
                (b, r)
            }) {
                Ok((b, r)) => json!({"id": id, "ok": r.is_ok(), "error": r.err(), "hex": hex(&b), "wave": wave(&t.wave_form), "data": hex(&t.data)}),
                Err(p) => json!({"id": id, "ok": false, "panic": p}),
            }
        }
        _ => {
            let start = of_case(&c["streams"], false);
            let r = guard(|| {
                let v = vpx::from_bytes(&build(&start)).map_err(|e| e.to_string())?;
                let o = vpx::to_bytes(&v).map_err(|e| e.to_string())?;
                Ok::<_, String>((v, o))
            });
            match r {
                Ok(Ok((v, o))) => {
                    let d = parse(&o).map(|o| crate::expand::diff(&start, &o)).unwrap_or_else(|e| vec![json!([e])]);
                    let d: Vec<_> = d.into_iter().filter(|x| x.to_string().contains("Sound")).collect();
                    let s: Vec<_> = v
                        .sounds
                        .iter()
                        .map(|s| {
                            json!({"name": s.name, "path": s.path, "internal": s.internal_name, "wave": wave(&s.wave_form), "data": hex(&s.data),
                                "target": (&s.output_target as &OutputTarget == &OutputTarget::Backglass) as u8, "volume": s.volume, "balance": s.balance, "fade": s.fade})
                        })
                        .collect();
                    json!({"id": id, "ok": true, "diff": d, "sounds": s})
                }
                Ok(Err(e)) => json!({"id": id, "ok": false, "error": e}),
                Err(p) => json!({"id": id, "ok": false, "panic": p}),
            }
        }
    }
}
pub fn run(i: &str, o: &str) {
    par_map(i, o, case);
}
