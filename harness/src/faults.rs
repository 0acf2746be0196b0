//! Runs one operation on a table file with a storage fault at each of its storage operations.
use crate::iofault::{self, Mode};
use crate::table::*;
use crate::util::*;
use serde_json::{Value, json};
use std::fs;
use std::path::{Path, PathBuf};
use vpin::vpx::{self, VPX};

enum Prep {
    Mem(Box<VPX>),
    None,
}

fn prepare(op: &str, raw: &[u8]) -> Prep {
    match op {
        "write" | "write_over" => Prep::Mem(Box::new(vpx::from_bytes(raw).unwrap())),
        _ => Prep::None,
    }
}
fn perform(op: &str, p: &Path, prep: &Prep) -> std::io::Result<()> {
    let rw = || vpx::open_rw(p);
    match op {
        "write" | "write_over" => match prep {
            Prep::Mem(v) => vpx::write(p, v),
            Prep::None => unreachable!(),
        },
        "minimal" => vpx::new_minimal_vpx(p),
        "import" => vpx::importvbs(p, None).map(|_| ()),
        "lock" => rw()?.lock().map(|_| ()),
        "unlock" => rw()?.unlock().map(|_| ()),
        "setgd" => {
            let mut f = rw()?;
            let mut g = f.read_gamedata()?;
            g.name = "anders \u{e4}".repeat(40);
            g.gravity = 3.25;
            f.write_gamedata(&g)
        }
        "webp" => rw()?.images_to_webp().map(|_| ()),
        "compact" => vpx::compact(p),
        x => panic!("op {x}"),
    }
}

fn state_of(p: &Path, orig: &str, want: &str) -> &'static str {
    match fs::read(p) {
        Err(_) => "gone",
        Ok(b) => match parse(&b) {
            Err(_) => "bad",
            Ok(st) => {
                let f = tree_fp(&st);
                if f == want {
                    "new"
                } else if f == orig {
                    "orig"
                } else {
                    "bad"
                }
            }
        },
    }
}

pub fn run(inp: &str, out: &str, scratch: &str) {
    par_map(inp, out, |c| {
        let dir = PathBuf::from(scratch).join(format!("f{}", c["id"]));
        let _ = fs::remove_dir_all(&dir);
        fs::create_dir_all(&dir).unwrap();
        let r = one(c, &dir);
        let _ = fs::remove_dir_all(&dir);
        match r {
            Ok(v) => v,
            Err(e) => json!({"id": c["id"], "harness": e}),
        }
    })
}
fn one(c: &Value, dir: &Path) -> Result<Value, String> {
    let op = c["op"].as_str().unwrap();
    let mut st = of_case(&c["streams"], c["clsid"].as_bool().unwrap_or(false));
    let m = mac(&st)?;
    st.s.insert("GameStg/MAC".into(), m);
    let mut raw = build(&st);
    // operations on an existing file start from a library-written one unless told otherwise
    if op != "compact" && c["canon"].as_bool().unwrap_or(true) {
        raw = guard(|| vpx::to_bytes(&vpx::from_bytes(&raw).unwrap()).unwrap())?;
    }
    let file = c["file"].as_str().unwrap();
    let p = dir.join(file);
    let fresh = |dir: &Path| {
        for e in fs::read_dir(dir).unwrap() {
            let _ = fs::remove_file(e.unwrap().path());
        }
        match op {
            "write" | "minimal" => {}
            "write_over" => fs::write(&p, [raw.clone(), vec![7u8; 3000]].concat()).unwrap(),
            _ => fs::write(&p, &raw).unwrap(),
        }
        if op == "import" {
            fs::write(p.with_extension("vbs"), "' neu \u{e4}\r\n".repeat(400)).unwrap();
        }
    };
    let prep = prepare(op, &raw);
    fresh(dir);
    let orig = match op {
        "write" | "minimal" | "write_over" => String::new(),
        _ => tree_fp(&parse(&raw)?),
    };
    let listing = |dir: &Path| {
        let mut v: Vec<String> = fs::read_dir(dir).unwrap().map(|e| e.unwrap().file_name().to_string_lossy().to_string()).collect();
        v.sort();
        v
    };
    let before = listing(dir);
    iofault::arm(Mode::Log, 0, dir);
    let r = guard(|| perform(op, &p, &prep));
    let (n, _, log) = iofault::disarm();
    match r {
        Ok(Ok(())) => {}
        Ok(Err(e)) => return Ok(json!({"id": c["id"], "op": op, "clean": format!("err {e}")})),
        Err(e) => return Ok(json!({"id": c["id"], "op": op, "clean": format!("panic {e}")})),
    }
    let want = match fs::read(&p).map_err(|e| e.to_string()).and_then(|b| parse(&b)) {
        Ok(s) => tree_fp(&s),
        Err(e) => return Ok(json!({"id": c["id"], "op": op, "clean": format!("file unreadable {e}")})),
    };
    let left: Vec<String> = listing(dir).into_iter().filter(|x| !before.contains(x) && x != file).collect();
    let name = |q: &str| {
        let f = Path::new(q).file_name().map(|f| f.to_string_lossy().to_string()).unwrap_or_default();
        if f == file { "tbl".to_string() } else if Path::new(q).starts_with(dir) { "tmp".to_string() } else { "none".to_string() }
    };
    // what the operation did to the files, reads and seeks left out, runs of writes as one
    let mut evs: Vec<Value> = vec![];
    for (k, e) in log.iter().enumerate() {
        if !e.mutates && e.call != "sync" {
            continue;
        }
        let t = name(&e.path);
        if e.call == "write"
            && let Some(l) = evs.last_mut()
            && l["c"] == "write"
            && l["t"] == json!(t)
        {
            l["b"] = json!(k);
            continue;
        }
        evs.push(json!({"c": e.call, "t": t, "to": if e.to.is_empty() { "none".to_string() } else { name(&e.to) }, "a": k, "b": k}));
    }
    // which storage operations get a fault
    let max = c["max"].as_u64().unwrap_or(200) as usize;
    let step = c["step"].as_u64().map(|x| x as usize).unwrap_or((n / max).max(1));
    let off = c["off"].as_u64().unwrap_or(0) as usize % step;
    let mut runs = vec![];
    let mut tmpname = String::new();
    for e in &log {
        if name(&e.path) == "tmp" && e.mutates {
            tmpname = e.path.clone();
        }
    }
    for mo in c["modes"].as_array().unwrap() {
        let mode = match mo.as_str().unwrap() {
            "once" => Mode::Once,
            "sticky" => Mode::Sticky,
            "short" => Mode::Short,
            "crash" => Mode::Crash,
            x => return Err(format!("mode {x}")),
        };
        for k in 0..n {
            // calls other than reads, writes and seeks are rare and never left out
            let rare = !["read", "write", "seek"].contains(&log[k].call);
            // neither are the operations right before the end
            if !rare && k % step != off && k + 25 < n {
                continue;
            }
            if mode == Mode::Short && log[k].call != "write" {
                continue;
            }
            if mode == Mode::Crash && !log[k].mutates {
                continue;
            }
            fresh(dir);
            iofault::arm(mode, k, dir);
            let r = guard(|| perform(op, &p, &prep));
            let (_, hit, _) = iofault::disarm();
            if !hit {
                // the operation did not come that far this time
                continue;
            }
            let res = match &r {
                Ok(Ok(())) => "ok",
                Ok(Err(_)) => "err",
                Err(_) => "panic",
            };
            let tbl = state_of(&p, &orig, &want);
            let tmp = if tmpname.is_empty() { "gone" } else { state_of(Path::new(&tmpname), "", &want) };
            let msg = match r {
                Ok(Ok(())) => String::new(),
                Ok(Err(e)) => e.to_string(),
                Err(e) => e,
            };
            // what is left behind must not stand in the way of the next attempt
            let mut again = "none".to_string();
            if op == "compact" && (rare || k % 7 == 0) {
                let r = guard(|| perform(op, &p, &prep));
                again = match r {
                    Ok(Ok(())) => {
                        let extra = listing(dir).into_iter().any(|x| !before.contains(&x) && x != file);
                        if extra { "left".to_string() } else { state_of(&p, &orig, &want).to_string() }
                    }
                    Ok(Err(_)) => "err".to_string(),
                    Err(_) => "panic".to_string(),
                };
            }
            runs.push(json!({"k": k, "again": again, "m": mo, "c": log[k].call, "t": name(&log[k].path), "res": res, "tbl": tbl, "tmp": tmp, "msg": if res == "panic" { msg } else { String::new() }}));
        }
    }
    let same = want == orig;
    Ok(json!({"id": c["id"], "op": op, "clean": "ok", "n": n, "evs": evs, "runs": runs, "left": left, "same": same,
        "calls": log.iter().fold(serde_json::Map::new(), |mut m, e| { let x = m.get(e.call).and_then(|v| v.as_u64()).unwrap_or(0); m.insert(e.call.into(), json!(x + 1)); m })}))
}
