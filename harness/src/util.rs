//! Shared helpers: ndjson in/out, parallel map with panic capture, hex.
use serde_json::Value;
use std::fs;
use std::sync::Mutex;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::io::{BufWriter, Write};
use std::panic::{AssertUnwindSafe, catch_unwind};

pub fn hex(b: &[u8]) -> String {
    const D: &[u8; 16] = b"0123456789abcdef";
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push(D[(x >> 4) as usize] as char);
        s.push(D[(x & 15) as usize] as char);
    }
    s
}
pub fn unhex(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    assert!(b.len() % 2 == 0, "odd hex");
    let d = |c: u8| match c {
        b'0'..=b'9' => c - b'0',
        b'a'..=b'f' => c - b'a' + 10,
        b'A'..=b'F' => c - b'A' + 10,
        _ => panic!("bad hex"),
    };
    b.chunks(2).map(|c| d(c[0]) << 4 | d(c[1])).collect()
}
pub fn read_cases(path: &str) -> Vec<Value> {
    let s = fs::read_to_string(path).expect("case file");
    s.lines()
        .filter(|l| !l.trim().is_empty())
        .map(|l| serde_json::from_str(l).expect("case json"))
        .collect()
}
pub fn write_results(path: &str, res: &[Value]) {
    let mut w = BufWriter::new(fs::File::create(path).expect("out file"));
    for r in res {
        serde_json::to_writer(&mut w, r).unwrap();
        w.write_all(b"\n").unwrap();
    }
    w.flush().unwrap();
}
/// Runs f, turning a panic of the code under test into Err(message).
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        let m = if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        m.chars().take(300).collect()
    })
}
pub fn par_map(inp: &str, out: &str, f: impl Fn(&Value) -> Value + Sync) {
    let cases = read_cases(inp);
    // plain threads: the library's own parallel loops must not pick up further cases while they wait
    let n = std::thread::available_parallelism().map_or(4, |n| n.get());
    let next = AtomicUsize::new(0);
    let prog = Mutex::new(fs::File::create(format!("{out}.prog")).expect("progress file"));
    let log = |c: char, k: usize| {
        let _ = prog.lock().unwrap().write_all(format!("{c}{k}\n").as_bytes());
    };
    let res: Vec<Mutex<Value>> = cases.iter().map(|_| Mutex::new(Value::Null)).collect();
    std::thread::scope(|s| {
        for _ in 0..n {
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(s, || loop {
                    let k = next.fetch_add(1, Ordering::SeqCst);
                    if k >= cases.len() {
                        break;
                    }
                    log('s', k);
                    let v = f(&cases[k]);
                    *res[k].lock().unwrap() = v;
                    log('d', k);
                })
                .unwrap();
        }
    });
    let res: Vec<Value> = res.into_iter().map(|m| m.into_inner().unwrap()).collect();
    write_results(out, &res);
}
pub fn quiet() {
    std::panic::set_hook(Box::new(|_| {}));
}
/// FNV-1a 64 as a short content fingerprint.
pub fn fp(b: &[u8]) -> String {
    let mut h: u64 = 0xcbf29ce484222325;
    for x in b {
        h ^= *x as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    format!("{:016x}.{}", h, b.len())
}
