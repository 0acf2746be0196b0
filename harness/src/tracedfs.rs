//! A strict in-memory file system that records every operation, can fail any one of them and can
//! hold workers back to force an order of storage operations.
use std::collections::{BTreeMap, BTreeSet};
use std::io::{self, Cursor, Read, Write};
use std::path::{Component, Path};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};
use vpin::filesystem::FileSystem;

#[derive(Clone, Debug, PartialEq)]
pub enum Fault {
    None,
    /// the n-th operation (from 0) fails, once
    Once(usize),
    /// it fails, and so does every one after it
    From(usize),
    /// the n-th operation, if it transfers data, transfers a part and the next transfer fails
    Short(usize),
}
#[derive(Default)]
pub struct State {
    pub files: BTreeMap<Vec<String>, Vec<u8>>,
    pub dirs: BTreeSet<Vec<String>>,
    /// (operation, path components, what happened)
    pub log: Vec<(&'static str, Vec<String>, &'static str)>,
    pub n: usize,
    pub fired: Option<(&'static str, Vec<String>)>,
    pub dying: bool,
    /// paths whose write is held back until all earlier ones were written
    pub order: Vec<Vec<String>>,
    pub turn: usize,
    pub unforced: usize,
}
#[derive(Clone)]
pub struct TracedFs {
    pub st: Arc<(Mutex<State>, Condvar)>,
    pub fault: Fault,
    /// bytes moved per read or write call at most
    pub chunk: usize,
    /// 0: no order forced, 1: the order of writes, 2: the order of reads
    pub gate: u8,
}
pub fn comps(p: &Path) -> Vec<String> {
    p.components()
        .map(|c| match c {
            Component::RootDir => "/".to_string(),
            c => c.as_os_str().to_string_lossy().to_string(),
        })
        .collect()
}
fn injected() -> io::Error {
    io::Error::new(io::ErrorKind::StorageFull, "injected storage failure")
}
fn nf(p: &Path) -> io::Error {
    io::Error::new(io::ErrorKind::NotFound, format!("no such file: {}", p.display()))
}
impl TracedFs {
    pub fn new(root: &Path) -> Self {
        let mut s = State::default();
        s.dirs.insert(comps(root));
        TracedFs { st: Arc::new((Mutex::new(s), Condvar::new())), fault: Fault::None, chunk: usize::MAX, gate: 0 }
    }
    pub fn fork(&self) -> Self {
        let a = self.st.0.lock().unwrap();
        let s = State { files: a.files.clone(), dirs: a.dirs.clone(), ..Default::default() };
        TracedFs { st: Arc::new((Mutex::new(s), Condvar::new())), fault: Fault::None, chunk: usize::MAX, gate: 0 }
    }
    fn step(&self, op: &'static str, path: &[String]) -> io::Result<bool> {
        let mut s = self.st.0.lock().unwrap();
        let k = s.n;
        s.n += 1;
        let hit = match self.fault {
            Fault::None => false,
            Fault::Once(n) => k == n,
            Fault::From(n) => k >= n,
            Fault::Short(n) => {
                if k == n && ["write", "read", "write_file"].contains(&op) {
                    s.dying = true;
                    s.fired = Some((op, path.to_vec()));
                    if op != "write_file" {
                        return Ok(true);
                    }
                }
                s.dying
            }
        };
        if hit {
            if s.fired.is_none() {
                s.fired = Some((op, path.to_vec()));
            }
            s.log.push((op, path.to_vec(), "failed"));
            return Err(injected());
        }
        Ok(false)
    }
    fn parent_ok(&self, path: &Path) -> io::Result<Vec<String>> {
        let c = comps(path);
        let s = self.st.0.lock().unwrap();
        // lexical resolution; leaving the root is recorded by the path itself and refused
        let par = &c[..c.len().saturating_sub(1)];
        if !s.dirs.contains(par) {
            return Err(nf(path));
        }
        if s.dirs.contains(&c) {
            return Err(io::Error::other("is a directory"));
        }
        Ok(c)
    }
    fn put(&self, op: &'static str, c: &[String], data: Vec<u8>) {
        let mut s = self.st.0.lock().unwrap();
        s.log.push((op, c.to_vec(), "ok"));
        s.files.insert(c.to_vec(), data);
    }
    fn await_turn(&self, c: &[String]) {
        if self.gate == 0 {
            return;
        }
        let mut s = self.st.0.lock().unwrap();
        let Some(mine) = s.order.iter().position(|p| p == c) else { return };
        let end = Instant::now() + Duration::from_millis(60);
        while s.turn < mine {
            let left = end.saturating_duration_since(Instant::now());
            if left.is_zero() {
                s.unforced += 1;
                return;
            }
            s = self.st.1.wait_timeout(s, left).unwrap().0;
        }
    }
    fn done_turn(&self, c: &[String]) {
        if self.gate == 0 {
            return;
        }
        let mut s = self.st.0.lock().unwrap();
        if let Some(mine) = s.order.iter().position(|p| p == c) {
            s.turn = s.turn.max(mine + 1);
            self.st.1.notify_all();
        }
    }
}
struct W {
    fs: TracedFs,
    path: Vec<String>,
}
impl Write for W {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let short = self.fs.step("write", &self.path)?;
        let n = if short { b.len() / 2 } else { b.len().min(self.fs.chunk) };
        let n = if n == 0 && !b.is_empty() { 1 } else { n };
        let mut s = self.fs.st.0.lock().unwrap();
        if let Some(f) = s.files.get_mut(&self.path) {
            f.extend(&b[..n]);
        }
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.fs.step("flush", &self.path)?;
        Ok(())
    }
}
struct R {
    fs: TracedFs,
    path: Vec<String>,
    c: Cursor<Vec<u8>>,
}
impl Drop for R {
    fn drop(&mut self) {
        self.fs.done_turn(&self.path);
    }
}
impl Read for R {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let short = self.fs.step("read", &self.path)?;
        let n = b.len().min(self.fs.chunk).min(if short { (self.c.get_ref().len() / 2).max(1) } else { usize::MAX });
        self.c.read(&mut b[..n])
    }
}
impl FileSystem for TracedFs {
    fn create_file(&self, path: &Path) -> io::Result<Box<dyn Write>> {
        let c = comps(path);
        self.step("create", &c)?;
        match self.parent_ok(path) {
            Ok(c) => {
                self.put("create", &c, vec![]);
                Ok(Box::new(W { fs: self.clone(), path: c }))
            }
            Err(e) => {
                self.st.0.lock().unwrap().log.push(("create", c, "refused"));
                Err(e)
            }
        }
    }
    fn open_file(&self, path: &Path) -> io::Result<Box<dyn Read>> {
        let c = comps(path);
        self.step("open", &c)?;
        let s = self.st.0.lock().unwrap();
        let d = s.files.get(&c).cloned().ok_or_else(|| nf(path))?;
        drop(s);
        Ok(Box::new(R { fs: self.clone(), path: c, c: Cursor::new(d) }))
    }
    fn read_file(&self, path: &Path) -> io::Result<Vec<u8>> {
        let c = comps(path);
        self.step("read_file", &c).and_then(|_| self.st.0.lock().unwrap().files.get(&c).cloned().ok_or_else(|| nf(path)))
    }
    fn write_file(&self, path: &Path, data: &[u8]) -> io::Result<()> {
        let c = comps(path);
        self.await_turn(&c);
        let r = (|| {
            self.step("write_file", &c)?;
            match self.parent_ok(path) {
                Ok(c) => {
                    self.put("write_file", &c, data.to_vec());
                    Ok(())
                }
                Err(e) => {
                    self.st.0.lock().unwrap().log.push(("write_file", c.clone(), "refused"));
                    Err(e)
                }
            }
        })();
        self.done_turn(&c);
        r
    }
    fn create_dir_all(&self, path: &Path) -> io::Result<()> {
        let c = comps(path);
        self.step("mkdir", &c)?;
        let mut s = self.st.0.lock().unwrap();
        s.log.push(("mkdir", c.clone(), "ok"));
        for k in 1..=c.len() {
            s.dirs.insert(c[..k].to_vec());
        }
        Ok(())
    }
    fn exists(&self, path: &Path) -> bool {
        let c = comps(path);
        // readers look for a file first: hold them there
        if self.gate == 2 {
            self.await_turn(&c);
        }
        let s = self.st.0.lock().unwrap();
        let r = s.files.contains_key(&c) || s.dirs.contains(&c);
        drop(s);
        r
    }
}
