//! Storage-fault injection: the file operations of the C library are replaced in this program.
//! An armed thread counts the operations it issues; from a chosen one on they fail (once, for ever, or as if
//! the process had died). Unarmed threads are unaffected.
use std::cell::RefCell;
use std::collections::HashMap;
use std::ffi::{CStr, c_char, c_int, c_long, c_void};

unsafe extern "C" {
    fn syscall(n: c_long, ...) -> c_long;
    fn __errno_location() -> *mut c_int;
}
const SYS_READ: c_long = 0;
const SYS_WRITE: c_long = 1;
const SYS_LSEEK: c_long = 8;
const SYS_PREAD: c_long = 17;
const SYS_PWRITE: c_long = 18;
const SYS_FSYNC: c_long = 74;
const SYS_FDATASYNC: c_long = 75;
const SYS_FTRUNCATE: c_long = 77;
const SYS_RENAME: c_long = 82;
const SYS_UNLINK: c_long = 87;
const SYS_OPENAT: c_long = 257;
const AT_FDCWD: c_int = -100;
const EIO: c_int = 5;
const ENOSPC: c_int = 28;
const O_CREAT: c_int = 0o100;
const O_TRUNC: c_int = 0o1000;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mode {
    /// only record
    Log,
    /// the chosen operation fails
    Once,
    /// it and every later one fail
    Sticky,
    /// a write stores half of its bytes, later writes fail (storage full)
    Short,
    /// nothing that changes storage has any effect from there on
    Crash,
}
#[derive(Clone, Debug)]
pub struct Ev {
    pub call: &'static str,
    pub path: String,
    pub to: String,
    pub mutates: bool,
}
struct State {
    /// only files below this directory count
    root: String,
    mode: Mode,
    at: usize,
    n: usize,
    hit: bool,
    log: Vec<Ev>,
    fds: HashMap<c_int, String>,
}
thread_local! {
    static ST: RefCell<Option<State>> = const { RefCell::new(None) };
}
pub fn arm(mode: Mode, at: usize, root: &std::path::Path) {
    ST.with(|s| *s.borrow_mut() = Some(State { root: root.to_string_lossy().to_string(), mode, at, n: 0, hit: false, log: vec![], fds: HashMap::new() }));
}
/// (operations, was the fault reached, log)
pub fn disarm() -> (usize, bool, Vec<Ev>) {
    ST.with(|s| s.borrow_mut().take()).map(|s| (s.n, s.hit, s.log)).unwrap_or((0, false, vec![]))
}
enum Act {
    Go,
    Fail(c_int),
    Half,
}
fn act(call: &'static str, fd: c_int, path: Option<&str>, to: &str, mutates: bool) -> Act {
    ST.try_with(|s| {
        let Ok(mut g) = s.try_borrow_mut() else { return Act::Go };
        let Some(s) = g.as_mut() else { return Act::Go };
        let p = match path {
            Some(p) if !p.starts_with(&s.root) => return Act::Go,
            Some(p) => p.to_string(),
            None => match s.fds.get(&fd) {
                Some(p) => p.clone(),
                None => return Act::Go,
            },
        };
        let k = s.n;
        s.n += 1;
        if s.mode == Mode::Log {
            s.log.push(Ev { call, path: p, to: to.to_string(), mutates });
            return Act::Go;
        }
        let e = if mutates { ENOSPC } else { EIO };
        match s.mode {
            Mode::Once if k == s.at => {
                s.hit = true;
                Act::Fail(e)
            }
            Mode::Sticky if k >= s.at => {
                s.hit = true;
                Act::Fail(e)
            }
            Mode::Short if k == s.at && call == "write" => {
                s.hit = true;
                Act::Half
            }
            Mode::Short if k > s.at && s.hit && mutates => Act::Fail(e),
            Mode::Crash if k >= s.at => {
                s.hit = true;
                if mutates { Act::Fail(EIO) } else { Act::Go }
            }
            _ => Act::Go,
        }
    })
    .unwrap_or(Act::Go)
}
fn opened(fd: c_int, path: &str) {
    let _ = ST.try_with(|s| {
        if let Ok(mut g) = s.try_borrow_mut()
            && let Some(s) = g.as_mut()
        {
            if path.starts_with(&s.root) {
                s.fds.insert(fd, path.to_string());
            } else {
                s.fds.remove(&fd);
            }
        }
    });
}
fn err(e: c_int) -> c_long {
    unsafe { *__errno_location() = e };
    -1
}
fn s<'a>(p: *const c_char) -> std::borrow::Cow<'a, str> {
    unsafe { CStr::from_ptr(p) }.to_string_lossy()
}
fn armed() -> bool {
    ST.try_with(|s| s.try_borrow().map(|g| g.is_some()).unwrap_or(false)).unwrap_or(false)
}
unsafe fn do_open(dir: c_int, p: *const c_char, flags: c_int, mode: c_int) -> c_int {
    unsafe {
        if !armed() {
            return syscall(SYS_OPENAT, dir, p, flags, mode) as c_int;
        }
        let path = s(p).to_string();
        // whether the open itself changes storage
        let m = flags & O_TRUNC != 0 || flags & O_CREAT != 0;
        match act(if m { "create" } else { "open" }, -1, Some(&path), "", m) {
            Act::Fail(e) => err(e) as c_int,
            _ => {
                let fd = syscall(SYS_OPENAT, dir, p, flags, mode) as c_int;
                if fd >= 0 {
                    opened(fd, &path);
                }
                fd
            }
        }
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: c_int) -> c_int {
    unsafe { do_open(AT_FDCWD, p, flags, mode) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn openat64(d: c_int, p: *const c_char, flags: c_int, mode: c_int) -> c_int {
    unsafe { do_open(d, p, flags, mode) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn read(fd: c_int, b: *mut c_void, n: usize) -> isize {
    match act("read", fd, None, "", false) {
        Act::Fail(e) => err(e) as isize,
        _ => unsafe { syscall(SYS_READ, fd, b, n) as isize },
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn pread64(fd: c_int, b: *mut c_void, n: usize, o: i64) -> isize {
    match act("read", fd, None, "", false) {
        Act::Fail(e) => err(e) as isize,
        _ => unsafe { syscall(SYS_PREAD, fd, b, n, o) as isize },
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn write(fd: c_int, b: *const c_void, n: usize) -> isize {
    match act("write", fd, None, "", true) {
        Act::Fail(e) => err(e) as isize,
        Act::Half if n > 1 => unsafe { syscall(SYS_WRITE, fd, b, n / 2) as isize },
        Act::Half => err(ENOSPC) as isize,
        _ => unsafe { syscall(SYS_WRITE, fd, b, n) as isize },
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn pwrite64(fd: c_int, b: *const c_void, n: usize, o: i64) -> isize {
    match act("write", fd, None, "", true) {
        Act::Fail(e) => err(e) as isize,
        Act::Half if n > 1 => unsafe { syscall(SYS_PWRITE, fd, b, n / 2, o) as isize },
        Act::Half => err(ENOSPC) as isize,
        _ => unsafe { syscall(SYS_PWRITE, fd, b, n, o) as isize },
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn lseek64(fd: c_int, o: i64, w: c_int) -> i64 {
    match act("seek", fd, None, "", false) {
        Act::Fail(e) => err(e),
        _ => unsafe { syscall(SYS_LSEEK, fd, o, w) },
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn ftruncate64(fd: c_int, n: i64) -> c_int {
    match act("truncate", fd, None, "", true) {
        Act::Fail(e) => err(e) as c_int,
        _ => unsafe { syscall(SYS_FTRUNCATE, fd, n) as c_int },
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    match act("sync", fd, None, "", false) {
        Act::Fail(e) => err(e) as c_int,
        _ => unsafe { syscall(SYS_FSYNC, fd) as c_int },
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    match act("sync", fd, None, "", false) {
        Act::Fail(e) => err(e) as c_int,
        _ => unsafe { syscall(SYS_FDATASYNC, fd) as c_int },
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    let act = if armed() { act("rename", -1, Some(&s(a)), &s(b), true) } else { Act::Go };
    match act {
        Act::Fail(e) => err(e) as c_int,
        _ => unsafe { syscall(SYS_RENAME, a, b) as c_int },
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn unlink(a: *const c_char) -> c_int {
    let act = if armed() { act("unlink", -1, Some(&s(a)), "", true) } else { Act::Go };
    match act {
        Act::Fail(e) => err(e) as c_int,
        _ => unsafe { syscall(SYS_UNLINK, a) as c_int },
    }
}
