//! Everything outside the process that the code under test could reach besides
//! entropy and clocks: files, sockets, other processes, the environment and its
//! standard streams. Inside a node nothing of it reaches the machine; it is
//! recorded, because the operations have no business there.
// on x86-64 a variadic int argument is passed as a plain one
#![allow(invalid_runtime_symbol_definitions)]
use crate::node::hex;
use num_bigint::BigUint;
use std::ffi::{c_char, c_void, CStr};
use std::sync::atomic::{AtomicI32, AtomicU32, Ordering::Relaxed};
use std::sync::Mutex;

static ACTS: Mutex<Vec<String>> = Mutex::new(Vec::new());
static STREAM: AtomicI32 = AtomicI32::new(-1);
static RANDFD: AtomicI32 = AtomicI32::new(-1);
/// what the process sees of its environment
static ENV: AtomicU32 = AtomicU32::new(0);
pub static ENV_READS: AtomicU32 = AtomicU32::new(0);

pub fn act(s: &str) {
    if let Ok(mut a) = ACTS.lock() {
        if a.len() < 4 {
            a.push(s.chars().map(|c| if c.is_ascii_graphic() && c != ',' && c != '#' && c != '~' { c } else { '_' }).take(60).collect());
        }
    }
}

fn on() -> bool {
    crate::seam::in_node()
}

/// standard output and error of a node go to a memory file
pub fn enter_node(env: u32) {
    ENV.store(env, Relaxed);
    unsafe {
        let fd = libc::memfd_create(c"streams".as_ptr(), libc::MFD_CLOEXEC);
        if fd >= 0 {
            libc::dup2(fd, 1);
            libc::dup2(fd, 2);
            STREAM.store(fd, Relaxed);
        }
    }
}

/// what the operations since the last call did outside the process
pub fn take_acts() -> Vec<String> {
    let mut v = ACTS.lock().map(|mut a| std::mem::take(&mut *a)).unwrap_or_default();
    let fd = STREAM.load(Relaxed);
    if fd >= 0 {
        unsafe {
            let n = libc::lseek(fd, 0, libc::SEEK_END);
            if n > 0 {
                v.push(format!("wrote_{n}_bytes_to_its_output"));
                libc::ftruncate(fd, 0);
                libc::lseek(fd, 0, libc::SEEK_SET);
            }
        }
    }
    v
}

/// (threads, open files) of this process
pub fn census() -> (usize, usize) {
    let n = |d: &str| std::fs::read_dir(d).map(|x| x.count()).unwrap_or(0);
    (n("/proc/self/task"), n("/proc/self/fd"))
}

unsafe fn err(e: i32) -> i32 {
    *libc::__errno_location() = e;
    -1
}

unsafe fn ret(r: i64) -> i64 {
    if r < 0 {
        *libc::__errno_location() = -r as i32;
        return -1;
    }
    r
}

unsafe fn path(p: *const c_char) -> String {
    if p.is_null() {
        return String::new();
    }
    CStr::from_ptr(p).to_string_lossy().into_owned()
}

unsafe fn do_open(dir: i32, p: *const c_char, flags: i32, mode: u32) -> i32 {
    if on() {
        let s = path(p);
        if s == "/dev/urandom" || s == "/dev/random" {
            let fd = libc::memfd_create(c"random".as_ptr(), libc::MFD_CLOEXEC);
            RANDFD.store(fd, Relaxed);
            return fd;
        }
        if flags & libc::O_ACCMODE != libc::O_RDONLY || flags & (libc::O_CREAT | libc::O_TRUNC) != 0 {
            act(&format!("opened {s} for writing"));
            return libc::memfd_create(c"contained".as_ptr(), libc::MFD_CLOEXEC);
        }
    }
    ret(crate::seam::raw(libc::SYS_openat, [dir as i64, p as i64, flags as i64, mode as i64, 0, 0])) as i32
}

#[no_mangle]
pub unsafe extern "C" fn open(p: *const c_char, flags: i32, mode: u32) -> i32 {
    do_open(libc::AT_FDCWD, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, flags: i32, mode: u32) -> i32 {
    do_open(libc::AT_FDCWD, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(d: i32, p: *const c_char, flags: i32, mode: u32) -> i32 {
    do_open(d, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: i32, p: *const c_char, flags: i32, mode: u32) -> i32 {
    do_open(d, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn creat(p: *const c_char, mode: u32) -> i32 {
    do_open(libc::AT_FDCWD, p, libc::O_CREAT | libc::O_WRONLY | libc::O_TRUNC, mode)
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, b: *mut c_void, n: usize) -> isize {
    if on() && fd >= 0 && fd == RANDFD.load(Relaxed) {
        return crate::seam::getrandom(b as *mut u8, n, 0);
    }
    ret(crate::seam::raw(libc::SYS_read, [fd as i64, b as i64, n as i64, 0, 0, 0])) as isize
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: i32) -> i32 {
    if fd >= 0 && fd == RANDFD.load(Relaxed) {
        RANDFD.store(-1, Relaxed);
    }
    ret(crate::seam::raw(libc::SYS_close, [fd as i64, 0, 0, 0, 0, 0])) as i32
}
#[no_mangle]
pub unsafe extern "C" fn socket(d: i32, t: i32, p: i32) -> i32 {
    if on() {
        act("opened a socket");
        return err(libc::EACCES);
    }
    ret(crate::seam::raw(libc::SYS_socket, [d as i64, t as i64, p as i64, 0, 0, 0])) as i32
}
macro_rules! refuse_path {
    ($($f:ident $nr:ident $what:literal;)*) => {$(
        #[no_mangle]
        pub unsafe extern "C" fn $f(p: *const c_char, b: i64, c: i64) -> i32 {
            if on() {
                act(&format!("{} {}", $what, path(p)));
                return err(libc::EACCES);
            }
            ret(crate::seam::raw(libc::$nr, [p as i64, b, c, 0, 0, 0])) as i32
        }
    )*};
}
refuse_path! {
    unlink SYS_unlink "removed";
    rmdir SYS_rmdir "removed";
    mkdir SYS_mkdir "created";
    rename SYS_rename "renamed";
    link SYS_link "linked";
    symlink SYS_symlink "linked";
    chmod SYS_chmod "changed";
    truncate SYS_truncate "truncated";
    truncate64 SYS_truncate "truncated";
    chdir SYS_chdir "changed its directory to";
}
#[no_mangle]
pub unsafe extern "C" fn execve(p: *const c_char, a: i64, e: i64) -> i32 {
    if on() {
        act(&format!("executed {}", path(p)));
        return err(libc::EACCES);
    }
    ret(crate::seam::raw(libc::SYS_execve, [p as i64, a, e, 0, 0, 0])) as i32
}
#[no_mangle]
pub unsafe extern "C" fn execvp(p: *const c_char, a: *const *const c_char) -> i32 {
    if on() {
        act(&format!("executed {}", path(p)));
        return err(libc::EACCES);
    }
    libc::execvpe(p, a, environ)
}
extern "C" {
    static environ: *const *const c_char;
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawnp(
    _: i64, p: *const c_char, _: i64, _: i64, _: i64, _: i64,
) -> i32 {
    act(&format!("executed {}", path(p)));
    libc::EACCES
}
#[no_mangle]
pub unsafe extern "C" fn kill(pid: i32, sig: i32) -> i32 {
    if on() {
        act(&format!("sent signal {sig}"));
        return err(libc::EPERM);
    }
    ret(crate::seam::raw(libc::SYS_kill, [pid as i64, sig as i64, 0, 0, 0, 0])) as i32
}

/// Variables the runtime itself looks at are left unset.
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const c_char) -> *const c_char {
    let n = path(name);
    if on() {
        let runtime = ["RUST_", "LD_", "MALLOC", "GLIBC", "TZ", "LANG", "LC_", "NLS", "LOCPATH"];
        if runtime.iter().any(|p| n.starts_with(p)) {
            return std::ptr::null();
        }
        ENV_READS.fetch_add(1, Relaxed);
        return match ENV.load(Relaxed) % 6 {
            0 => std::ptr::null(),
            1 => c"1".as_ptr(),
            2 => c"".as_ptr(),
            3 => c"/nonexistent".as_ptr(),
            4 => c"true".as_ptr(),
            _ => c"0".as_ptr(),
        };
    }
    let mut e = environ;
    while !e.is_null() && !(*e).is_null() {
        let s = CStr::from_ptr(*e).to_bytes();
        if s.len() > n.len() && s[n.len()] == b'=' && &s[..n.len()] == n.as_bytes() {
            return (*e).add(n.len() + 1);
        }
        e = e.add(1);
    }
    std::ptr::null()
}

/// how many processors the process believes it has
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: i32, n: usize, set: *mut u8) -> i32 {
    if on() {
        std::ptr::write_bytes(set, 0, n);
        let cpus = [1u32, 2, 8, 3, 1, 16][(ENV.load(Relaxed) % 6) as usize];
        *(set as *mut u32) = ((1u64 << cpus) - 1) as u32;
        return 0;
    }
    let r = crate::seam::raw(libc::SYS_sched_getaffinity, [pid as i64, n as i64, set as i64, 0, 0, 0]);
    if r < 0 {
        return err(-r as i32);
    }
    0
}

// ------------------------------------------------------------ secrets in messages
fn varied(b: &[u8]) -> bool {
    b.iter().collect::<std::collections::BTreeSet<_>>().len() >= 4
}

/// does the text show a part of one of these secrets (little-endian bytes)?
/// Looked for: 16 consecutive digits of it in decimal or hexadecimal, 6
/// consecutive bytes as numbers, one of its 32- or 64-bit words as a number.
pub fn reveals(text: &str, secrets: &[Vec<u8>]) -> Option<String> {
    if text.len() < 6 {
        return None;
    }
    let low = text.to_lowercase();
    let nums: Vec<u128> = low
        .split(|c: char| !c.is_ascii_digit())
        .filter(|s| !s.is_empty() && s.len() < 30)
        .filter_map(|s| s.parse().ok())
        .collect();
    let digits: Vec<&str> =
        low.split(|c: char| !c.is_ascii_hexdigit()).filter(|s| s.len() >= 16).collect();
    let words: Vec<u128> = low
        .split(|c: char| !c.is_ascii_alphanumeric())
        .filter_map(|s| s.strip_prefix("0x"))
        .filter_map(|s| u128::from_str_radix(s, 16).ok())
        .chain(nums.iter().copied())
        .filter(|x| *x >= 1 << 24)
        .collect();
    // the same, in the other base: lists of one or two hexadecimal digits
    let pairs: Vec<u128> = low
        .split(|c: char| !c.is_ascii_alphanumeric())
        .filter(|s| !s.is_empty())
        .map(|s| s.strip_prefix("0x").unwrap_or(s))
        .map(|s| if s.len() <= 2 { u128::from_str_radix(s, 16).unwrap_or(999) } else { 999 })
        .collect();
    for s in secrets.iter().filter(|s| s.len() >= 8) {
        if !digits.is_empty() {
            let big = BigUint::from_bytes_le(s);
            for form in [hex(s), big.to_str_radix(10), big.to_str_radix(16)] {
                for d in &digits {
                    for w in d.as_bytes().windows(16) {
                        let w = std::str::from_utf8(w).unwrap_or("");
                        if varied(w.as_bytes()) && form.contains(w) {
                            return Some(format!("the digits {w}"));
                        }
                    }
                }
            }
        }
        for w in &words {
            for (n, step) in [(4usize, 4usize), (8, 8)] {
                for c in s.chunks_exact(step).filter(|c| varied(c)) {
                    let mut b = [0u8; 16];
                    b[..n].copy_from_slice(c);
                    if u128::from_le_bytes(b) == *w {
                        return Some(format!("the word {w}"));
                    }
                }
            }
        }
        for w in nums.windows(6).chain(pairs.windows(6)) {
            if w.iter().all(|x| *x < 256) {
                let mut b: Vec<u8> = w.iter().map(|x| *x as u8).collect();
                for _ in 0..2 {
                    if varied(&b) && s.windows(6).any(|x| x == b) {
                        return Some(format!("the bytes {b:?}"));
                    }
                    b.reverse();
                }
            }
        }
    }
    None
}
