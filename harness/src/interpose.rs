//! Library calls seen, and perturbed, while code of the crate under test runs: what it prints, the environment
//! and the files it reads, the time it asks for. And delays between its basic blocks.
use libc::{c_char, c_int, c_void, size_t, ssize_t};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;

pub static PERTURB: AtomicBool = AtomicBool::new(false);
pub static PRINTED: AtomicU64 = AtomicU64::new(0);
pub static ENV_READ: AtomicU64 = AtomicU64::new(0);
pub static FILES_READ: AtomicU64 = AtomicU64::new(0);
pub static TIME_READ: AtomicU64 = AtomicU64::new(0);
static TEXT: Mutex<Vec<u8>> = Mutex::new(Vec::new());

pub static SEED: AtomicU64 = AtomicU64::new(0);
/// Some value for a variable, or none: the same one all along a run.
unsafe fn made_up(name: *const c_char) -> *mut c_char {
    let name = std::ffi::CStr::from_ptr(name).to_bytes();
    let mut h = SEED.load(Relaxed).wrapping_add(0x9E3779B97F4A7C15);
    let locale = name.starts_with(b"LANG") || name.starts_with(b"LC_");
    // all variables for the locale say the same
    for b in if locale { b"LANG" } else { name } {
        h = (h ^ *b as u64).wrapping_mul(0x100000001b3).rotate_left(17);
    }
    h ^= h >> 29;
    let v = if locale {
        [c"tr_TR.UTF-8", c"de_DE.UTF-8", c"C", c"POSIX", c"lt_LT.UTF-8", c"az_AZ", c"nl_NL@euro", c"fr", c"ja_JP.eucJP", c"tr"][h as usize % 10]
    } else {
        match h % 8 {
            0 => return std::ptr::null_mut(),
            1 => c"",
            2 => c"0",
            3 => c"false",
            4 => c"/nonexistent",
            5 => c"trace",
            _ => c"1",
        }
    };
    v.as_ptr() as *mut c_char
}

extern "C" {
    static environ: *const *mut c_char;
}

#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const c_char) -> *mut c_char {
    if crate::core::in_sut() {
        ENV_READ.fetch_add(1, Relaxed);
        if PERTURB.load(Relaxed) {
            return made_up(name);
        }
    }
    let n = libc::strlen(name);
    let mut p = environ;
    while !p.is_null() && !(*p).is_null() {
        if libc::strncmp(*p, name, n) == 0 && *(*p).add(n) == b'=' as c_char {
            return (*p).add(n + 1);
        }
        p = p.add(1);
    }
    std::ptr::null_mut()
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, t: *mut libc::timespec) -> c_int {
    let r = libc::syscall(libc::SYS_clock_gettime, id, t) as c_int;
    if r == 0 && crate::core::in_sut() {
        let n = TIME_READ.fetch_add(1, Relaxed);
        if PERTURB.load(Relaxed) {
            // another date, and a clock that runs faster: as on a busy machine
            let ms = n.wrapping_mul([0u64, 3, 70, 5_000, 100_000_000][(SEED.load(Relaxed) >> 3) as usize % 5]) % (1 << 40);
            (*t).tv_sec += 123_456_789 + (ms / 1000) as i64;
            (*t).tv_nsec += (ms % 1000) as i64 * 1_000_000;
            if (*t).tv_nsec >= 1_000_000_000 {
                (*t).tv_nsec -= 1_000_000_000;
                (*t).tv_sec += 1;
            }
        }
    }
    r
}

/// Some file: what code of the crate opens while the surroundings are perturbed, wherever it is (but for the kernel's and the
/// repository's own files, and those of the harness). The same one all along a run.
unsafe fn made_up_file(path: *const c_char, flags: c_int) -> Option<c_int> {
    if !crate::core::in_sut() {
        return None;
    }
    let p = std::ffi::CStr::from_ptr(path).to_bytes();
    let own = |d: &std::ffi::OsStr| {
        use std::os::unix::ffi::OsStrExt;
        p.starts_with(d.as_bytes())
    };
    if [&b"/proc"[..], b"/sys", b"/dev", b"/usr", b"/lib"].iter().any(|d| p.starts_with(d)) {
        return None;
    }
    FILES_READ.fetch_add(1, Relaxed);
    if !PERTURB.load(Relaxed) || flags & libc::O_ACCMODE != libc::O_RDONLY || crate::core::own_dirs().iter().any(|d| own(d.as_os_str())) {
        return None;
    }
    let mut h = SEED.load(Relaxed).wrapping_mul(0x9E3779B97F4A7C15);
    for b in p {
        h = (h ^ *b as u64).wrapping_mul(0x100000001b3).rotate_left(17);
    }
    h ^= h >> 29;
    let text: &[u8] = match h % 8 {
        0 => b"",
        1 => b"1\n",
        2 => b"k=m\na=e\nt=n\n",
        3 => b"\"k\" \"9\" \"9\" \"9\"\n\"a\" \"8\" \"8\" \"8\"\n",
        4 => b"true\n",
        5 => b"tr_TR.UTF-8\n",
        6 => b"\"a\" \"\" \"\" \"z\"\n",
        _ => {
            *libc::__errno_location() = libc::ENOENT;
            return Some(-1);
        }
    };
    let fd = libc::syscall(libc::SYS_memfd_create, c"made up".as_ptr(), libc::MFD_CLOEXEC) as c_int;
    if fd >= 0 {
        libc::syscall(libc::SYS_write, fd, text.as_ptr(), text.len());
        libc::lseek(fd, 0, libc::SEEK_SET);
    }
    Some(fd)
}
/// (the third argument counts with O_CREAT only)
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: libc::mode_t) -> c_int {
    made_up_file(path, flags).unwrap_or_else(|| libc::syscall(libc::SYS_openat, libc::AT_FDCWD, path, flags | libc::O_LARGEFILE, mode) as c_int)
}
#[no_mangle]
#[allow(invalid_runtime_symbol_definitions)]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: libc::mode_t) -> c_int {
    open64(path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn getpid() -> libc::pid_t {
    let p = libc::syscall(libc::SYS_getpid) as libc::pid_t;
    if crate::core::in_sut() {
        FILES_READ.fetch_add(1, Relaxed);
        if PERTURB.load(Relaxed) {
            return 2 + (SEED.load(Relaxed) % 30000) as libc::pid_t;
        }
    }
    p
}

fn printed(fd: c_int, b: &[u8]) {
    if (fd == 1 || fd == 2) && crate::core::in_sut() {
        PRINTED.fetch_add(1, Relaxed);
        if let Ok(mut t) = TEXT.try_lock() {
            if t.len() < 200 {
                t.extend_from_slice(&b[..b.len().min(200)]);
            }
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, b: *const c_void, n: size_t) -> ssize_t {
    if fd == 1 || fd == 2 {
        printed(fd, std::slice::from_raw_parts(b as *const u8, n));
    }
    libc::syscall(libc::SYS_write, fd, b, n) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, v: *const libc::iovec, n: c_int) -> ssize_t {
    if fd == 1 || fd == 2 {
        for i in 0..n as usize {
            let v = &*v.add(i);
            printed(fd, std::slice::from_raw_parts(v.iov_base as *const u8, v.iov_len));
        }
    }
    libc::syscall(libc::SYS_writev, fd, v, n) as ssize_t
}
/// What was printed by the crate under test until now.
pub fn printed_text() -> Option<String> {
    if PRINTED.load(Relaxed) == 0 {
        return None;
    }
    Some(String::from_utf8_lossy(&TEXT.lock().unwrap()).into_owned())
}

// ---------------------------------------------------------------- schedules
static CHAOS: AtomicBool = AtomicBool::new(false);
static LAST: AtomicU64 = AtomicU64::new(0);
static SWITCHES: AtomicU64 = AtomicU64::new(0);
static HASH: AtomicU64 = AtomicU64::new(0);
thread_local! {
    static ME: Cell<u64> = const { Cell::new(0) };
    static RND: Cell<u64> = const { Cell::new(0) };
}
pub fn chaos(on: bool) {
    CHAOS.store(on, Relaxed);
    if on {
        SWITCHES.store(0, Relaxed);
        HASH.store(0, Relaxed);
    }
}
pub fn thread(id: u64, seed: u64) {
    ME.with(|m| m.set(id));
    RND.with(|r| r.set(seed.wrapping_mul(0x9E3779B97F4A7C15) | 1));
}
/// (times another thread went on, hash of the order in which the threads went on)
pub fn interleaving() -> (u64, u64) {
    (SWITCHES.load(Relaxed), HASH.load(Relaxed))
}
#[inline]
pub fn edge(guard: u32) {
    if !CHAOS.load(Relaxed) {
        return;
    }
    let me = ME.with(|m| m.get());
    if me == 0 {
        return;
    }
    if LAST.load(Relaxed) != me {
        LAST.store(me, Relaxed);
        SWITCHES.fetch_add(1, Relaxed);
        HASH.store(HASH.load(Relaxed).rotate_left(5).wrapping_mul(0x100000001b3) ^ (me << 32 | guard as u64), Relaxed);
    }
    let x = RND.with(|r| {
        let mut x = r.get();
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        r.set(x);
        x
    });
    match x >> 40 & 1023 {
        0..=7 => std::thread::yield_now(),
        8..=15 => {
            for _ in 0..(x & 1023) {
                std::hint::spin_loop();
            }
        }
        16 => std::thread::sleep(std::time::Duration::from_micros(x & 63)),
        _ => {}
    }
}
/// One processor only.
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: libc::pid_t, n: size_t, set: *mut libc::cpu_set_t) -> c_int {
    let r = libc::syscall(libc::SYS_sched_getaffinity, pid, n, set) as c_int;
    if r < 0 {
        return r;
    }
    // what the kernel doesn't fill
    let b = set as *mut u8;
    for i in r as usize..n {
        *b.add(i) = 0;
    }
    if crate::core::in_sut() {
        FILES_READ.fetch_add(1, Relaxed);
        if PERTURB.load(Relaxed) && SEED.load(Relaxed) % 2 == 0 {
            let mut found = false;
            for i in 0..n * 8 {
                let bit = 1 << (i % 8);
                if *b.add(i / 8) & bit != 0 {
                    if found {
                        *b.add(i / 8) &= !bit;
                    }
                    found = true;
                }
            }
        }
    }
    0
}
