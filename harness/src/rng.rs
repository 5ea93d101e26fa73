//! Environment model of the system random generator: `syscall(SYS_getrandom)` and `getrandom(2)` are
//! interposed. Modes: `real`, `seed:N` (deterministic), `fail:K:N` (deterministic, K-th draw of every
//! operation fails with EIO), `eintr:N` (every draw first interrupted, then delivered in short pieces).
use libc::{c_int, c_long, c_uint, c_void, size_t, ssize_t};
use std::sync::Mutex;

#[derive(Clone, Copy, PartialEq)]
enum Mode {
    Real,
    Seed,
    Fail(usize),
    Eintr,
    /// every draw delivers the same byte: a generator that repeats itself
    Const(u8),
}

struct St {
    mode: Mode,
    ctr: u64,
    active: bool,
    calls: usize,
    flip: bool,
    draws: Vec<i64>,
    drawn: Vec<u8>,
}

static ST: Mutex<St> = Mutex::new(St {
    mode: Mode::Real,
    ctr: 0,
    active: false,
    calls: 0,
    flip: false,
    draws: Vec::new(),
    drawn: Vec::new(),
});

pub fn set_mode(m: &str) {
    let mut s = ST.lock().unwrap();
    let p: Vec<&str> = m.split(':').collect();
    match p[0] {
        "real" => s.mode = Mode::Real,
        "seed" => {
            s.mode = Mode::Seed;
            s.ctr = p[1].parse::<u64>().unwrap().wrapping_mul(0x9E37_79B9_7F4A_7C15) << 20;
        }
        "fail" => {
            s.mode = Mode::Fail(p[1].parse().unwrap());
            s.ctr = p[2].parse::<u64>().unwrap().wrapping_mul(0x9E37_79B9_7F4A_7C15) << 20;
        }
        "const" => s.mode = Mode::Const(p[1].parse().unwrap()),
        "eintr" => {
            s.mode = Mode::Eintr;
            s.ctr = p[1].parse::<u64>().unwrap().wrapping_mul(0x9E37_79B9_7F4A_7C15) << 20;
        }
        _ => panic!("rng mode"),
    }
}

/// (also switches the recording on)
pub fn start() {
    let mut s = ST.lock().unwrap();
    s.active = true;
    s.calls = 0;
    s.flip = false;
    s.draws.clear();
    s.drawn.clear();
}

/// (lengths of the draws, -1 for a failed one; the bytes delivered, where they are ours)
pub fn stop() -> (Vec<i64>, Vec<u8>) {
    let mut s = ST.lock().unwrap();
    s.active = false;
    (std::mem::take(&mut s.draws), std::mem::take(&mut s.drawn))
}

fn splitmix(x: u64) -> u64 {
    let mut z = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

unsafe fn set_errno(e: c_int) {
    *libc::__errno_location() = e;
}

unsafe fn raw_syscall(n: c_long, a: [usize; 6]) -> isize {
    let r: isize;
    std::arch::asm!("syscall", inlateout("rax") n as isize => r,
        in("rdi") a[0], in("rsi") a[1], in("rdx") a[2], in("r10") a[3], in("r8") a[4], in("r9") a[5],
        lateout("rcx") _, lateout("r11") _);
    r
}

unsafe fn emulate(buf: *mut u8, len: usize) -> Option<isize> {
    let mut s = match ST.lock() {
        Ok(s) => s,
        Err(e) => e.into_inner(),
    };
    if s.mode == Mode::Real || !s.active {
        if s.active && len > 0 {
            s.draws.push(len as i64);
        }
        return None;
    }
    if len == 0 {
        return Some(0);
    }
    s.calls += 1;
    if let Mode::Fail(k) = s.mode {
        if s.calls >= k {
            s.draws.push(-1);
            return Some(-(libc::EIO as isize));
        }
    }
    let mut n = len;
    if s.mode == Mode::Eintr {
        s.flip = !s.flip;
        if s.flip {
            return Some(-(libc::EINTR as isize));
        }
        n = std::cmp::min(len, 7);
    }
    let out = std::slice::from_raw_parts_mut(buf, n);
    if let Mode::Const(c) = s.mode {
        out.fill(c);
    }
    let mut i = if let Mode::Const(_) = s.mode { n } else { 0 };
    while i < n {
        let w = splitmix(s.ctr).to_le_bytes();
        s.ctr = s.ctr.wrapping_add(1);
        let k = std::cmp::min(8, n - i);
        out[i..i + k].copy_from_slice(&w[..k]);
        i += k;
    }
    s.draws.push(n as i64);
    if s.drawn.len() < 4096 {
        s.drawn.extend_from_slice(out);
    }
    Some(n as isize)
}

unsafe fn finish(r: isize) -> isize {
    if r < 0 && r > -4096 {
        set_errno(-r as c_int);
        -1
    } else {
        r
    }
}

/// # Safety
/// replacement of libc's syscall(2) wrapper
#[no_mangle]
pub unsafe extern "C" fn syscall(
    n: c_long,
    a: usize,
    b: usize,
    c: usize,
    d: usize,
    e: usize,
    f: usize,
) -> c_long {
    if n == libc::SYS_getrandom {
        if b > 0 {
            crate::turn::draw();
        }
        if let Some(r) = emulate(a as *mut u8, b) {
            return finish(r) as c_long;
        }
    }
    finish(raw_syscall(n, [a, b, c, d, e, f])) as c_long
}

/// # Safety
/// replacement of libc's getrandom(2) wrapper
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: size_t, flags: c_uint) -> ssize_t {
    if len > 0 {
        crate::turn::draw();
    }
    if let Some(r) = emulate(buf as *mut u8, len) {
        return finish(r);
    }
    finish(raw_syscall(
        libc::SYS_getrandom,
        [buf as usize, len, flags as usize, 0, 0, 0],
    ))
}

/// the wall clock, in seconds, that the process sees; 0: the real one
pub static CLOCK: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(0);

/// # Safety
/// replacement of libc's clock_gettime(2) wrapper
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: c_int, ts: *mut libc::timespec) -> c_int {
    let at = CLOCK.load(std::sync::atomic::Ordering::SeqCst);
    if at != 0 && (clk == libc::CLOCK_REALTIME || clk == libc::CLOCK_REALTIME_COARSE) {
        (*ts).tv_sec = at;
        (*ts).tv_nsec = 999_999_999;
        return 0;
    }
    finish(raw_syscall(libc::SYS_clock_gettime, [clk as usize, ts as usize, 0, 0, 0, 0])) as c_int
}
