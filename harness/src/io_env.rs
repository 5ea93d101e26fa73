//! Environment model of the reader, the writers and the standard streams, following a schedule.
use std::fs::File;
use std::io::{self, Error, ErrorKind, Read, Seek, SeekFrom, Write};
use std::os::fd::{AsRawFd, RawFd};

fn splitmix(x: u64) -> u64 {
    let mut z = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

/// Data descriptor: parts joined by '+', then edits. `hXX..` literal hex; `pSEED:LEN` pseudo-random
/// bytes; `zB:LEN` LEN times byte B; edits `^POS:XX` (xor), applied at the end.
pub fn expand(d: &str) -> Vec<u8> {
    let mut it = d.split('^');
    let mut v = vec![];
    for p in it.next().unwrap_or("").split('+') {
        if p.is_empty() {
            continue;
        }
        let (k, r) = p.split_at(1);
        match k {
            "h" => v.extend(crate::unhex(r)),
            "p" => {
                let (s, l) = r.split_once(':').unwrap();
                let (s, l): (u64, usize) = (s.parse().unwrap(), l.parse().unwrap());
                let base = s.wrapping_mul(0xD134_2543_DE82_EF95);
                for i in 0..l {
                    let w = splitmix(base.wrapping_add((i / 8) as u64));
                    v.push((w >> (8 * (i % 8))) as u8);
                }
            }
            "z" => {
                let (b, l) = r.split_once(':').unwrap();
                let (b, l): (u8, usize) = (b.parse().unwrap(), l.parse().unwrap());
                v.extend(std::iter::repeat(b).take(l));
            }
            _ => panic!("data descriptor"),
        }
    }
    for e in it {
        let (p, x) = e.split_once(':').unwrap();
        let p: usize = p.parse().unwrap();
        v[p] ^= u8::from_str_radix(x, 16).unwrap();
    }
    v
}

/// The data of a stream: in memory, or (descriptor `ZB:LEN`, then edits) too many for that: LEN times
/// byte B but for the edits.
pub enum Data {
    Held(Vec<u8>),
    Sparse { fill: u8, len: u64, edits: Vec<(u64, u8)> },
}

impl Data {
    pub fn new(d: &str) -> Data {
        if !d.starts_with('Z') {
            return Data::Held(expand(d));
        }
        let mut it = d[1..].split('^');
        let (b, l) = it.next().unwrap().split_once(':').unwrap();
        let edits = it
            .map(|e| {
                let (p, x) = e.split_once(':').unwrap();
                (p.parse().unwrap(), u8::from_str_radix(x, 16).unwrap())
            })
            .collect();
        Data::Sparse { fill: b.parse().unwrap(), len: l.parse().unwrap(), edits }
    }
    fn len(&self) -> u64 {
        match self {
            Data::Held(v) => v.len() as u64,
            Data::Sparse { len, .. } => *len,
        }
    }
    fn copy(&self, pos: u64, to: &mut [u8]) {
        match self {
            Data::Held(v) => to.copy_from_slice(&v[pos as usize..pos as usize + to.len()]),
            Data::Sparse { fill, edits, .. } => {
                to.fill(*fill);
                for (p, x) in edits {
                    if *p >= pos && *p - pos < to.len() as u64 {
                        to[(*p - pos) as usize] ^= x;
                    }
                }
            }
        }
    }
}

pub fn fingerprint(b: &[u8]) -> String {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for x in b {
        h ^= *x as u64;
        h = h.wrapping_mul(0x0000_0100_0000_01b3);
    }
    format!("{h:016x}")
}

/// An injected failure is each time another one: no kind of error means anything else than failure.
fn failure(what: &'static str) -> Error {
    use std::sync::atomic::{AtomicUsize, Ordering};
    static N: AtomicUsize = AtomicUsize::new(0);
    let kinds = [
        ErrorKind::Other,
        ErrorKind::UnexpectedEof,
        ErrorKind::BrokenPipe,
        ErrorKind::WouldBlock,
        ErrorKind::TimedOut,
        ErrorKind::WriteZero,
        ErrorKind::InvalidData,
        ErrorKind::ConnectionReset,
        ErrorKind::NotFound,
        ErrorKind::PermissionDenied,
        ErrorKind::InvalidInput,
        ErrorKind::OutOfMemory,
        ErrorKind::ConnectionAborted,
        ErrorKind::Unsupported,
        ErrorKind::AlreadyExists,
        ErrorKind::NotConnected,
    ];
    let errnos = [libc::EIO, libc::ENOSPC, libc::EPIPE, libc::EBADF, libc::EAGAIN, libc::EINVAL, libc::ENXIO];
    let n = N.fetch_add(1, Ordering::Relaxed) % (kinds.len() + errnos.len());
    if n < kinds.len() {
        Error::new(kinds[n], what)
    } else {
        Error::from_raw_os_error(errnos[n - kinds.len()])
    }
}

/// Reader schedule: `steps` or `steps|steps` (second part: after the first end of file, i.e. the
/// output pass), steps separated by ','. `rN`: deliver at most N bytes; `*rN`: from now on at most N
/// bytes per read; `i`: interrupted; `e`: fail once; `E`: fail from now on; `s`: the next seek fails;
/// `@N`: from now on deliver no more than the first N bytes of the data, and fail after them.
pub struct SchedReader<'a> {
    data: &'a Data,
    /// how much there is before the data, and what was read of it
    base: u64,
    before: u64,
    pos: u64,
    phases: Vec<Vec<String>>,
    phase: usize,
    idx: usize,
    cap: usize,
    stop: u64,
    dead: bool,
    eof_seen: bool,
    calls: usize,
    log: Vec<(String, i64)>,
}

impl<'a> SchedReader<'a> {
    pub fn new(data: &'a Data, base: u64, start: u64, sched: &str) -> Self {
        let phases = sched
            .split('|')
            .map(|p| {
                p.split(',')
                    .filter(|s| !s.is_empty())
                    .map(|s| s.to_string())
                    .collect()
            })
            .collect();
        SchedReader {
            data,
            base,
            before: 0,
            pos: base + start,
            phases,
            phase: 0,
            idx: 0,
            cap: usize::MAX,
            stop: u64::MAX,
            dead: false,
            eof_seen: false,
            calls: 0,
            log: vec![],
        }
    }
    /// successive successful reads are merged: the log says how much was delivered between two other
    /// events, not in how many pieces
    fn note(&mut self, k: &str, n: i64) {
        if let Some(l) = self.log.last_mut() {
            if k == "r" && n > 0 && l.0 == "r" && l.1 > 0 {
                l.1 += n;
                return;
            }
        }
        self.log.push((k.to_string(), n));
        if self.log.len() > 2000 {
            // reads for ever: report it as a hang would be
            panic!("endless reading");
        }
    }
    pub fn log_json(&self) -> String {
        let v: Vec<String> =
            self.log.iter().map(|(k, n)| format!("{{\"k\":\"{k}\",\"n\":{}}}", n.clamp(&-0x7fff_ffff, &0x7fff_ffff))).collect();
        format!("[{}]", v.join(","))
    }
    fn step(&mut self) -> Option<String> {
        let s = self.phases.get(self.phase)?.get(self.idx)?.clone();
        self.idx += 1;
        Some(s)
    }
}

impl Read for SchedReader<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if self.dead {
            self.note("e", 0);
            return Err(failure("injected failure"));
        }
        let mut want = self.cap;
        if self.calls > 0 {
            crate::turn::here("read");
        }
        self.calls += 1;
        match self.step().as_deref() {
            None => {}
            Some("i") => {
                self.note("i", 0);
                return Err(Error::new(ErrorKind::Interrupted, "injected interruption"));
            }
            Some("e") => {
                self.note("e", 0);
                return Err(failure("injected failure"));
            }
            Some("w") => {
                self.note("e", 0);
                return Err(Error::new(ErrorKind::WouldBlock, "injected failure"));
            }
            Some("u") => {
                self.note("e", 0);
                return Err(Error::new(ErrorKind::UnexpectedEof, "injected failure"));
            }
            Some("E") => {
                self.dead = true;
                self.note("e", 0);
                return Err(failure("injected failure"));
            }
            Some(s) => {
                if let Some(n) = s.strip_prefix("*r") {
                    self.cap = n.parse().unwrap();
                    want = self.cap;
                } else if let Some(n) = s.strip_prefix('r') {
                    want = n.parse().unwrap();
                } else if let Some(n) = s.strip_prefix('@') {
                    self.stop = n.parse().unwrap();
                } else {
                    panic!("reader step")
                }
            }
        }
        if self.pos < self.base {
            // nobody has to be here: a taste of what is before the data is enough
            let n = std::cmp::min(std::cmp::min(want, buf.len()) as u64, std::cmp::min(self.base - self.pos, 100_000 - self.before));
            buf[..n as usize].fill(b'#');
            self.pos += n;
            self.before += n;
            self.note("r", n as i64);
            return Ok(n as usize);
        }
        let p = std::cmp::min(self.pos - self.base, self.data.len());
        if p >= self.stop {
            self.dead = true;
            self.note("e", 0);
            return Err(failure("injected failure"));
        }
        let left = std::cmp::min(self.data.len(), self.stop) - p;
        let n = std::cmp::min(std::cmp::min(want, buf.len()) as u64, left) as usize;
        self.data.copy(p, &mut buf[..n]);
        self.pos += n as u64;
        if n == 0 && !buf.is_empty() {
            self.eof_seen = true;
        }
        self.note(if buf.is_empty() { "b" } else { "r" }, n as i64);
        Ok(n)
    }
}

impl Seek for SchedReader<'_> {
    fn seek(&mut self, s: SeekFrom) -> io::Result<u64> {
        if self.eof_seen && self.phase == 0 {
            self.phase = 1;
            self.idx = 0;
            self.cap = usize::MAX;
        }
        if self.phases.get(self.phase).and_then(|p| p.get(self.idx)).map(|s| s == "s") == Some(true) {
            self.idx += 1;
            self.note("se", 0);
            return Err(failure("injected seek failure"));
        }
        let n = match s {
            SeekFrom::Start(n) => n as i128,
            SeekFrom::End(n) => (self.base + self.data.len()) as i128 + n as i128,
            SeekFrom::Current(n) => self.pos as i128 + n as i128,
        };
        if n < 0 {
            return Err(Error::new(ErrorKind::InvalidInput, "negative seek"));
        }
        if n as u64 != self.pos {
            self.note("s", (n - self.base as i128) as i64);
        }
        self.pos = n as u64;
        Ok(self.pos)
    }
}

/// Writer schedule: steps separated by ','; `wN` accept at most N bytes, `*wN` from now on, `i`
/// interrupted, `e` fail, `z` accept nothing (write zero), `fe`/`fi` the next flush fails or is
/// interrupted (consumed by flush calls only). Everything else succeeds in full.
pub struct FaultyWriter {
    pub data: Vec<u8>,
    wsteps: Vec<String>,
    fsteps: Vec<String>,
    wi: usize,
    fi: usize,
    cap: usize,
    log: Vec<String>,
}

impl FaultyWriter {
    pub fn new(s: &str, _n: usize) -> Self {
        let all: Vec<String> = s.split(',').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect();
        FaultyWriter {
            data: vec![],
            fsteps: all.iter().filter(|x| x.starts_with('f')).cloned().collect(),
            wsteps: all.into_iter().filter(|x| !x.starts_with('f')).collect(),
            wi: 0,
            fi: 0,
            cap: usize::MAX,
            log: vec![],
        }
    }
    fn note(&mut self, k: &str, n: i64) {
        self.log.push(format!("{{\"k\":\"{k}\",\"n\":{n}}}"));
    }
    pub fn log_json(&self) -> String {
        format!("[{}]", self.log.join(","))
    }
}

impl Write for FaultyWriter {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        crate::turn::here("write");
        let st = self.wsteps.get(self.wi).cloned();
        self.wi += 1;
        let mut cap = self.cap;
        match st.as_deref() {
            None => {}
            Some("i") => {
                self.note("i", 0);
                return Err(Error::new(ErrorKind::Interrupted, "injected interruption"));
            }
            Some("e") => {
                self.note("e", 0);
                return Err(failure("injected write failure"));
            }
            Some("z") => cap = 0,
            Some(s) => {
                if let Some(n) = s.strip_prefix("*w") {
                    self.cap = n.parse().unwrap();
                    cap = self.cap;
                } else if let Some(n) = s.strip_prefix('w') {
                    cap = n.parse().unwrap();
                } else {
                    panic!("writer step")
                }
            }
        }
        let n = std::cmp::min(cap, b.len());
        self.data.extend_from_slice(&b[..n]);
        self.note("w", n as i64);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        let st = self.fsteps.get(self.fi).cloned();
        self.fi += 1;
        match st.as_deref() {
            Some("fe") => {
                self.note("fe", 0);
                Err(failure("injected flush failure"))
            }
            Some("fi") => {
                self.note("fi", 0);
                Err(Error::new(ErrorKind::Interrupted, "injected flush interruption"))
            }
            _ => {
                self.note("f", 0);
                Ok(())
            }
        }
    }
}

/// Redirects file descriptors 1 and 2 to files while an operation runs.
pub struct Capture {
    out: File,
    err: File,
    full: File,
    pipe_w: RawFd,
    diverted: bool,
    saved_out: RawFd,
    saved_err: RawFd,
}

fn slurp(f: &mut File) -> Vec<u8> {
    let mut v = vec![];
    f.seek(SeekFrom::Start(0)).unwrap();
    f.read_to_end(&mut v).unwrap();
    v
}

impl Capture {
    pub fn new(dir: &str) -> Capture {
        let open = |n: &str| {
            File::options()
                .read(true)
                .write(true)
                .create(true)
                .truncate(true)
                .open(format!("{dir}/{n}"))
                .unwrap()
        };
        unsafe {
            let mut p = [0 as RawFd; 2];
            assert!(libc::pipe2(p.as_mut_ptr(), libc::O_CLOEXEC) == 0);
            libc::close(p[0]); // a pipe nobody reads
            Capture {
                full: File::options().write(true).open("/dev/full").unwrap(),
                pipe_w: p[1],
                diverted: false,
                out: open("out"),
                err: open("err"),
                saved_out: libc::fcntl(1, libc::F_DUPFD_CLOEXEC, 10),
                saved_err: libc::fcntl(2, libc::F_DUPFD_CLOEXEC, 10),
            }
        }
    }
    /// mode: `file` (collected), `full` (every write fails: no space), `pipe` (every write fails: EPIPE)
    pub fn begin(&mut self, mode: &str) {
        let _ = io::stdout().flush();
        for f in [&mut self.out, &mut self.err] {
            f.set_len(0).unwrap();
            f.seek(SeekFrom::Start(0)).unwrap();
        }
        unsafe {
            self.diverted = mode != "file";
            let fd = match mode {
                "full" => self.full.as_raw_fd(),
                "pipe" => self.pipe_w,
                _ => self.out.as_raw_fd(),
            };
            libc::dup2(fd, 1);
            libc::dup2(self.err.as_raw_fd(), 2);
        }
    }
    /// (bytes on stdout, how many of them only appeared because we flushed, bytes on stderr)
    pub fn end(&mut self) -> (Vec<u8>, usize, Vec<u8>) {
        let before = self.out.metadata().unwrap().len() as usize;
        if self.diverted {
            unsafe { libc::dup2(self.out.as_raw_fd(), 1) };
        }
        let _ = io::stdout().flush();
        let out = slurp(&mut self.out);
        let err = slurp(&mut self.err);
        unsafe {
            libc::dup2(self.saved_out, 1);
            libc::dup2(self.saved_err, 2);
        }
        if self.diverted {
            // what could not be written is still in the library's buffer: it is gone for good now
            self.diverted = false;
            return (vec![], 0, err);
        }
        let n = out.len().saturating_sub(before);
        (out, n, err)
    }
}
