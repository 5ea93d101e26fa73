//! Conformance driver: executes a script of operations on the real minisign crate, through its public
//! API only, and records one JSON event per operation (arguments made concrete, and the outcome).
//! It contains no judgement: the events are judged by TLC against /verif/spec.
//!
//! usage: msdriver OUT SCRIPT [SCRIPT...]     (several scripts: one thread each, OUT.<i> per thread)

mod heap;
mod io_env;
mod rng;
mod turn;

use io_env::*;
use minisign::*;
use std::collections::HashMap;
use std::fmt::Write as _;
use std::fs::File;
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Barrier};

#[global_allocator]
static HEAP: heap::Counting = heap::Counting;

/// a value used by reference, possibly from several threads, whatever the library made it of
struct Sh<T>(Arc<T>);
impl<T> Sh<T> {
    fn new(v: T) -> Sh<T> {
        Sh(Arc::new(v))
    }
}
impl<T> Clone for Sh<T> {
    fn clone(&self) -> Sh<T> {
        Sh(self.0.clone())
    }
}
impl<T> std::ops::Deref for Sh<T> {
    type Target = T;
    fn deref(&self) -> &T {
        &self.0
    }
}
unsafe impl<T> Send for Sh<T> {}
unsafe impl<T> Sync for Sh<T> {}

#[derive(Clone)]
enum Reg {
    Pk(Sh<PublicKey>),
    Sk(Sh<SecretKey>),
    Sig(Sh<SignatureBox>),
    Bytes(Vec<u8>),
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        let _ = write!(s, "{x:02x}");
    }
    s
}

pub fn unhex(s: &str) -> Vec<u8> {
    let s = s.as_bytes();
    assert!(s.len() % 2 == 0, "bad hex");
    let d = |c: u8| (c as char).to_digit(16).expect("bad hex") as u8;
    s.chunks(2).map(|c| d(c[0]) * 16 + d(c[1])).collect()
}

struct Ev(String);
impl Ev {
    fn new() -> Ev {
        Ev(String::from("{"))
    }
    fn sep(&mut self) {
        if self.0.len() > 1 {
            self.0.push(',');
        }
    }
    fn s(&mut self, k: &str, v: &str) {
        self.sep();
        let _ = write!(self.0, "\"{k}\":\"");
        for c in v.chars() {
            match c {
                '"' => self.0.push_str("\\\""),
                '\\' => self.0.push_str("\\\\"),
                c if (c as u32) < 0x20 || (c as u32) > 0x7e => {
                    let _ = write!(self.0, "?");
                }
                c => self.0.push(c),
            }
        }
        self.0.push('"');
    }
    fn n(&mut self, k: &str, v: i64) {
        self.sep();
        let _ = write!(self.0, "\"{k}\":{v}");
    }
    fn b(&mut self, k: &str, v: bool) {
        self.sep();
        let _ = write!(self.0, "\"{k}\":{v}");
    }
    fn h(&mut self, k: &str, v: &[u8]) {
        self.s(k, &hex(v));
    }
    fn raw(&mut self, k: &str, v: &str) {
        self.sep();
        let _ = write!(self.0, "\"{k}\":{v}");
    }
    fn finish(mut self) -> String {
        self.0.push('}');
        self.0
    }
}

struct Args<'a>(HashMap<&'a str, &'a str>);
impl<'a> Args<'a> {
    fn get(&self, k: &str) -> Option<&'a str> {
        self.0.get(k).copied()
    }
    fn req(&self, k: &str) -> &'a str {
        self.get(k).unwrap_or_else(|| die(&format!("missing argument {k}")))
    }
    fn hex(&self, k: &str) -> Option<Vec<u8>> {
        self.get(k).map(unhex)
    }
    fn text(&self, k: &str) -> Option<String> {
        self.hex(k)
            .map(|b| String::from_utf8(b).unwrap_or_else(|_| die("argument is not UTF-8")))
    }
    fn flag(&self, k: &str) -> bool {
        self.get(k) == Some("1")
    }
}

fn die(m: &str) -> ! {
    // a script error is an error of the machinery, never an outcome
    let m = format!("SCRIPT-ERROR {m}\n");
    unsafe {
        // standard error may be captured, and the process may have many descriptors: 2 and its saved copies
        for fd in [2, 10, 11, 12, 13] {
            libc::write(fd, m.as_ptr() as *const libc::c_void, m.len());
        }
        libc::_exit(3)
    }
}

struct Machine {
    regs: HashMap<String, Reg>,
    /// where a value came from: (kind, bytes); what the specification is told about it
    origin: HashMap<String, (String, Vec<u8>)>,
    scratch: String,
    capture: bool,
    cap: Option<Capture>,
    threaded: bool,
}

enum Out<T> {
    Ok(T),
    Err(String),
    Panic,
}

fn guard<T, E: std::fmt::Display + std::fmt::Debug>(f: impl FnOnce() -> std::result::Result<T, E>) -> Out<T> {
    let _m = heap::Measure::new();
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(v)) => Out::Ok(v),
        Ok(Err(e)) => {
            // displaying an error must not crash either
            match catch_unwind(AssertUnwindSafe(|| format!("{e}\n{e:?}"))) {
                Ok(s) => Out::Err(s),
                Err(_) => Out::Panic,
            }
        }
        Err(_) => Out::Panic,
    }
}

fn total<T>(f: impl FnOnce() -> T) -> Out<T> {
    guard(|| Ok::<T, String>(f()))
}

/// everything a value shows of itself
fn seen(r: &Reg) -> Option<(&'static str, Vec<u8>)> {
    Some(match r {
        Reg::Pk(x) => ("pk", [&x.to_bytes()[..], x.keynum()].concat()),
        Reg::Sk(x) => ("sk", [&x.to_bytes()[..], x.keynum()].concat()),
        Reg::Sig(x) => {
            let mut v = vec![x.is_prehashed() as u8];
            v.extend(x.keynum());
            v.extend(x.untrusted_comment().unwrap_or_default().into_bytes());
            // one that was cut down has no text
            v.extend(match (x.trusted_comment(), catch_unwind(AssertUnwindSafe(|| x.to_bytes()))) {
                (Ok(_), Ok(b)) => b,
                _ => catch_unwind(AssertUnwindSafe(|| SignatureBones::from((**x).clone()).to_bytes())).unwrap_or_default(),
            });
            ("sig", v)
        }
        Reg::Bytes(_) => return None,
    })
}

impl<T> Out<T> {
    fn log(self, ev: &mut Ev) -> Option<T> {
        match self {
            Out::Ok(v) => {
                ev.s("res", "ok");
                ev.s("msg", "");
                Some(v)
            }
            Out::Err(m) => {
                ev.s("res", "err");
                ev.s("msg", m.lines().next().unwrap_or(""));
                ev.h("msgh", m.as_bytes());
                None
            }
            Out::Panic => {
                ev.s("res", "panic");
                ev.s("msg", "");
                None
            }
        }
    }
    fn opt(self) -> Option<T> {
        match self {
            Out::Ok(v) => Some(v),
            _ => None,
        }
    }
}

impl Machine {
    fn pk(&self, n: &str) -> Sh<PublicKey> {
        match self.regs.get(n) {
            Some(Reg::Pk(x)) => x.clone(),
            _ => die(&format!("no public key {n}")),
        }
    }
    fn sk(&self, n: &str) -> Sh<SecretKey> {
        match self.regs.get(n) {
            Some(Reg::Sk(x)) => x.clone(),
            _ => die(&format!("no secret key {n}")),
        }
    }
    fn sig(&self, n: &str) -> Sh<SignatureBox> {
        match self.regs.get(n) {
            Some(Reg::Sig(x)) => x.clone(),
            _ => die(&format!("no signature {n}")),
        }
    }
    fn bytes(&self, n: &str) -> Vec<u8> {
        match self.regs.get(n) {
            Some(Reg::Bytes(x)) => x.clone(),
            _ => die(&format!("no bytes {n}")),
        }
    }
    /// literal hex, or =REG
    fn input(&self, a: &Args, k: &str) -> Vec<u8> {
        let v = a.req(k);
        match v.strip_prefix('=') {
            Some(r) => self.bytes(r),
            None => unhex(v),
        }
    }
    fn orig(&self, n: &str) -> (String, Vec<u8>) {
        self.origin.get(n).cloned().unwrap_or_else(|| die("no origin"))
    }
    fn put(&mut self, n: &str, r: Reg, kind: &str, b: &[u8]) {
        self.regs.insert(n.into(), r);
        self.origin.insert(n.into(), (kind.into(), b.to_vec()));
    }
    fn utf8(&self, a: &Args, k: &str) -> String {
        String::from_utf8(self.input(a, k)).unwrap_or_else(|_| die("input is not UTF-8"))
    }
    fn has(&self, n: &str) -> bool {
        self.regs.contains_key(n)
    }
    fn file(&self, content: &[u8]) -> String {
        let p = format!("{}/f", self.scratch);
        let mut f = File::create(&p).unwrap_or_else(|_| die("scratch file"));
        f.write_all(content).unwrap_or_else(|_| die("scratch file"));
        p
    }

    /// facts about a signature box, as its accessors report them
    fn log_sig(&self, ev: &mut Ev, b: &SignatureBox, full: bool) {
        ev.b("pre", b.is_prehashed());
        ev.h("keynum", b.keynum());
        match guard(|| b.untrusted_comment()) {
            Out::Ok(u) => ev.h("ucout", u.as_bytes()),
            _ => ev.s("ucout", "none"),
        }
        match guard(|| b.trusted_comment()) {
            Out::Ok(u) => {
                ev.b("hastc", true);
                ev.h("tcout", u.as_bytes())
            }
            Out::Err(_) => {
                ev.b("hastc", false);
                ev.h("tcout", b"")
            }
            Out::Panic => {
                ev.b("hastc", false);
                ev.s("tcout", "panic")
            }
        }
        if !full {
            return;
        }
        match total(|| {
            let bones = SignatureBones::from(b.clone());
            (bones.to_bytes(), bones.is_prehashed())
        }) {
            Out::Ok((v, p)) => {
                ev.h("bones", &v);
                ev.b("bonespre", p);
            }
            _ => {
                ev.s("bones", "panic");
                ev.b("bonespre", false);
            }
        }
        let b2 = b.clone();
        match total(|| b2.to_string()) {
            Out::Ok(t) => ev.h("text", t.as_bytes()),
            _ => ev.s("text", "none"),
        }
    }

    fn run(&mut self, line: &str) -> Option<String> {
        let mut it = line.split_whitespace();
        let id = it.next()?;
        if id.starts_with('#') {
            return None;
        }
        let op = it.next().unwrap_or_else(|| die("no op"));
        if op == "again" {
            return Some(self.again(id, line));
        }
        let mut m = HashMap::new();
        let mut tags: Vec<(&str, &str)> = vec![];
        for t in it {
            let (k, v) = t.split_once('=').unwrap_or_else(|| die("bad argument"));
            if let Some(k) = k.strip_prefix('@') {
                tags.push((k, v)); // passed through to the event
            } else {
                m.insert(k, v);
            }
        }
        let a = Args(m);
        let mut ev = Ev::new();
        ev.n("id", id.parse().unwrap_or_else(|_| die("bad id")));
        ev.s("op", op);
        for (k, v) in tags {
            ev.s(k, v);
        }
        // interleaved execution: this operation begins in turn `tb` and ends in turn `te`
        let turns = a.get("tb").map(|b| {
            let p = |s: &str| s.parse::<i64>().unwrap_or_else(|_| die("bad turn"));
            (p(b), p(a.req("te")), a.get("park").unwrap_or(""))
        });
        let pass = || {
            if let Some((b, e, _)) = turns {
                turn::begin(b, e, "");
                turn::end();
            }
        };
        // operations on a register that was never filled (because an earlier operation failed) are
        // recorded as skipped: what they depend on has its own event.
        // what an operation that fails, or is skipped, was to produce does not exist afterwards
        let stale: Vec<String> = ["to", "pkto", "skto", "pkwto", "skwto"]
            .iter()
            .filter_map(|k| a.get(k))
            .filter(|n| {
                !["pk", "sk", "sig", "other", "reg", "with"].iter().any(|k| a.get(k) == Some(*n))
                    && a.get("in").and_then(|v| v.strip_prefix('=')) != Some(*n)
            })
            .map(|n| n.to_string())
            .collect();
        for n in stale {
            self.regs.remove(&n);
            self.origin.remove(&n);
        }
        for k in ["pk", "sk", "sig", "other"] {
            if let Some(n) = a.get(k) {
                if !n.starts_with('!') && !self.has(n) {
                    pass();
                    ev.s("res", "skip");
                    return Some(ev.finish());
                }
            }
        }
        if (op == "clone" && !self.has(a.req("reg"))) || a.get("with").is_some_and(|w| !self.has(w)) {
            pass();
            ev.s("res", "skip");
            return Some(ev.finish());
        }
        if let Some(v) = a.get("in") {
            if let Some(r) = v.strip_prefix('=') {
                // a text can be loaded from text only: what wrote something else has its own event
                let text = op.ends_with("_load")
                    && !["bytes", "bones", "file", "missing", "dir"].contains(&a.get("carrier").unwrap_or(""));
                let readable = match self.regs.get(r) {
                    Some(Reg::Bytes(b)) => !text || std::str::from_utf8(b).is_ok(),
                    _ => false,
                };
                if !readable {
                    pass();
                    ev.s("res", "skip");
                    return Some(ev.finish());
                }
            }
        }
        if op == "clock" {
            let at = a.req("at").parse().unwrap_or_else(|_| die("bad time"));
            rng::CLOCK.store(at, std::sync::atomic::Ordering::SeqCst);
            ev.s("res", "ok");
            return Some(ev.finish());
        }
        if op == "rng" {
            rng::set_mode(a.req("mode"));
            ev.s("res", "ok");
            return Some(ev.finish());
        }
        if let Some((b, e, at)) = turns {
            turn::begin(b, e, at);
        }
        if !self.threaded {
            rng::start();
        }
        let capture = self.capture;
        if capture && self.cap.is_none() {
            self.cap = Some(Capture::new(&self.scratch));
        }
        if let Some(c) = &mut self.cap {
            c.begin(a.get("stdout").unwrap_or("file"));
        }
        heap::reset();
        self.exec(op, &a, &mut ev);
        if !self.threaded {
            let (mem, sum) = heap::measured();
            ev.n("mem", mem);
            ev.n("sum", sum);
        }
        if turns.is_some() {
            turn::end();
        }
        if let Some(c) = &mut self.cap {
            let (out, unflushed, err) = c.end();
            ev.n("outlen", out.len() as i64);
            ev.s("outfp", &fingerprint(&out));
            ev.h("out", &out[..out.len().min(if op == "verify" { 256 } else { 4096 })]);
            ev.n("unflushed", unflushed as i64);
            ev.n("errlen", err.len() as i64);
            ev.h("err", &err);
        }
        let (draws, drawn) = if self.threaded { (vec![], vec![]) } else { rng::stop() };
        ev.h("drawn", &drawn);
        ev.raw(
            "draws",
            &format!(
                "[{}]",
                draws.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
            ),
        );
        Some(ev.finish())
    }

    /// `ID again n=COUNT do=OP ...`: the operation many times, `@@` in its arguments standing for eight hex digits that
    /// differ each time; recorded is only what has remained of it since the first quarter
    fn again(&mut self, id: &str, line: &str) -> String {
        let mut n = 0;
        let mut of = "";
        let mut rest = vec![];
        for t in line.split_whitespace().skip(2) {
            match t.split_once('=') {
                Some(("n", v)) => n = v.parse().unwrap_or_else(|_| die("bad count")),
                Some(("do", v)) => of = v,
                Some((k, _)) if k.starts_with('@') => {}
                _ => rest.push(t),
            }
        }
        let call = format!("{id} {of} {}", rest.join(" "));
        let (mut base, mut fds, mut tasks, mut oks) = (0, 0, 0, 0);
        for i in 0..n {
            if i == n / 4 {
                base = heap::live();
                (fds, tasks) = heap::handles();
            }
            let v: String = format!("{i:04}").bytes().map(|b| format!("{b:02x}")).collect();
            let e = self.run(&call.replace("@@", &v));
            oks += e.is_some_and(|e| e.contains("\"res\":\"ok\"")) as i64;
        }
        let grown = heap::live() - base;
        let h = heap::handles();
        let mut ev = Ev::new();
        ev.n("id", id.parse().unwrap_or_else(|_| die("bad id")));
        ev.s("op", "again");
        for t in line.split_whitespace().skip(2) {
            if let Some((k, v)) = t.strip_prefix('@').and_then(|t| t.split_once('=')) {
                ev.s(k, v);
            }
        }
        ev.s("of", of);
        ev.n("n", n);
        ev.n("oks", oks);
        ev.n("grown", grown.clamp(-0x7fff_ffff, 0x7fff_ffff));
        ev.n("fds", h.0 - fds);
        ev.n("tasks", h.1 - tasks);
        ev.s("res", "ok");
        ev.finish()
    }

    fn exec(&mut self, op: &str, a: &Args, ev: &mut Ev) {
        match op {
            "let" => {
                let v = self.input(a, "in");
                self.regs.insert(a.req("to").into(), Reg::Bytes(v));
                ev.s("res", "ok");
            }
            // a stored text is altered: bits of it, of what a line of it encodes, or of the end of a line
            "edit" => {
                let v = self.input(a, "in");
                let r = edit(v, a.req("line").parse().unwrap(), a.get("at").map(|n| n.parse().unwrap()), &unhex(a.req("xor")));
                ev.s("res", if r.is_some() { "ok" } else { "skip" });
                if let Some(v) = r {
                    self.regs.insert(a.req("to").into(), Reg::Bytes(v));
                }
            }
            // the first lines of one text, and of another what comes after them
            "splice" => {
                let n: usize = a.req("lines").parse().unwrap();
                let (v, w) = (self.input(a, "in"), self.bytes(a.req("with")));
                let l = |b: &[u8]| b.split_inclusive(|c| *c == b'\n').map(|x| x.to_vec()).collect::<Vec<_>>();
                let mut o: Vec<Vec<u8>> = l(&v).into_iter().take(n).collect();
                o.extend(l(&w).into_iter().skip(n));
                self.regs.insert(a.req("to").into(), Reg::Bytes(o.concat()));
                ev.s("res", "ok");
            }
            "drop" => {
                let n = a.req("reg");
                self.regs.remove(n);
                self.origin.remove(n);
                ev.s("res", "ok");
            }
            "clone" => {
                // a value of its own, equal to the other
                let n = a.req("reg");
                let from = self.regs.get(n).cloned().unwrap_or_else(|| die("no register"));
                let was = seen(&from);
                let pair = a.get("pk").map(|n| self.pk(n));
                let r = total(|| match &from {
                    Reg::Pk(x) => Reg::Pk(Sh::new((**x).clone())),
                    // with its public key, or alone
                    Reg::Sk(x) => Reg::Sk(Sh::new(match &pair {
                        Some(pk) => KeyPair { pk: (**pk).clone(), sk: (**x).clone() }.clone().sk,
                        None => (**x).clone(),
                    })),
                    Reg::Sig(x) => Reg::Sig(Sh::new((**x).clone())),
                    Reg::Bytes(x) => Reg::Bytes(x.clone()),
                });
                let r = r.log(ev);
                if let Some((k, was)) = was {
                    ev.s("what", k);
                    ev.h("was", &was);
                    // the one it was made from, and the one made
                    ev.h("left", &seen(&from).map(|x| x.1).unwrap_or_default());
                    ev.h("now", &r.as_ref().and_then(seen).map(|x| x.1).unwrap_or_default());
                }
                if let Some(r) = r {
                    let o = self.origin.get(n).cloned();
                    self.regs.insert(a.req("to").into(), r);
                    if let Some(o) = o {
                        self.origin.insert(a.req("to").into(), o);
                    }
                }
            }
            "gen" => {
                let kind = a.req("kind");
                let pw = a.text("pw");
                ev.s("kind", kind);
                ev.h("pw", pw.as_deref().unwrap_or("").as_bytes());
                ev.b("interactive", pw.is_none());
                let r = guard(|| match kind {
                    "plain" => KeyPair::generate_unencrypted_keypair(),
                    _ => KeyPair::generate_encrypted_keypair(pw),
                });
                if let Some(KeyPair { pk, sk }) = r.log(ev) {
                    ev.h("pkb", &pk.to_bytes());
                    ev.h("skb", &sk.to_bytes());
                    ev.h("pkid", pk.keynum());
                    ev.h("skid", sk.keynum());
                    let (x, y) = (pk.to_bytes(), sk.to_bytes());
                    self.put(a.req("pkto"), Reg::Pk(Sh::new(pk)), "bytes", &x);
                    self.put(a.req("skto"), Reg::Sk(Sh::new(sk)), "bytes", &y);
                }
            }
            "genw" => {
                let kind = a.req("kind");
                let pw = a.text("pw");
                let comment = a.text("comment");
                let mut w1 = FaultyWriter::new(a.get("wpk").unwrap_or(""), 1);
                let mut w2 = FaultyWriter::new(a.get("wsk").unwrap_or(""), 2);
                ev.s("kind", kind);
                ev.h("pw", pw.as_deref().unwrap_or("").as_bytes());
                ev.b("hascomment", comment.is_some());
                ev.h("comment", comment.as_deref().unwrap_or("").as_bytes());
                let r = guard(|| match kind {
                    "plain" => KeyPair::generate_and_write_unencrypted_keypair(&mut w1, &mut w2),
                    _ => KeyPair::generate_and_write_encrypted_keypair(
                        &mut w1,
                        &mut w2,
                        comment.as_deref(),
                        pw,
                    ),
                });
                let (mut pkb, mut skb) = (vec![], vec![]);
                if let Some(KeyPair { pk, sk }) = r.log(ev) {
                    pkb = pk.to_bytes();
                    skb = sk.to_bytes();
                    if let Some(t) = a.get("pkto") {
                        self.put(t, Reg::Pk(Sh::new(pk)), "bytes", &pkb);
                    }
                    if let Some(t) = a.get("skto") {
                        self.put(t, Reg::Sk(Sh::new(sk)), "bytes", &skb);
                    }
                }
                ev.h("pkb", &pkb);
                ev.h("skb", &skb);
                ev.raw("pklog", &w1.log_json());
                ev.raw("sklog", &w2.log_json());
                ev.h("pkw", &w1.data);
                ev.h("skw", &w2.data);
                if let Some(t) = a.get("pkwto") {
                    self.regs.insert(t.into(), Reg::Bytes(w1.data));
                }
                if let Some(t) = a.get("skwto") {
                    self.regs.insert(t.into(), Reg::Bytes(w2.data));
                }
            }
            // ---- public keys
            "pk_load" => {
                let c = a.req("carrier");
                ev.s("carrier", c);
                let r = match c {
                    "bytes" => {
                        let b = self.input(a, "in");
                        ev.h("in", &b);
                        guard(|| PublicKey::from_bytes(&b))
                    }
                    "file" | "missing" | "dir" => {
                        let b = self.input(a, "in");
                        ev.h("in", &b);
                        let p = match c {
                            "missing" => format!("{}/no/such/file", self.scratch),
                            "dir" => self.scratch.clone(),
                            _ => self.file(&b),
                        };
                        guard(|| PublicKey::from_file(&p))
                    }
                    _ => {
                        let t = self.utf8(a, "in");
                        ev.h("in", t.as_bytes());
                        match c {
                            "b64" => guard(|| PublicKey::from_base64(&t)),
                            "box" => guard(|| {
                                PublicKeyBox::from_string(&t).and_then(|b| b.into_public_key())
                            }),
                            "boxfrom" => guard(|| PublicKey::from_box(PublicKeyBox::from(t))),
                            // documented to panic on invalid boxes: only for well-formed ones
                            "pkfrom" => total(|| PublicKey::from(PublicKeyBox::from(t))),
                            "boxrt" => guard(|| {
                                let b = PublicKeyBox::from_string(&t)?;
                                let c = b.clone();
                                PublicKeyBox::from(String::from(b)).into_public_key().and_then(|k| {
                                    let k2 = c.into_public_key()?;
                                    if k2.to_bytes() != k.to_bytes() {
                                        Err(PError::new(ErrorKind::Misc, "clone differs"))
                                    } else {
                                        Ok(k2)
                                    }
                                })
                            }),
                            _ => die("carrier"),
                        }
                    }
                };
                match r.log(ev) {
                    Some(pk) => {
                        ev.h("pkb", &pk.to_bytes());
                        ev.h("pkid", pk.keynum());
                        ev.b("dbgpanic", matches!(total(|| format!("{pk:?}")), Out::Panic));
                        let src = if a.req("carrier") == "b64" {
                            "b64"
                        } else if a.req("carrier") == "bytes" {
                            "bytes"
                        } else {
                            "box"
                        };
                        let inp = self.input(a, "in");
                        self.put(a.req("to"), Reg::Pk(Sh::new(pk)), src, &inp);
                    }
                    None => {
                        ev.h("pkb", b"");
                        ev.h("pkid", b"");
                    }
                }
            }
            "pk_store" => {
                let pk = self.pk(a.req("pk"));
                let c = a.req("carrier");
                ev.s("carrier", c);
                ev.h("pkb", &pk.to_bytes());
                let r = guard(|| -> Result<Vec<u8>> {
                    Ok(match c {
                        "bytes" => pk.to_bytes(),
                        "b64" => pk.to_base64().into_bytes(),
                        "box" => pk.to_box()?.to_string().into_bytes(),
                        "boxinto" => pk.to_box()?.into_string().into_bytes(),
                        "boxbytes" => pk.to_box()?.to_bytes(),
                        _ => die("carrier"),
                    })
                });
                let o = r.log(ev);
                ev.h("outb", o.as_deref().unwrap_or(b""));
                if let Some(o) = o {
                    self.regs.insert(a.req("to").into(), Reg::Bytes(o));
                }
            }
            "pk_from_sk" => {
                let sk = self.sk(a.req("sk"));
                ev.h("skb", &sk.to_bytes());
                let r = guard(|| PublicKey::from_secret_key(&sk)).log(ev);
                ev.h("pkb", &r.as_ref().map(|p| p.to_bytes()).unwrap_or_default());
                if let Some(pk) = r {
                    let x = pk.to_bytes();
                    self.put(a.req("to"), Reg::Pk(Sh::new(pk)), "bytes", &x);
                }
            }
            "pk_eq" => {
                let p = self.pk(a.req("pk"));
                let q = self.pk(a.req("other"));
                ev.h("a", &p.to_bytes());
                ev.h("b", &q.to_bytes());
                ev.s("res", "ok");
                ev.b("eq", *p == *q);
            }
            "sk_eq" => {
                let p = self.sk(a.req("sk"));
                let q = self.sk(a.req("other"));
                ev.h("a", &p.to_bytes());
                ev.h("b", &q.to_bytes());
                ev.s("res", "ok");
                ev.b("eq", *p == *q);
            }
            // ---- secret keys
            "sk_load" => {
                let c = a.req("carrier");
                let pw = a.text("pw");
                ev.s("carrier", c);
                ev.h("pw", pw.as_deref().unwrap_or("").as_bytes());
                ev.b("interactive", pw.is_none());
                let c0 = cpu_ms();
                let r = match c {
                    "bytes" => {
                        let b = self.input(a, "in");
                        ev.h("in", &b);
                        guard(|| SecretKey::from_bytes(&b))
                    }
                    "file" | "missing" | "dir" => {
                        let b = self.input(a, "in");
                        ev.h("in", &b);
                        let p = match c {
                            "missing" => format!("{}/no/such/file", self.scratch),
                            "dir" => self.scratch.clone(),
                            _ => self.file(&b),
                        };
                        guard(|| SecretKey::from_file(&p, pw))
                    }
                    _ => {
                        let t = self.utf8(a, "in");
                        ev.h("in", t.as_bytes());
                        match c {
                            "box" => guard(|| {
                                SecretKeyBox::from_string(&t).and_then(|b| b.into_secret_key(pw))
                            }),
                            "boxfrom" => {
                                guard(|| SecretKey::from_box(SecretKeyBox::from(t), pw))
                            }
                            "ubox" => guard(|| {
                                SecretKeyBox::from_string(&t)
                                    .and_then(|b| b.into_unencrypted_secret_key())
                            }),
                            "uboxfrom" => guard(|| {
                                SecretKey::from_unencrypted_box(SecretKeyBox::from(t))
                            }),
                            _ => die("carrier"),
                        }
                    }
                };
                ev.b("slow", cpu_ms() - c0 > 500);
                match r.log(ev) {
                    Some(sk) => {
                        ev.h("skb", &sk.to_bytes());
                        ev.h("skid", sk.keynum());
                        // displaying what was loaded must not crash
                        if let Out::Panic = total(|| format!("{sk:?}")) {
                            ev.b("dbgpanic", true);
                        } else {
                            ev.b("dbgpanic", false);
                        }
                        let x = sk.to_bytes();
                        self.put(a.req("to"), Reg::Sk(Sh::new(sk)), "bytes", &x);
                    }
                    None => {
                        ev.h("skb", b"");
                        ev.h("skid", b"");
                        ev.b("dbgpanic", false);
                    }
                }
            }
            "sk_store" => {
                let sk = self.sk(a.req("sk"));
                let c = a.req("carrier");
                let comment = a.text("comment");
                ev.s("carrier", c);
                ev.b("hascomment", comment.is_some());
                ev.h("comment", comment.as_deref().unwrap_or("").as_bytes());
                ev.h("skb", &sk.to_bytes());
                let r = guard(|| -> Result<Vec<u8>> {
                    Ok(match c {
                        "bytes" => sk.to_bytes(),
                        "box" => sk.to_box(comment.as_deref())?.to_string().into_bytes(),
                        "boxinto" => sk.to_box(comment.as_deref())?.into_string().into_bytes(),
                        "boxbytes" => sk.to_box(comment.as_deref())?.to_bytes(),
                        _ => die("carrier"),
                    })
                });
                let o = r.log(ev);
                ev.h("outb", o.as_deref().unwrap_or(b""));
                if let Some(o) = o {
                    self.regs.insert(a.req("to").into(), Reg::Bytes(o));
                }
            }
            // ---- signatures
            "sig_load" => {
                let c = a.req("carrier");
                ev.s("carrier", c);
                let r = match c {
                    "bones" => {
                        let b = self.input(a, "in");
                        ev.h("in", &b);
                        guard(|| SignatureBones::from_bytes(&b).map(SignatureBox::from))
                    }
                    "file" | "missing" | "dir" => {
                        let b = self.input(a, "in");
                        ev.h("in", &b);
                        let p = match c {
                            "missing" => format!("{}/no/such/file", self.scratch),
                            "dir" => self.scratch.clone(),
                            _ => self.file(&b),
                        };
                        guard(|| SignatureBox::from_file(&p))
                    }
                    "from" => {
                        // documented to panic on invalid boxes: only for well-formed ones
                        let t = self.utf8(a, "in");
                        ev.h("in", t.as_bytes());
                        total(|| SignatureBox::from(t))
                    }
                    "string" => {
                        let t = self.utf8(a, "in");
                        ev.h("in", t.as_bytes());
                        guard(|| SignatureBox::from_string(&t))
                    }
                    _ => die("carrier"),
                };
                if let Some(s) = r.log(ev) {
                    self.log_sig(ev, &s, true);
                    let src = if c == "bones" { "bones" } else { "text" };
                    let inp = self.input(a, "in");
                    self.put(a.req("to"), Reg::Sig(Sh::new(s)), src, &inp);
                }
            }
            "sig_store" => {
                let s = self.sig(a.req("sig"));
                let c = a.req("carrier");
                ev.s("carrier", c);
                let (k, b) = self.orig(a.req("sig"));
                ev.s("sigsrc", &k);
                ev.h("sigb", &b);
                let r = total(|| match c {
                    "string" => s.to_string().into_bytes(),
                    "into" => (*s).clone().into_string().into_bytes(),
                    "from" => String::from((*s).clone()).into_bytes(),
                    "bytes" => s.to_bytes(),
                    "bones" => SignatureBones::from((*s).clone()).to_bytes(),
                    _ => die("carrier"),
                });
                let o = r.log(ev);
                ev.h("outb", o.as_deref().unwrap_or(b""));
                if let Some(o) = o {
                    self.regs.insert(a.req("to").into(), Reg::Bytes(o));
                }
            }
            "sig_bones" => {
                // box -> bones -> box, without leaving memory
                let s = self.sig(a.req("sig"));
                let (k, b) = self.orig(a.req("sig"));
                ev.s("sigsrc", &k);
                ev.h("sigb", &b);
                let r = total(|| SignatureBox::from(SignatureBones::from((*s).clone()).clone()));
                if let Some(s) = r.log(ev) {
                    self.log_sig(ev, &s, true);
                    let k = if k == "bones" { k } else { "cut".to_string() };
                    self.put(a.req("to"), Reg::Sig(Sh::new(s)), &k, &b);
                }
            }
            "sign" => {
                let sk = self.sk(a.req("sk"));
                let pk = a.get("pk").map(|n| self.pk(n));
                let d = a.req("data");
                let data = Data::new(d);
                let start = a.get("start").map(|s| s.parse().unwrap()).unwrap_or(0u64);
                let sched = a.get("reader").unwrap_or("");
                let mut rd = SchedReader::new(&data, a.get("base").map(|s| s.parse().unwrap()).unwrap_or(0u64), start, sched);
                let tc = a.text("tc");
                let uc = a.text("uc");
                ev.h("skb", &sk.to_bytes());
                ev.b("haspk", pk.is_some());
                ev.h("pkb", &pk.as_ref().map(|p| p.to_bytes()).unwrap_or_default());
                ev.s("data", d);
                ev.n("start", start as i64);
                ev.s("reader", sched);
                ev.b("tcgiven", tc.is_some());
                ev.h("tc", tc.as_deref().unwrap_or("").as_bytes());
                ev.b("ucgiven", uc.is_some());
                ev.h("uc", uc.as_deref().unwrap_or("").as_bytes());
                let t0 = now();
                let r = guard(|| sign(pk.as_deref(), &sk, &mut rd, tc.as_deref(), uc.as_deref()));
                let t1 = now();
                ev.h("t0", t0.to_string().as_bytes());
                ev.h("t1", t1.to_string().as_bytes());
                ev.raw("rlog", &rd.log_json());
                if let Some(s) = r.log(ev) {
                    self.log_sig(ev, &s, true);
                    let t = total(|| s.to_string()).opt().unwrap_or_default();
                    self.put(a.req("to"), Reg::Sig(Sh::new(s)), "text", t.as_bytes());
                }
            }
            "verify" => {
                let pk = self.pk(a.req("pk"));
                let s = self.sig(a.req("sig"));
                let d = a.req("data");
                let data = Data::new(d);
                let start = a.get("start").map(|s| s.parse().unwrap()).unwrap_or(0u64);
                let sched = a.get("reader").unwrap_or("");
                let mut rd = SchedReader::new(&data, a.get("base").map(|s| s.parse().unwrap()).unwrap_or(0u64), start, sched);
                let (q, o, l) = (a.flag("quiet"), a.flag("output"), a.flag("legacy"));
                ev.h("pkb", &pk.to_bytes());
                self.log_sig(ev, &s, false);
                let (k, b) = self.orig(a.req("sig"));
                ev.s("sigsrc", &k);
                ev.h("sigb", &b);
                let (k, b) = self.orig(a.req("pk"));
                ev.s("pksrc", &k);
                ev.h("pkin", &b);
                ev.s("stdout", a.get("stdout").unwrap_or("file"));
                ev.s("data", d);
                ev.n("start", start as i64);
                ev.s("reader", sched);
                ev.b("quiet", q);
                ev.b("output", o);
                ev.b("legacy", l);
                guard(|| verify(&pk, &s, &mut rd, q, o, l)).log(ev);
                ev.raw("rlog", &rd.log_json());
            }
            "free" => {
                // drops everything: errors on drop would be seen as a crash
                self.regs.clear();
                self.origin.clear();
                ev.s("res", "ok");
            }
            _ => die(&format!("unknown op {op}")),
        }
    }
}

const B64: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

fn b64_decode(t: &[u8]) -> Option<Vec<u8>> {
    let (mut o, mut acc, mut n) = (Vec::new(), 0u32, 0);
    for c in t.iter().take_while(|c| **c != b'=') {
        acc = acc << 6 | B64.iter().position(|x| x == c)? as u32;
        n += 6;
        if n >= 8 {
            n -= 8;
            o.push((acc >> n) as u8);
        }
    }
    Some(o)
}

fn b64_encode(b: &[u8]) -> Vec<u8> {
    let mut o = Vec::new();
    for c in b.chunks(3) {
        let x = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            o.push(if i <= c.len() { B64[(x >> (18 - 6 * i) & 63) as usize] } else { b'=' });
        }
    }
    o
}

/// line 0: the bytes as they are; without a position: the end of that line, as text
fn edit(mut v: Vec<u8>, line: usize, at: Option<usize>, xor: &[u8]) -> Option<Vec<u8>> {
    let flip = |b: &mut [u8], at: usize| -> Option<()> {
        for (i, x) in xor.iter().enumerate() {
            *b.get_mut(at + i)? ^= x;
        }
        Some(())
    };
    if line == 0 {
        flip(&mut v, at?)?;
        return Some(v);
    }
    let mut ls: Vec<Vec<u8>> = v.split(|c| *c == b'\n').map(|x| x.to_vec()).collect();
    let l = ls.get_mut(line - 1)?;
    match at {
        None => {
            let n = l.len().checked_sub(xor.len())?;
            flip(l, n)?;
        }
        Some(at) => {
            let mut b = b64_decode(l)?;
            flip(&mut b, at)?;
            *l = b64_encode(&b);
        }
    }
    Some(ls.join(&b'\n'))
}

/// processor time of this thread
fn cpu_ms() -> i64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::syscall(libc::SYS_clock_gettime, libc::CLOCK_THREAD_CPUTIME_ID, &mut t) };
    t.tv_sec * 1000 + t.tv_nsec / 1_000_000
}

fn now() -> u64 {
    std::time::SystemTime::now()
        .duration_since(std::time::UNIX_EPOCH)
        .unwrap()
        .as_secs()
}

fn machine(out: &str, capture: bool) -> Machine {
    let scratch = format!("{out}.d");
    std::fs::create_dir_all(&scratch).unwrap_or_else(|_| die("scratch"));
    Machine {
        regs: HashMap::new(),
        origin: HashMap::new(),
        scratch,
        capture,
        cap: None,
        threaded: false,
    }
}

fn run_script(script: &str, out: &str, m: &mut Machine, barrier: Option<Arc<Barrier>>) {
    let text = std::fs::read_to_string(script).unwrap_or_else(|_| die("cannot read script"));
    let mut o = std::io::BufWriter::new(File::create(out).unwrap_or_else(|_| die("output")));
    if let Some(b) = barrier {
        b.wait();
    }
    for line in text.lines() {
        // what ran is on record before the next line runs, so that an abort can be attributed
        if m.capture || m.threaded {
            o.flush().unwrap();
        }
        if let Some(ev) = m.run(line) {
            o.write_all(ev.as_bytes()).unwrap();
            o.write_all(b"\n").unwrap();
        }
    }
    o.flush().unwrap();
    let _ = std::fs::remove_dir_all(&m.scratch);
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 3 {
        die("usage: msdriver OUT SCRIPT | msdriver OUT PRELUDE SCRIPT...");
    }
    std::panic::set_hook(Box::new(|_| {}));
    if args.len() == 3 {
        let mut m = machine(&args[1], true);
        run_script(&args[2], &args[1], &mut m, None);
        return;
    }
    // the values made by the prelude are shared by all threads
    let mut m0 = machine(&format!("{}.p", args[1]), false);
    m0.threaded = true;
    run_script(&args[2], &format!("{}.p", args[1]), &mut m0, None);
    let n = args.len() - 3;
    let b = Arc::new(Barrier::new(n));
    let hs: Vec<_> = (0..n)
        .map(|i| {
            let (s, o, b) = (args[3 + i].clone(), format!("{}.{i}", args[1]), b.clone());
            let mut m = machine(&o, false);
            m.threaded = true;
            m.regs = m0.regs.clone();
            m.origin = m0.origin.clone();
            std::thread::spawn(move || run_script(&s, &o, &mut m, Some(b)))
        })
        .collect();
    drop(m0);
    for h in hs {
        if h.join().is_err() {
            die("thread");
        }
    }
}
