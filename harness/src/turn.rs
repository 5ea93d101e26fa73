//! Interleaves operations of several threads in a given order: an operation begins in one turn, is
//! parked at a point inside it (a read, or a draw of random bytes), and goes on in a later turn.
use std::cell::RefCell;
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

static TURN: Mutex<i64> = Mutex::new(0);
static CHANGED: Condvar = Condvar::new();

#[derive(Clone)]
struct Plan {
    begin: i64,
    end: i64,
    at: String,
    parked: bool,
}

thread_local! {
    static PLAN: RefCell<Option<Plan>> = const { RefCell::new(None) };
    static DRAWS: RefCell<usize> = const { RefCell::new(0) };
}

/// waits for a turn; gives up after a while, so that an operation that never gets to its parking
/// place cannot block the others for ever
fn wait(n: i64) {
    let t0 = Instant::now();
    let mut t = TURN.lock().unwrap();
    while *t < n && t0.elapsed() < Duration::from_secs(20) {
        t = CHANGED.wait_timeout(t, Duration::from_millis(100)).unwrap().0;
    }
}

fn advance(n: i64) {
    let mut t = TURN.lock().unwrap();
    if *t < n {
        *t = n;
    }
    CHANGED.notify_all();
}

pub fn begin(b: i64, e: i64, at: &str) {
    wait(b);
    DRAWS.with(|d| *d.borrow_mut() = 0);
    PLAN.with(|p| *p.borrow_mut() = Some(Plan { begin: b, end: e, at: at.to_string(), parked: false }));
}

pub fn end() {
    let p = PLAN.with(|p| p.borrow_mut().take());
    if let Some(p) = p {
        if !p.parked && p.end > p.begin {
            advance(p.begin + 1);
            wait(p.end);
        }
        advance(p.end + 1);
    }
}

/// a place where an operation can be parked
pub fn here(place: &str) {
    let p = PLAN.with(|p| match p.try_borrow_mut() {
        Ok(mut q) => match q.as_mut() {
            Some(q) if !q.parked && q.at == place && q.end > q.begin => {
                q.parked = true;
                Some(q.clone())
            }
            _ => None,
        },
        Err(_) => None,
    });
    if let Some(p) = p {
        advance(p.begin + 1);
        wait(p.end);
    }
}

/// a draw of random bytes
pub fn draw() {
    let n = DRAWS.with(|d| {
        let mut d = d.borrow_mut();
        *d += 1;
        *d
    });
    here(&format!("rng{n}"));
}
