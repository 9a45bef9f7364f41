//! Runs two calls under a chosen schedule. A thread can be stopped at every
//! allocation and every stream operation; which thread goes on is decided by
//! the explorer, not by the machine.

use std::cell::Cell;
use std::io::{Read, Seek, SeekFrom, Write};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::time::{Duration, Instant};

struct Session {
    turn: AtomicUsize,
    done: [AtomicBool; 2],
    /// A thread went on without its turn because the other one waited for it.
    forced: AtomicBool,
}

thread_local! {
    static SESSION: Cell<*const Session> = const { Cell::new(std::ptr::null()) };
    static ME: Cell<usize> = const { Cell::new(0) };
    static POINTS: Cell<u32> = const { Cell::new(0) };
    static STOP_AT: Cell<u32> = const { Cell::new(u32::MAX) };
    static COUNTING: Cell<bool> = const { Cell::new(false) };
}

fn wait(s: &Session, me: usize) {
    let mut spins = 0u32;
    let mut since: Option<Instant> = None;
    while s.turn.load(SeqCst) != me && !s.done[1 - me].load(SeqCst) {
        spins += 1;
        if spins % 64 == 0 {
            std::thread::yield_now();
        } else {
            std::hint::spin_loop();
        }
        if spins % 4096 == 0 {
            // The running thread is blocked by a lock this one holds.
            let t = *since.get_or_insert_with(Instant::now);
            if t.elapsed() > Duration::from_millis(200) {
                s.forced.store(true, SeqCst);
                return;
            }
        }
    }
}

/// A place where the thread can be stopped.
pub fn point() {
    let _ = COUNTING.try_with(|c| {
        if !c.get() {
            return;
        }
        let n = POINTS.get();
        POINTS.set(n + 1);
        if n != STOP_AT.get() {
            return;
        }
        let p = SESSION.get();
        if p.is_null() {
            return;
        }
        c.set(false);
        let s = unsafe { &*p };
        let me = ME.get();
        s.turn.store(1 - me, SeqCst);
        wait(s, me);
        c.set(true);
    });
}

/// Runs a call alone and counts the places where it can be stopped.
pub fn count<T>(f: impl FnOnce() -> T) -> (T, u32) {
    POINTS.set(0);
    STOP_AT.set(u32::MAX);
    COUNTING.set(true);
    let r = f();
    COUNTING.set(false);
    (r, POINTS.get())
}

fn part<T>(s: &Session, me: usize, stop: u32, f: impl FnOnce() -> T) -> T {
    wait(s, me);
    SESSION.set(s);
    ME.set(me);
    POINTS.set(0);
    STOP_AT.set(stop);
    COUNTING.set(true);
    let r = f();
    COUNTING.set(false);
    SESSION.set(std::ptr::null());
    s.done[me].store(true, SeqCst);
    s.turn.store(1 - me, SeqCst);
    r
}

/// Runs `a` up to its place `i`, then `b` up to its place `j`, then `a` to its
/// end and `b` to its end. Also tells whether the schedule was kept.
pub fn interleave<A: Send, B: Send>(
    a: impl FnOnce() -> A + Send,
    i: u32,
    b: impl FnOnce() -> B + Send,
    j: u32,
) -> (A, B, bool) {
    let s = Session {
        turn: AtomicUsize::new(0),
        done: [AtomicBool::new(false), AtomicBool::new(false)],
        forced: AtomicBool::new(false),
    };
    let (x, y) = std::thread::scope(|scope| {
        let h = std::thread::Builder::new()
            .stack_size(4 << 20)
            .spawn_scoped(scope, || part(&s, 1, j, b))
            .expect("thread");
        let x = part(&s, 0, i, a);
        (x, h.join().expect("no panic outside the call"))
    });
    (x, y, !s.forced.load(SeqCst))
}

/// A stream on which every operation is a place to stop.
pub struct Stops<S>(pub S);

impl<S: Read> Read for Stops<S> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        point();
        self.0.read(b)
    }
}
impl<S: Write> Write for Stops<S> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        point();
        self.0.write(b)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        point();
        self.0.flush()
    }
}
impl<S: Seek> Seek for Stops<S> {
    fn seek(&mut self, to: SeekFrom) -> std::io::Result<u64> {
        point();
        self.0.seek(to)
    }
}
