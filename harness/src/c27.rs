//! C27: calls that overlap. Every call is executed one machine instruction at a time (trap flag); at every
//! instruction boundary other calls run to completion, as if another thread or an interrupt handler had been
//! scheduled there. All memory that calls share (the writable statics of the program and the objects) is compared
//! around each of them: a call that leaves it alone cannot influence the suspended one, so only the others need an
//! execution of their own, in which the suspended call is resumed and followed by further calls.
use crate::c18::{world as plain, PARS, WORLDS};
use crate::core::*;
use crate::need;
use crate::ops::*;
use crate::special;
use std::io::{Read, Write};
use std::process::{Command, Stdio};
use std::sync::Arc;

type Letter = (u16, u16, u8);

/// Object sets of C18, then those in special position; parameters likewise.
fn world(w: usize) -> Box<dyn World> {
    if w < WORLDS {
        plain(w)
    } else {
        special::special(w - WORLDS)
    }
}
fn par(p: u8) -> Par {
    let p = p as usize;
    if p < PARS.len() {
        PARS[p]
    } else if p < PARS.len() + special::PARS.len() {
        special::PARS[p - PARS.len()]
    } else {
        special::LONG[p - PARS.len() - special::PARS.len()]
    }
}
/// Parameter sets from here on are for arc lengths only.
const ARCS: usize = PARS.len() + special::PARS.len();

/// Compile-time facts about types, readable at run time: the inherent constant wins when the bound holds.
trait No {
    const SEND: bool = false;
    const SYNC: bool = false;
}
struct IsSend<T>(std::marker::PhantomData<T>);
struct IsSync<T>(std::marker::PhantomData<T>);
impl<T> No for IsSend<T> {}
impl<T> No for IsSync<T> {}
impl<T: Send> IsSend<T> {
    const SEND: bool = true;
}
impl<T: Sync> IsSync<T> {
    const SYNC: bool = true;
}
macro_rules! facts {
    ($($t:ty),* $(,)?) => { vec![ $( (stringify!($t), IsSend::<$t>::SEND, IsSync::<$t>::SYNC) ),* ] };
}
fn types() -> Vec<(&'static str, bool, bool)> {
    use stroke::bezier_segment::BezierSegment;
    use stroke::bspline::BSplineError;
    use stroke::{BSpline, Bezier, CubicBezier, LineSegment, PointN, QuadraticBezier};
    facts![
        PointN<R, 1>, PointN<R, 2>, PointN<R, 7>, PointN<i32, 3>,
        LineSegment<PointN<R, 2>>, QuadraticBezier<PointN<R, 2>>, CubicBezier<PointN<R, 2>>, BezierSegment<PointN<R, 2>>,
        LineSegment<PointN<R, 3>>, QuadraticBezier<PointN<R, 3>>, CubicBezier<PointN<R, 3>>, BezierSegment<PointN<R, 3>>,
        Bezier<PointN<R, 2>, 1>, Bezier<PointN<R, 2>, 2>, Bezier<PointN<R, 3>, 4>, Bezier<PointN<R, 1>, 9>,
        BSpline<PointN<R, 1>, 5, 4, 0>, BSpline<PointN<R, 2>, 8, 4, 3>, BSpline<PointN<R, 3>, 10, 6, 3>, BSpline<PointN<R, 2>, 18, 10, 7>,
        BSplineError, Result<BSpline<PointN<R, 2>, 8, 4, 3>, BSplineError>,
    ]
}

// ---------------------------------------------------------------- the process that is stepped
#[repr(C)]
struct SigAction {
    handler: usize,
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}
extern "C" {
    fn sigaction(n: i32, a: *const SigAction, o: *mut SigAction) -> i32;
    fn setitimer(which: i32, v: *const [i64; 4], o: *mut [i64; 4]) -> i32;
    fn write(fd: i32, b: *const std::ffi::c_void, n: usize) -> isize;
    fn _exit(c: i32) -> !;
    fn mprotect(at: *mut u8, len: usize, prot: i32) -> i32;
    fn mmap(at: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}
const SIGTRAP: i32 = 5;
const SIGPROF: i32 = 27;
const SIGSEGV: i32 = 11;
const SA_SIGINFO: i32 = 4;
/// Offset of the flags register in ucontext_t (x86-64 Linux).
const EFL: usize = 40 + 17 * 8;

/// A byte range that calls can share.
struct Region {
    at: *mut u8,
    len: usize,
}
/// All of it lives on the heap: the statics compared are the library's, and one pointer that does not change.
struct Stepper {
    regions: Vec<Region>,
    pristine: Vec<u8>,
    start: Vec<u8>,
    now: Vec<u8>,
    worlds: Vec<Option<Box<dyn World>>>,
    out_b: *mut Out,
    bs: Vec<(Letter, u64)>,
    /// instructions seen; where to interrupt (0: everywhere), with which of bs
    n: u64,
    only: Option<(u64, usize)>,
    /// at every instruction, or (the other calls see nothing else) whenever shared memory has changed
    sparse: bool,
    changes: Vec<u64>,
    active: Vec<usize>,
    writes: u64,
    calls: u64,
    branches: Vec<(u64, usize)>,
    bad: Option<(u64, usize)>,
    running: usize,
}
static STEPPER: std::sync::atomic::AtomicPtr<Stepper> = std::sync::atomic::AtomicPtr::new(std::ptr::null_mut());

impl Stepper {
    fn same(&self, with: &[u8]) -> bool {
        let mut k = 0;
        for r in &self.regions {
            let live = unsafe { std::slice::from_raw_parts(r.at, r.len) };
            if live != &with[k..k + r.len] {
                return false;
            }
            k += r.len;
        }
        true
    }
    fn save(&self, to: &mut [u8]) {
        let mut k = 0;
        for r in &self.regions {
            unsafe { std::ptr::copy_nonoverlapping(r.at, to[k..].as_mut_ptr(), r.len) };
            k += r.len;
        }
    }
    /// Writes back only what differs.
    fn restore(&self, from: &[u8]) {
        let mut k = 0;
        for r in &self.regions {
            let live = unsafe { std::slice::from_raw_parts_mut(r.at, r.len) };
            for (x, y) in live.chunks_mut(512).zip(from[k..k + r.len].chunks(512)) {
                if x != y {
                    for (a, b) in x.iter_mut().zip(y) {
                        if a != b {
                            *a = *b;
                        }
                    }
                }
            }
            k += r.len;
        }
    }
    fn call(&self, l: Letter, o: &mut Out) -> u64 {
        self.worlds[l.0 as usize].as_ref().unwrap().step(l.1 as usize, par(l.2), o);
        o.hash()
    }
}

unsafe extern "C" fn trap(_: i32, _: *mut u8, uc: *mut u8) {
    let s = &mut *STEPPER.load(std::sync::atomic::Ordering::Relaxed);
    s.n += 1;
    let flags = uc.add(EFL) as *mut u64;
    let out = &mut *s.out_b;
    if let Some((k, b)) = s.only {
        if s.n == k {
            s.running = b;
            let (l, want) = s.bs[b];
            s.calls += 1;
            if s.call(l, out) != want {
                s.bad = Some((k, b));
            }
            *flags &= !0x100;
        }
    } else {
        let moved = !s.same(&s.now);
        let mut now = std::mem::take(&mut s.now);
        if moved {
            s.writes += 1;
            s.save(&mut now);
            if s.changes.len() < s.changes.capacity() {
                s.changes.push(s.n);
            }
        }
        if moved || !s.sparse || s.n == 1 {
            s.active.clear();
            for b in 0..s.bs.len() {
                s.running = b;
                let (l, want) = s.bs[b];
                s.calls += 1;
                if s.call(l, out) != want {
                    s.bad = Some((s.n, b));
                    *flags &= !0x100;
                    break;
                }
                if !s.same(&now) {
                    s.active.push(b);
                    s.restore(&now);
                }
            }
        }
        for b in &s.active {
            if s.branches.len() < s.branches.capacity() {
                s.branches.push((s.n, *b));
            }
        }
        s.now = now;
    }
}
/// Memory that calls share, made read-only: a write is noted and let through.
struct Guard {
    areas: Vec<Region>,
    written: std::sync::atomic::AtomicBool,
}
static GUARD: std::sync::atomic::AtomicPtr<Guard> = std::sync::atomic::AtomicPtr::new(std::ptr::null_mut());
impl Guard {
    fn seen(&self) -> bool {
        self.written.load(std::sync::atomic::Ordering::SeqCst)
    }
    fn set(&self, x: bool) {
        self.written.store(x, std::sync::atomic::Ordering::SeqCst)
    }
    fn protect(&self, on: bool) {
        for r in &self.areas {
            let rc = unsafe { mprotect(r.at, r.len, if on { 1 } else { 3 }) };
            assert!(rc == 0);
        }
    }
}
unsafe extern "C" fn fault(_: i32, info: *mut u8, _: *mut u8) {
    let g = &*GUARD.load(std::sync::atomic::Ordering::Relaxed);
    let at = *(info.add(16) as *const usize);
    if g.seen() || !g.areas.iter().any(|r| (r.at as usize..r.at as usize + r.len).contains(&at)) {
        _exit(139);
    }
    g.set(true);
    g.protect(false);
}
/// The objects in pages of their own.
fn in_pages(w: Box<dyn World>) -> (&'static dyn World, Region) {
    let len = (std::mem::size_of_val(&*w) + 4095) / 4096 * 4096;
    unsafe {
        let at = mmap(std::ptr::null_mut(), len, 3, 0x22, -1, 0);
        assert!(at as isize > 0);
        let mut parts: [usize; 2] = std::mem::transmute(&*w as *const dyn World);
        std::ptr::copy_nonoverlapping(parts[0] as *const u8, at, std::mem::size_of_val(&*w));
        parts[0] = at as usize;
        let p: *const dyn World = std::mem::transmute(parts);
        (&*p, Region { at, len })
    }
}
/// `touch FROM TO EVERY P0 P1`: every operation on the object sets with the parameters: those that write to memory
/// shared between calls, at most so many of each operation.
fn touch(args: &[String]) {
    let num = |i: usize| args[i].parse::<usize>().unwrap();
    let mut g = Box::new(Guard { areas: vec![], written: false.into() });
    unsafe {
        GUARD.store(&mut *g as *mut Guard, std::sync::atomic::Ordering::Relaxed);
        let act = |h: usize| SigAction { handler: h, mask: [0; 16], flags: SA_SIGINFO, restorer: 0 };
        sigaction(SIGSEGV, &act(fault as *const () as usize), std::ptr::null_mut());
    }
    let statics = regions(&[]);
    if args[0] == "monitor" {
        static S: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(7);
        g.areas.extend(statics);
        g.protect(true);
        let s = std::hint::black_box(&S);
        s.store(8, std::sync::atomic::Ordering::SeqCst);
        s.store(7, std::sync::atomic::Ordering::SeqCst);
        let seen = g.seen();
        g.protect(false);
        return print!("{}", if seen { "seen" } else { "not seen" });
    }
    let mut out = Box::new(Out::new());
    let mut found: std::collections::BTreeMap<usize, Vec<(usize, usize)>> = Default::default();
    let (mut calls, mut writers) = (0u64, 0u64);
    let mut pristine: Vec<Vec<u8>> = vec![];
    for r in &statics {
        pristine.push(unsafe { std::slice::from_raw_parts(r.at, r.len) }.to_vec());
    }
    for i in num(1)..num(2) {
        if i >= WORLDS && !special::wanted(i - WORLDS, num(3)) {
            continue;
        }
        let (w, area) = in_pages(world(i));
        let object = unsafe { std::slice::from_raw_parts(area.at, area.len) }.to_vec();
        g.areas.clear();
        for r in statics.iter().chain([&area]) {
            g.areas.push(Region { at: r.at, len: r.len });
        }
        g.protect(true);
        'ops: for k in 0.. {
            if num(4) >= ARCS {
                out.dry = true;
                let more = w.step(k, par(0), &mut out);
                out.dry = false;
                if !more {
                    break;
                }
                if !out.name.contains("arclen") {
                    continue;
                }
            }
            for p in num(4)..num(5) {
                if !w.step(k, par(p as u8), &mut out) {
                    break 'ops;
                }
                calls += 1;
                if g.seen() {
                    writers += 1;
                    let f = found.entry(k).or_default();
                    if f.len() < 20 {
                        f.push((i, p));
                    }
                    for (r, b) in statics.iter().zip(&pristine) {
                        unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), r.at, r.len) };
                    }
                    unsafe { std::ptr::copy_nonoverlapping(object.as_ptr(), area.at, area.len) };
                    g.set(false);
                    g.protect(true);
                }
            }
        }
        g.protect(false);
    }
    let mut t = format!("touch {calls} {writers}");
    for (k, f) in found {
        for (i, p) in f {
            t.push_str(&format!(" {i}:{k}:{p}"));
        }
    }
    println!("{t}");
}

unsafe extern "C" fn out_of_time(_: i32, _: *mut u8, _: *mut u8) {
    let s = &*STEPPER.load(std::sync::atomic::Ordering::Relaxed);
    // no formatting that could allocate
    let mut t = *b"hang ........ ........\n";
    for (at, x) in [(5usize, s.n), (14, s.running as u64)] {
        let mut x = x;
        for i in (0..8).rev() {
            t[at + i] = b'0' + (x % 10) as u8;
            x /= 10;
        }
    }
    write(1, t.as_ptr() as *const std::ffi::c_void, t.len());
    _exit(0)
}

/// Processor time that one stepped call with everything inside it may take.
fn rewind_timer() {
    unsafe { setitimer(2, &[0, 0, 40, 0], std::ptr::null_mut()) };
}

/// The call, one instruction at a time.
#[inline(never)]
fn stepped(s: &Stepper, l: Letter, o: &mut Out) -> u64 {
    let w = s.worlds[l.0 as usize].as_ref().unwrap();
    unsafe {
        std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
    }
    w.step(l.1 as usize, par(l.2), o);
    unsafe {
        std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq");
    }
    o.hash()
}

/// Writable statics of this program, and the objects.
fn regions(worlds: &[Option<Box<dyn World>>]) -> Vec<Region> {
    let mut v = vec![];
    let exe = std::env::current_exe().unwrap();
    let exe = exe.to_str().unwrap();
    let maps = std::fs::read_to_string("/proc/self/maps").unwrap();
    let mut end = 0usize;
    for l in maps.lines() {
        let f: Vec<&str> = l.split_whitespace().collect();
        let (a, b) = f[0].split_once('-').unwrap();
        let (a, b) = (usize::from_str_radix(a, 16).unwrap(), usize::from_str_radix(b, 16).unwrap());
        let own = f.len() > 5 && f[5] == exe;
        // zero-initialised statics follow the mapped file without a name
        if f[1].starts_with("rw") && (own || (f.len() == 5 && a == end)) {
            v.push(Region { at: a as *mut u8, len: b - a });
            end = b;
        } else if own {
            end = b;
        }
    }
    for w in worlds.iter().flatten() {
        v.push(Region { at: &**w as *const dyn World as *const u8 as *mut u8, len: std::mem::size_of_val(&**w) });
    }
    v
}

/// Child process. `length W K P`: instructions of one call. `overlap W K P`: stdin lists the other calls with
/// what they return alone.
pub fn fresh(args: &[String]) {
    let num = |i: usize| args[i].parse::<u64>().unwrap();
    if args[0] == "touch" || args[0] == "monitor" {
        return touch(args);
    }
    let a: Letter = (num(1) as u16, num(2) as u16, num(3) as u8);
    let mut buf = vec![];
    std::io::stdin().read_to_end(&mut buf).unwrap();
    let mut bs = vec![];
    for c in buf.chunks(16) {
        let f = |i: usize| u16::from_le_bytes([c[i], c[i + 1]]);
        bs.push(((f(0), f(2), f(4) as u8), u64::from_le_bytes(c[8..16].try_into().unwrap())));
    }
    let want_a = if args[0] != "overlap" { 0 } else { u64::from_str_radix(&args[5], 16).unwrap() };
    let (budget, work) = if args[0] != "overlap" { (0.0, 0.0) } else { (num(6) as f64 / 1000.0, num(7) as f64) };
    let mut worlds: Vec<Option<Box<dyn World>>> = (0..WORLDS + special::SPECIALS).map(|_| None).collect();
    for l in bs.iter().map(|b| b.0).chain([a]) {
        if worlds[l.0 as usize].is_none() {
            worlds[l.0 as usize] = Some(world(l.0 as usize));
        }
    }
    let mut s = Box::new(Stepper {
        regions: regions(&worlds),
        pristine: vec![],
        start: vec![],
        now: vec![],
        worlds,
        out_b: Box::into_raw(Box::new(Out::new())),
        bs: vec![],
        n: 0,
        only: None,
        sparse: false,
        changes: Vec::with_capacity(100_000),
        active: Vec::with_capacity(bs.len() + 1),
        writes: 0,
        calls: 0,
        branches: Vec::with_capacity(1_000_000),
        bad: None,
        running: 0,
    });
    let total: usize = s.regions.iter().map(|r| r.len).sum();
    s.pristine = vec![0; total];
    s.start = vec![0; total];
    s.now = vec![0; total];
    let mut out = Box::new(Out::new());
    unsafe {
        STEPPER.store(&mut *s as *mut Stepper, std::sync::atomic::Ordering::Relaxed);
        let act = |h: usize| SigAction { handler: h, mask: [0; 16], flags: SA_SIGINFO, restorer: 0 };
        sigaction(SIGTRAP, &act(trap as *const () as usize), std::ptr::null_mut());
        sigaction(SIGPROF, &act(out_of_time as *const () as usize), std::ptr::null_mut());
    }
    rewind_timer();
    let mut p = std::mem::take(&mut s.pristine);
    s.save(&mut p);
    s.pristine = p;
    s.start = s.pristine.clone();
    s.now = s.pristine.clone();
    let say = |w: String| {
        let o = std::io::stdout();
        let mut o = o.lock();
        let _ = o.write_all(w.as_bytes());
        let _ = o.flush();
        unsafe { _exit(0) }
    };
    if args[0] == "length" {
        let h = stepped(&s, a, &mut out);
        // the same call, not stepped, from the same state
        let w = s.writes;
        s.restore(&s.start);
        let g = s.call(a, &mut out);
        say(format!("len {} {w} {h:016x} {g:016x}", s.n));
    }
    // the first state
    s.bs = bs.clone();
    s.sparse = work == 0.0;
    let h = stepped(&s, a, &mut out);
    if let Some((n, b)) = s.bad {
        say(format!("inner {n} {b}"));
    }
    if h != want_a {
        say(format!("outer {} 0 0", s.n));
    }
    let (steps, calls, writes) = (s.n, s.calls, s.writes);
    let t0 = std::time::Instant::now();
    let mut all = s.branches.clone();
    let mut changes = s.changes.clone();
    s.restore(&s.pristine);
    let (mut runs, mut left) = (0u64, 0u64);
    if writes > 0 || !all.is_empty() {
        // some call writes to shared memory. Further first states: after one of these calls.
        s.sparse = true;
        let mut starts: Vec<Option<Letter>> = vec![None, Some(a)];
        let mut seen = std::collections::BTreeSet::new();
        for (_, b) in &all {
            if seen.insert(*b) && starts.len() < 40 {
                starts.push(Some(bs[*b].0));
            }
        }
        let mut probes: Vec<(Letter, u64)> = vec![(a, want_a)];
        probes.extend(bs.iter().filter(|b| (b.0).1 == a.1).cloned());
        for (k, st) in starts.iter().enumerate() {
            if k > 0 && t0.elapsed().as_secs_f64() > budget {
                left += 1;
                continue;
            }
            rewind_timer();
            s.restore(&s.pristine);
            if let Some(l) = st {
                s.call(*l, &mut out);
            }
            let mut x = std::mem::take(&mut s.start);
            s.save(&mut x);
            s.start = x;
            if k > 0 {
                s.n = 0;
                s.only = None;
                s.branches.clear();
                s.changes.clear();
                s.now = s.start.clone();
                let h = stepped(&s, a, &mut out);
                if let Some((n, b)) = s.bad {
                    say(format!("inner {n} {b}"));
                }
                if h != want_a {
                    say(format!("outer {} 0 0", s.n));
                }
                all = s.branches.clone();
                changes = s.changes.clone();
            }
            // The order in which they are run if the time does not suffice for all: around writes of the call
            // itself, the same operation, then spread over the call.
            let near = |n: u64| {
                let i = changes.partition_point(|c| *c < n);
                !(changes.get(i).map_or(false, |c| *c - n <= 2) || i > 0 && n - changes[i - 1] <= 1)
            };
            all.sort_by_cached_key(|(n, b)| (near(*n), n.reverse_bits() >> 40, (bs[*b].0).1 != a.1, *b));
            for (i, (n, b)) in all.iter().enumerate() {
                if t0.elapsed().as_secs_f64() > budget * (k + 1) as f64 / starts.len() as f64 {
                    left += (all.len() - i) as u64;
                    break;
                }
                rewind_timer();
                s.restore(&s.start);
                s.n = 0;
                s.only = Some((*n, *b));
                let h = stepped(&s, a, &mut out);
                runs += 1;
                if s.bad.is_some() {
                    say(format!("inner {n} {b}"));
                }
                if h != want_a {
                    say(format!("outer {n} {b} 1"));
                }
                let (l, want) = bs[*b];
                for (j, (q, w)) in [(l, want)].iter().chain(probes.iter()).enumerate() {
                    if s.call(*q, &mut out) != *w {
                        say(format!("later {n} {b} {j} {} {} {}", q.0, q.1, q.2));
                    }
                }
            }
        }
    }
    say(format!("ok {steps} {calls} {writes} {runs} {left}"));
}

fn child(args: &[String], input: &[u8]) -> Result<String, Violation> {
    let exe = std::env::current_exe().map_err(|e| Violation(format!("current_exe: {e}")))?;
    let mut c = Command::new(exe).arg("--overlap").args(args).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("spawn");
    {
        let mut i = c.stdin.take().unwrap();
        let _ = i.write_all(input);
    }
    let out = c.wait_with_output().expect("wait");
    need!(out.status.success(), "the process running {args:?} one instruction at a time ended with {:?}: an overlapping call panicked or crashed", out.status);
    Ok(String::from_utf8_lossy(&out.stdout).into_owned())
}
fn args(what: &str, l: Letter) -> Vec<String> {
    vec![what.into(), l.0.to_string(), l.1.to_string(), l.2.to_string()]
}
fn describe(l: Letter) -> String {
    let w = world(l.0 as usize);
    let mut o = Out::new();
    w.step(l.1 as usize, par(l.2), &mut o);
    format!("[{} on object set {} with t={:?}, n={}]", o.name, l.0, par(l.2).t, par(l.2).n)
}

#[derive(Clone, Copy, Default)]
struct Alone {
    steps: u64,
    writes: u64,
    hash: u64,
    ok: bool,
}
/// Instructions and result of each call alone, in a process of its own.
fn alone(al: &[Letter]) -> Vec<Alone> {
    let next = std::sync::atomic::AtomicUsize::new(0);
    let out = std::sync::Mutex::new(vec![Alone::default(); al.len()]);
    std::thread::scope(|s| {
        for _ in 0..std::thread::available_parallelism().map_or(4, |n| n.get()) {
            s.spawn(|| loop {
                let i = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                if i >= al.len() {
                    break;
                }
                // a failing call is reported by the suite
                let r = child(&args("length", al[i]), &[]).unwrap_or_default();
                let f: Vec<&str> = r.split(' ').collect();
                if f[0] == "len" {
                    let h = u64::from_str_radix(f[3], 16).unwrap();
                    out.lock().unwrap()[i] = Alone { steps: f[1].parse().unwrap(), writes: f[2].parse().unwrap(), hash: h, ok: f[3] == f[4] };
                }
            });
        }
    });
    out.into_inner().unwrap()
}

fn letters(w: u16, par: u8) -> Vec<Letter> {
    (0..world(w as usize).ops()).map(|k| (w, k as u16, par)).collect()
}

/// One call stepped, the others inside it. [_, instructions, calls inside, writes, resumed, left out]
fn run(a: Letter, x: Alone, b: &[Letter], input: &[u8], ms: u64, dense: bool) -> Result<Vec<u64>, Violation> {
    let mut ar = args("overlap", a);
    ar.push(x.steps.to_string());
    ar.push(format!("{:016x}", x.hash));
    ar.push(ms.to_string());
    ar.push((dense as u8).to_string());
    let s = child(&ar, input)?;
    let f: Vec<&str> = s.trim().split(' ').collect();
    let other = |j: usize| describe(b[f[j].parse::<usize>().unwrap()]);
    match f[0] {
        "ok" => {}
        "inner" => crate::bail!("{} does not return what it returns alone when it runs while {} is suspended after {} of its instructions", other(2), describe(a), f[1]),
        "outer" if f[3] == "1" => crate::bail!("{}, suspended after {} of its instructions while {} runs, does not return what it returns alone", describe(a), f[1], other(2)),
        "outer" => crate::bail!("{} does not return what it returns alone after other calls", describe(a)),
        "later" => crate::bail!(
            "after {} was suspended after {} of its instructions while {} ran, {} does not return what it returns alone",
            describe(a),
            f[1],
            other(2),
            describe((f[4].parse().unwrap(), f[5].parse().unwrap(), f[6].parse().unwrap()))
        ),
        "hang" => crate::bail!("{} does not return while {} is suspended after {} of its instructions", other(2), describe(a), f[1].parse::<u64>().unwrap()),
        _ => crate::bail!("no result from the process of {}: {s:?}", describe(a)),
    }
    Ok(f.iter().map(|x| x.parse().unwrap_or(0)).collect())
}

/// All operations of object sets: those that write to memory shared between calls, if only for a moment, are run
/// overlapping with themselves on the same and other data and parameters.
fn writers(name: &str, tier: Tier, from: usize, n: usize, chunk: usize, every: usize, pars: (usize, usize), ms: u64) -> Suite {
    let chunks = (n + chunk - 1) / chunk;
    suite(
        name,
        format!("every operation on {n} object sets with {} parameter sets, all shared memory read-only: those that write to it nevertheless are suspended at each instruction, there the same operation with the same and other data", pars.1 - pars.0),
        chunks as u64,
        move |i, ctx| {
            let (lo, hi) = (from + i as usize * chunk, (from + (i as usize + 1) * chunk).min(from + n));
            let s = child(&["touch".into(), lo.to_string(), hi.to_string(), every.to_string(), pars.0.to_string(), pars.1.to_string()], &[])?;
            let f: Vec<&str> = s.trim().split(' ').collect();
            need!(f[0] == "touch", "no result from the process calling every operation on object sets {lo}..{hi}: {s:?}");
            let (calls, writing): (u64, u64) = (f[1].parse().unwrap(), f[2].parse().unwrap());
            ctx.state();
            ctx.trans(calls);
            ctx.trace();
            ctx.class_n("calls made with all shared memory read-only", calls);
            if writing == 0 {
                return Ok(());
            }
            ctx.class_n("of those, calls that write to it", writing);
            let t0 = std::time::Instant::now();
            // one of each operation, then a second, ...
            let mut found: Vec<(usize, Letter)> = vec![];
            for x in &f[3..] {
                let y: Vec<u16> = x.split(':').map(|y| y.parse().unwrap()).collect();
                let l: Letter = (y[0], y[1], y[2] as u8);
                found.push((found.iter().filter(|z| (z.1).1 == l.1).count(), l));
            }
            found.sort();
            let m = found.len();
            for (done, (_, a)) in found.into_iter().enumerate() {
                let left = ms as i64 - t0.elapsed().as_millis() as i64;
                if left < 0 {
                    ctx.class_n("of those, left to the other suites for time", (m - done) as u64);
                    break;
                }
                let (w, k, p) = a;
                let kind = if (w as usize) < WORLDS { 1 } else { special::KINDS as u16 };
                let other = if w < 2 { 1 - w } else if (w as usize) < WORLDS || w as usize + special::KINDS >= WORLDS + special::SPECIALS { w } else { w + kind };
                let np = (pars.1 - pars.0) as u8;
                let q = |d: u8| pars.0 as u8 + (p - pars.0 as u8 + d) % np;
                let mut b: Vec<Letter> = vec![];
                for z in [w, other] {
                    for d in [0, 1, 5] {
                        b.push((z, k, q(d)));
                    }
                }
                let r = alone(&b);
                let x = r[0];
                need!(x.ok, "{} does not return the same when executed one instruction at a time", describe(b[0]));
                let mut input = vec![];
                for (l, x) in b.iter().zip(&r) {
                    for z in [l.0, l.1, l.2 as u16, 0] {
                        input.extend(z.to_le_bytes());
                    }
                    input.extend(x.hash.to_le_bytes());
                }
                // an eighth of what is left, or an equal share of it
                let share = left as u64 / (m - done) as u64;
                let n = run(b[0], x, &b, &input, share.max(left as u64 / 8), false)?;
                ctx.trans(n[2] + n[4]);
                ctx.class_n("suspensions resumed after a call that wrote to shared memory", n[4]);
            }
            Ok(())
        },
    )
    .must(&["calls made with all shared memory read-only"])
}

fn overlap(name: &str, a: Vec<Letter>, b: Vec<Letter>, work: f64, tier: Tier, t0: std::time::Instant) -> Suite {
    let (la, lb) = (Arc::new(alone(&a)), Arc::new(alone(&b)));
    let (a, b) = (Arc::new(a), Arc::new(b));
    let ms = tier.pick(2_000, 3_000, 30_000);
    // far into the run (which only happens if calls write to shared memory), less for each
    let late: u64 = tier.pick(300, 300, 2500);
    let longest = la.iter().map(|x| x.steps).max().unwrap_or(0);
    suite(
        name,
        format!(
            "each of {} calls (up to {longest} instructions) suspended at each of its instructions, there every one of {} calls (the same operation, then the shortest, up to a product of {work:e} instructions)",
            a.len(),
            b.len()
        ),
        a.len() as u64,
        move |i, ctx| {
            let i = i as usize;
            let x = la[i];
            need!(x.steps > 0 && x.ok, "{} does not return the same when executed one instruction at a time", describe(a[i]));
            // same operation first, then by length
            let mut order: Vec<usize> = (0..b.len()).filter(|k| lb[*k].steps > 0).collect();
            order.sort_by_key(|k| (b[*k].1 != a[i].1, lb[*k].steps));
            let mut sum = 0.0;
            let mut input = vec![];
            let mut used = vec![];
            for k in order {
                sum += (lb[k].steps + 1500) as f64;
                if used.len() >= 4 && sum * x.steps as f64 > work {
                    break;
                }
                for z in [b[k].0, b[k].1, b[k].2 as u16, 0] {
                    input.extend(z.to_le_bytes());
                }
                input.extend(lb[k].hash.to_le_bytes());
                used.push(k);
            }
            let bs: Vec<Letter> = used.iter().map(|k| b[*k]).collect();
            let f = run(a[i], x, &bs, &input, if t0.elapsed().as_secs() > late { ms / 10 } else { ms }, true)?;
            let n = |j: usize| f[j];
            for _ in 0..n(1) {
                ctx.state();
            }
            ctx.trans(n(2));
            ctx.traces += n(2);
            ctx.outcome(x.hash);
            ctx.class_n("instruction boundaries at which calls were suspended", n(1));
            ctx.class_n("calls run inside another call", n(2));
            if n(3) + n(4) + n(5) == 0 {
                ctx.class("calls that write to no shared memory at any instruction");
            } else {
                ctx.class_n("suspensions resumed after a call that wrote to shared memory", n(4));
                ctx.class_n("of those, left out for time", n(5));
            }
            if i == 3 {
                ctx.sample(|| format!("{} suspended at each of {} instructions, {} other calls at each", describe(a[3]), n(1), used.len()));
            }
            Ok(())
        },
    )
    .must(&["calls run inside another call"])
}

pub fn suites(tier: Tier) -> Vec<Suite> {
    let mut v = vec![];
    let ts = types();
    v.push(suite("types", format!("{} types", ts.len()), ts.len() as u64, move |i, ctx| {
        let (n, send, sync) = types()[i as usize];
        need!(send, "{n} cannot be sent to another thread");
        need!(sync, "{n} cannot be shared between threads");
        ctx.state();
        ctx.trans(2);
        ctx.trace();
        ctx.class("types that can be shared and sent");
        Ok(())
    }));
    let t0 = std::time::Instant::now();
    v.push(writers("writers", tier, 0, 8, 1, 1, (0, PARS.len()), tier.pick(20_000, 40_000, 200_000)));
    let m = tier.pick(11 * 20, special::SPECIALS, special::SPECIALS);
    v.push(writers("writers-special", tier, WORLDS, m, m / 60, tier.pick(20, 8, 1), (PARS.len(), ARCS), tier.pick(5_000, 6_000, 60_000)));
    let m = tier.pick(11 * 2, 11 * 40, special::SPECIALS / 10);
    let last = ARCS + special::LONG.len() - 1;
    v.push(writers("writers-long", tier, WORLDS, m, 11, 2, (ARCS, last), tier.pick(5_000, 6_000, 60_000)));
    v.push(writers("writers-longest", tier, WORLDS, m / 20, 2, 2, (last, last + 1), tier.pick(5_000, 6_000, 60_000)));
    // the monitor itself: a write for a moment is seen
    v.push(suite("monitor", "one deliberate write to a static, undone at once, must be seen", 1, |_, ctx| {
        let s = child(&["monitor".into()], &[])?;
        need!(s.trim() == "seen", "writes to shared memory are not noticed");
        ctx.state();
        ctx.trace();
        Ok(())
    }));
    let work = tier.pick(1e8, 1e9, 2e10);
    let both = |x: u16, y: u16, p: u8, q: u8| -> Vec<Letter> { letters(x, p).into_iter().chain(letters(y, q)).collect() };
    v.push(overlap("overlap-2d", letters(0, 0), both(0, 1, 0, 1), work, tier, t0));
    v.push(overlap("overlap-3d", letters(2, 1), letters(2, 0), work / 4.0, tier, t0));
    if tier == Tier::Thorough {
        v.push(overlap("overlap-2d-other", letters(1, 2), both(0, 1, 1, 2), work / 4.0, tier, t0));
        v.push(overlap("overlap-1d", letters(3, 0), letters(3, 1), work / 4.0, tier, t0));
        v.push(overlap("overlap-8d", letters(4, 0), letters(4, 1), work / 4.0, tier, t0));
        v.push(overlap("overlap-long", letters(5, 0), letters(5, 1), work / 4.0, tier, t0));
    }
    v
}
