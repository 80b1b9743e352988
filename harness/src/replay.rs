//! Runs harnesses natively on given inputs. stdin: one case per line, `harness name=hex name=hex ...`;
//! stdout: one line per case, `outcome<TAB>detail<TAB>log,log,...`.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::UnsafeCell;
use std::io::{BufRead, Write};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};

include!(concat!(env!("CARGO_MANIFEST_DIR"), "/../build/table.rs"));

// ---- an allocator that checks what it is given back
const SLOTS: usize = 1 << 16;
struct Tracker {
    lock: AtomicBool,
    on: AtomicBool,
    tab: UnsafeCell<[(usize, usize, usize, bool); SLOTS]>, // address, size, align, live
    live: AtomicUsize,
    count: AtomicUsize,
    n: AtomicUsize,
}
unsafe impl Sync for Tracker {}
impl Tracker {
    fn with<R>(&self, f: impl FnOnce(&mut [(usize, usize, usize, bool); SLOTS]) -> R) -> R {
        while self.lock.swap(true, SeqCst) {}
        let r = f(unsafe { &mut *self.tab.get() });
        self.lock.store(false, SeqCst);
        r
    }
}
const RED: usize = 32;
unsafe impl GlobalAlloc for Tracker {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !self.on.load(SeqCst) || l.align() > RED {
            return System.alloc(l);
        }
        let p = System.alloc(Layout::from_size_align_unchecked(l.size() + 2 * RED, RED));
        if p.is_null() { return p; }
        std::ptr::write_bytes(p, 0xfa, RED);
        std::ptr::write_bytes(p.add(RED), 0xcd, l.size());
        std::ptr::write_bytes(p.add(RED + l.size()), 0xfb, RED);
        let q = p.add(RED);
        self.with(|t| {
            let n = self.n.fetch_add(1, SeqCst);
            if n < SLOTS { t[n] = (q as usize, l.size(), l.align(), true); }
        });
        self.live.fetch_add(1, SeqCst);
        self.count.fetch_add(1, SeqCst);
        q
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let what = self.with(|t| {
            let n = self.n.load(SeqCst).min(SLOTS);
            for e in t[..n].iter_mut().rev() {
                if e.0 == p as usize {
                    if !e.3 { return Some(Err("double free")); }
                    e.3 = false;
                    if e.1 != l.size() || e.2 != l.align() { return Some(Err("deallocation with another layout")); }
                    return Some(Ok(()));
                }
                if (p as usize) > e.0 && (p as usize) < e.0 + e.1 { return Some(Err("deallocation of an interior pointer")); }
            }
            None
        });
        match what {
            None => System.dealloc(p, l), // from before the tracking started
            Some(Err(m)) => finish("memory", m),
            Some(Ok(())) => {
                self.live.fetch_sub(1, SeqCst);
                check_red(p, l.size());
                // quarantine: poisoned and never reused
                std::ptr::write_bytes(p, 0xdd, l.size());
                if GIVE_BACK.load(SeqCst) { System.dealloc(p.sub(RED), Layout::from_size_align_unchecked(l.size() + 2 * RED, RED)); }
            }
        }
    }
}
static GIVE_BACK: AtomicBool = AtomicBool::new(false);
unsafe fn check_red(p: *mut u8, n: usize) {
    for i in 0..RED {
        if *p.sub(RED).add(i) != 0xfa || *p.add(n + i) != 0xfb { finish("memory", "write outside the bounds of an allocation"); }
    }
}
#[global_allocator]
static A: Tracker = Tracker {
    lock: AtomicBool::new(false), on: AtomicBool::new(false), tab: UnsafeCell::new([(0, 0, 0, false); SLOTS]),
    live: AtomicUsize::new(0), count: AtomicUsize::new(0), n: AtomicUsize::new(0),
};

// ---- the case being run
struct Case { inputs: Vec<(String, Vec<u8>)>, seen: Vec<(String, usize)>, logs: Vec<u64>, abort_ok: bool, threads: Vec<(extern "C" fn(*mut u8), usize)> }
static mut CASE: Option<Case> = None;
fn case() -> &'static mut Case { unsafe { (*std::ptr::addr_of_mut!(CASE)).as_mut().unwrap() } }

fn finish(outcome: &str, detail: &str) -> ! {
    A.on.store(false, SeqCst);
    let logs: Vec<String> = case().logs.iter().map(|l| format!("{l:x}")).collect();
    let s = format!("{outcome}\t{detail}\t{}\n", logs.join(","));
    unsafe {
        libc::write(1, s.as_ptr().cast(), s.len());
        libc::_exit(0)
    }
}
struct Untracked(bool);
fn untracked() -> Untracked { Untracked(A.on.swap(false, SeqCst)) }
impl Drop for Untracked { fn drop(&mut self) { A.on.store(self.0, SeqCst); } }
unsafe fn text<'a>(p: *const u8, n: usize) -> &'a str { std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, n)) }

#[no_mangle] unsafe extern "C" fn se_symbolic(p: *mut u8, n: usize, name: *const u8, len: usize) {
    let _u = untracked();
    let c = case();
    let mut name = text(name, len).to_string();
    let k = match c.seen.iter_mut().find(|s| s.0 == name) { Some(s) => { s.1 += 1; s.1 } None => { c.seen.push((name.clone(), 0)); 0 } };
    if k > 0 { name = format!("{name}#{k}"); }
    let dst = std::slice::from_raw_parts_mut(p, n);
    dst.fill(0);
    if let Some((_, v)) = c.inputs.iter().find(|i| i.0 == name) { let m = v.len().min(n); dst[..m].copy_from_slice(&v[..m]); }
}
#[no_mangle] extern "C" fn se_assume(c: bool) { if !c { finish("assume", "") } }
#[no_mangle] unsafe extern "C" fn se_assert(c: bool, msg: *const u8, len: usize) { if !c { finish("assert", text(msg, len)) } }
#[no_mangle] extern "C" fn se_cover(_: *const u8, _: usize) {}
#[no_mangle] extern "C" fn se_log(v: u64) { let _u = untracked(); case().logs.push(v) }
#[no_mangle] extern "C" fn se_heap_live() -> usize { A.live.load(SeqCst) }
#[no_mangle] extern "C" fn se_heap_allocs() -> usize { A.count.load(SeqCst) }
#[no_mangle] extern "C" fn se_abort_ok(b: bool) { case().abort_ok = b }
#[no_mangle] extern "C" fn se_concrete(v: usize) -> usize { v }
#[no_mangle] extern "C" fn se_is_native() -> bool { true }
#[no_mangle] unsafe extern "C" fn se_try(f: extern "C" fn(*mut u8), d: *mut u8) -> bool {
    let (live, count) = (A.live.load(SeqCst), A.count.load(SeqCst));
    let _ = (live, count);
    std::panic::catch_unwind(|| f(d)).map_err(|e| { let _ = &e; drop(e) }).is_err()
}
// Natively the threads run one after the other, at `join_all`: one of the schedules.
#[no_mangle] unsafe extern "C" fn se_spawn(f: extern "C" fn(*mut u8), d: *mut u8) { let _u = untracked(); case().threads.push((f, d as usize)); }
#[no_mangle] extern "C" fn se_join_all() {
    let ts: Vec<_> = { let _u = untracked(); case().threads.drain(..).collect() };
    for (f, d) in ts.iter() { f(*d as *mut u8) }
    let _u = untracked();
    drop(ts);
}

extern "C" fn on_signal(s: i32) {
    if s == libc::SIGABRT && case().abort_ok { finish("abort", "") }
    finish(if s == libc::SIGABRT { "abort" } else { "memory" }, match s { libc::SIGABRT => "aborted", libc::SIGSEGV => "SIGSEGV", libc::SIGILL => "SIGILL", libc::SIGBUS => "SIGBUS", libc::SIGFPE => "SIGFPE", _ => "signal" })
}

fn run_case(line: &str) {
    let mut it = line.split_whitespace();
    let name = it.next().unwrap();
    let inputs = it.map(|kv| {
        let (k, v) = kv.split_once('=').unwrap();
        (k.to_string(), (0..v.len() / 2).map(|i| u8::from_str_radix(&v[2 * i..2 * i + 2], 16).unwrap()).collect())
    }).collect();
    unsafe { CASE = Some(Case { inputs, seen: vec![], logs: vec![], abort_ok: false, threads: vec![] }) };
    let f = TABLE.iter().find(|t| t.0 == name).unwrap_or_else(|| finish("nosuch", name)).1;
    std::panic::set_hook(Box::new(|_| {}));
    // what the runtime allocates lazily on a first panic is not the harness's
    let _ = std::panic::catch_unwind(|| panic!("{}", 1));
    for s in [libc::SIGABRT, libc::SIGSEGV, libc::SIGILL, libc::SIGBUS, libc::SIGFPE, libc::SIGTRAP] {
        unsafe { libc::signal(s, on_signal as usize); }
    }
    GIVE_BACK.store(std::env::var_os("GIVE_BACK").is_some(), SeqCst);
    A.on.store(true, SeqCst);
    let r = std::panic::catch_unwind(|| f());
    A.on.store(false, SeqCst);
    match r { Ok(()) => finish("ok", ""), Err(_) => finish("panic", "panic escapes the harness") }
}

fn main() {
    let lines: Vec<String> = std::io::stdin().lock().lines().map(|l| l.unwrap()).filter(|l| !l.trim().is_empty()).collect();
    let nofork = std::env::var_os("NOFORK").is_some();
    for l in &lines {
        if nofork { run_case(l); }
        std::io::stdout().flush().unwrap();
        unsafe {
            let pid = libc::fork();
            if pid == 0 {
                libc::alarm(20);
                // the code under test may print
                let null = libc::open(b"/dev/null\0".as_ptr().cast(), libc::O_WRONLY);
                libc::dup2(null, 2);
                run_case(l);
                libc::_exit(0);
            }
            let mut st = 0;
            libc::waitpid(pid, &mut st, 0);
            if !libc::WIFEXITED(st) { println!("memory\tkilled by signal {}\t", libc::WTERMSIG(st)); }
        }
    }
}
