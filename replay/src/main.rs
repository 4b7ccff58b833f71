//! Native replay: runs the same harness sources, compiled normally against /repo, on one concrete
//! assignment of the inputs.  Every case runs in a forked child under a fencing allocator.
#![allow(unused, improper_ctypes_definitions)]
#[macro_use]
#[path = "/verif/harness/src/rt.rs"]
pub mod rt;
#[path = "/verif/harness/src/common.rs"]
pub mod common;
#[path = "/verif/harness/src/graph.rs"]
pub mod graph;
include!("/verif/harness/src/modules.rs");

use std::alloc::{GlobalAlloc, Layout, System};
use std::io::{Read, Write};

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn alarm(s: u32) -> u32;
    fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn mprotect(a: *mut u8, n: usize, p: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn pipe(fds: *mut i32) -> i32;
    fn read(fd: i32, b: *mut u8, n: usize) -> isize;
    fn write(fd: i32, b: *const u8, n: usize) -> isize;
    fn close(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn open(p: *const u8, fl: i32) -> i32;
}

// ------------------------------------------------------------------------------ allocator
const PAGE: usize = 4096;
const REGION: usize = 1 << 36;
static mut ACTIVE: bool = false;
static mut BASE: usize = 0;
static mut NEXT: usize = 0;
static mut LIVE: isize = 0;
static mut FILL: u8 = 0xA5;
static mut OUT_FD: i32 = 1;
struct Fence;
#[repr(C)]
struct Meta { magic: u64, size: usize, align: usize, freed: u64, start: usize, pages: usize }
const MAGIC: u64 = 0x5EED_F00D_CAFE_1234;

fn say(s: &str) {
    unsafe { write(OUT_FD, s.as_ptr(), s.len()); }
}
fn die(s: &str) -> ! {
    say("\nOUTCOME ");
    say(s);
    say("\n");
    unsafe { _exit(0) }
}
unsafe impl GlobalAlloc for Fence {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !ACTIVE { return System.alloc(l); }
        let pages = (l.size() + PAGE - 1) / PAGE + if l.align() > 16 { 1 } else { 0 };
        let pages = if pages == 0 { 1 } else { pages };
        // guard | meta | data... | guard
        let at = NEXT;
        let total = (pages + 3) * PAGE;
        if at + total > BASE + REGION { die("harness-oom"); }
        NEXT += total - PAGE; // share the guard page
        mprotect((at + PAGE) as *mut u8, (pages + 1) * PAGE, 3);
        let meta = (at + PAGE) as *mut Meta;
        let data = at + 2 * PAGE;
        let end = data + pages * PAGE;
        let start = (end - l.size()) & !(l.align() - 1);
        *meta = Meta { magic: MAGIC, size: l.size(), align: l.align(), freed: 0, start, pages };
        std::ptr::write_bytes(data as *mut u8, FILL, pages * PAGE);
        LIVE += 1;
        start as *mut u8
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let a = p as usize;
        if a < BASE || a >= BASE + REGION { return System.dealloc(p, l); }
        let mut m = (a & !(PAGE - 1)) - PAGE;
        let mut meta = m as *mut Meta;
        // interior pointers of multi-page blocks: walk back (readable pages only)
        if (*meta).magic != MAGIC || (*meta).start != a { die("bad-dealloc not the start of a block"); }
        if (*meta).freed != 0 { die("double-free"); }
        if (*meta).size != l.size() || (*meta).align != l.align() { die("bad-dealloc size or alignment differs from the allocation"); }
        let data = m + PAGE;
        let mut k = data;
        while k < a { if *(k as *const u8) != FILL { die("out-of-bounds write before a block"); } k += 1; }
        (*meta).freed = 1;
        LIVE -= 1;
        mprotect(data as *mut u8, (*meta).pages * PAGE, 0);
    }
}
#[global_allocator]
static GLOBAL: Fence = Fence;

// ------------------------------------------------------------------------------ intrinsics
static mut INPUTS: Vec<u128> = vec![];
static mut POS: usize = 0;
static mut TIER: u64 = 0;
static mut OBS: Vec<u64> = vec![];
static mut MODE: u8 = 0; // 0 never, 1 must panic, 2 may panic

#[allow(static_mut_refs)]
fn next() -> u128 {
    unsafe {
        if POS >= INPUTS.len() { die("input-underrun"); }
        POS += 1;
        INPUTS[POS - 1]
    }
}
#[no_mangle] pub extern "C-unwind" fn rs_int(w: u32, lo: i64, hi: i64) -> i64 {
    let x = next();
    let x = if w < 64 { ((x as u64) << (64 - w)) as i64 >> (64 - w) } else { x as i64 };
    if x < lo || x > hi { die("input-range"); }
    x
}
#[no_mangle] pub extern "C-unwind" fn rs_any(w: u32) -> u64 {
    let x = next() as u64;
    if w < 64 { x & ((1 << w) - 1) } else { x }
}
#[no_mangle] pub extern "C-unwind" fn rs_choice(lo: u64, hi: u64) -> u64 {
    let x = next() as u64;
    if x < lo || x > hi { die("input-range"); }
    x
}
#[no_mangle] pub extern "C-unwind" fn rs_shard() {}
#[no_mangle] pub extern "C-unwind" fn rs_assume(c: bool) { if !c { die("assumption-false") } }
#[no_mangle] pub extern "C-unwind" fn rs_assert(c: bool, id: u32) {
    if !c { unsafe { ACTIVE = false; } die(&format!("assert {}", id)) }
}
#[no_mangle] pub extern "C-unwind" fn rs_panic_if(c: bool) { unsafe { MODE = c as u8; } }
#[no_mangle] pub extern "C-unwind" fn rs_panic_ok() { unsafe { MODE = 2; } }
#[no_mangle] pub extern "C-unwind" fn rs_panic_end() {
    unsafe { if MODE == 1 { die("no-rejection") } MODE = 0; }
}
#[allow(static_mut_refs)]
#[no_mangle] pub extern "C-unwind" fn rs_observe(v: u64) { unsafe { if OBS.len() < OBS.capacity() { OBS.push(v) } } }
#[no_mangle] pub extern "C-unwind" fn rs_cover(_: u32) {}
#[no_mangle] pub extern "C-unwind" fn rs_tier() -> u64 { unsafe { TIER } }

/// one case in a child; returns its outcome and observations
#[allow(static_mut_refs)]
fn run(entry: extern "C-unwind" fn(), inputs: &[u128], fill: u8, secs: u32, verbose: bool) -> (String, String) {
    unsafe {
        let mut fds = [0i32; 2];
        assert!(pipe(fds.as_mut_ptr()) == 0);
        let pid = fork();
        if pid == 0 {
            close(fds[0]);
            OUT_FD = fds[1];
            alarm(secs);
            if !verbose {
                let n = open(b"/dev/null\0".as_ptr(), 2);
                dup2(n, 1);
                dup2(n, 2);
            }
            INPUTS = inputs.to_vec();
            OBS = Vec::with_capacity(1 << 16);
            FILL = fill;
            BASE = mmap(std::ptr::null_mut(), REGION, 0, 0x4022, -1, 0) as usize;
            if BASE == usize::MAX { die("harness-mmap"); }
            NEXT = BASE;
            let msg: std::sync::Mutex<String> = std::sync::Mutex::new(String::with_capacity(4096));
            std::panic::set_hook(Box::new(move |i| {
                ACTIVE = false;
                let s = format!("{}", i).replace('\n', " ");
                let mut m = PMSG.lock().unwrap();
                *m = s;
            }));
            ACTIVE = true;
            let r = std::panic::catch_unwind(|| entry());
            let live = LIVE;
            ACTIVE = false;
            let o = match r {
                Ok(()) => if live > 0 { format!("leak {} block(s)", live) } else { "ok".into() },
                Err(_) => if MODE == 0 { format!("panic {}", PMSG.lock().unwrap()) } else { "panic-expected".into() },
            };
            say("OBS");
            let mut t = String::new();
            for v in OBS.iter() { t.push(' '); t.push_str(&v.to_string()); }
            say(&t);
            die(&o);
        }
        close(fds[1]);
        let mut buf = vec![0u8; 1 << 16];
        let mut text = vec![];
        loop {
            let n = read(fds[0], buf.as_mut_ptr(), buf.len());
            if n <= 0 { break; }
            text.extend_from_slice(&buf[..n as usize]);
        }
        close(fds[0]);
        let mut st = 0;
        waitpid(pid, &mut st, 0);
        let text = String::from_utf8_lossy(&text).to_string();
        let mut obs = String::new();
        let mut out = String::new();
        for l in text.lines() {
            if let Some(x) = l.strip_prefix("OBS") { obs = x.trim().to_string(); }
            if let Some(x) = l.strip_prefix("OUTCOME ") { out = x.to_string(); }
        }
        if st & 0x7f != 0 { out = format!("signal {}", st & 0x7f); }
        else if out.is_empty() { out = format!("exit {}", (st >> 8) & 0xff); }
        (out, obs)
    }
}
static PMSG: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());

fn main() {
    // usage: rsreplay [-v] [-t tier] FILE ; every line: entry input input ...
    let mut verbose = false;
    let mut file = String::new();
    let mut args = std::env::args().skip(1);
    while let Some(a) = args.next() {
        match a.as_str() {
            "-v" => verbose = true,
            "-t" => unsafe { TIER = args.next().unwrap().parse().unwrap() },
            _ => file = a,
        }
    }
    let table = entries();
    let text = std::fs::read_to_string(&file).expect("cannot read the cases");
    for l in text.lines() {
        let mut p = l.split_whitespace();
        let Some(name) = p.next() else { continue };
        let inputs: Vec<u128> = p.map(|x| x.parse().unwrap()).collect();
        let e = table.iter().find(|x| x.0 == name).expect("unknown entry").1;
        let (o1, b1) = run(e, &inputs, 0xA5, 20, verbose);
        let (o2, b2) = run(e, &inputs, 0x5A, 20, verbose);
        let o = if o1 == o2 && b1 == b2 { o1 } else { format!("differs: result depends on uninitialised memory ({} / {})", o1, o2) };
        println!("RESULT {} | {} | {}", name, o, b1);
    }
}
