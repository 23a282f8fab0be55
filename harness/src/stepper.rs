//! Controlled scheduling of real calls at the granularity of machine instructions.
//!
//! Thread A is single-stepped (x86 trap flag, SIGTRAP) through one call of the library. At every
//! instruction of the program's own text the process forks; in the copy, the other thread B runs
//! its call there, and A then goes on. One stepped execution of A thus visits every schedule with
//! one preemption. The second mode first records which instructions touch writable static memory
//! (pages protected, SIGSEGV) and then visits every schedule with two preemptions at such points.
#![allow(static_mut_refs)]
use std::cell::Cell;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::time::{Duration, Instant};

#[repr(C)]
struct SigAction {
    handler: usize,
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}
extern "C" {
    fn sigaction(sig: i32, act: *const SigAction, old: *mut SigAction) -> i32;
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, opt: i32) -> i32;
    fn _exit(code: i32) -> !;
    fn mmap(addr: usize, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> usize;
    fn mprotect(addr: usize, len: usize, prot: i32) -> i32;
    fn syscall(n: i64, ...) -> i64;
    fn kill(pid: i32, sig: i32) -> i32;
    static __executable_start: u8;
    static etext: u8;
    static __data_start: u8;
    static end: u8;
}
const SIGTRAP: i32 = 5;
const SIGSEGV: i32 = 11;
const RIP: usize = 16;
const EFL: usize = 17;
const TF: u64 = 0x100;

/// control page at a fixed address: reachable from the handlers without touching static memory
const CTL: usize = 0x6f00_0000_0000;
const CTL_LEN: usize = 1 << 20;
#[repr(C)]
struct Ctl {
    mode: AtomicUsize,
    n: AtomicU64,
    slice: AtomicU64,
    slices: AtomicU64,
    forked: AtomicU64,
    fail: AtomicU64,
    text_lo: AtomicUsize,
    text_hi: AtomicUsize,
    data_lo: AtomicUsize,
    data_hi: AtomicUsize,
    reprotect: AtomicUsize,
    stop_a: AtomicU64,
    stop_b: AtomicU64,
    nb: AtomicU64,
    /// further threads B that make the call while A is stopped, and how often B makes it
    many: AtomicU64,
    repeat: AtomicU64,
    b_tid: AtomicU64,
    /// 0 B not started, 1 B running, 2 B parked at its stop, 3 B done
    b_state: AtomicUsize,
    a_done: AtomicUsize,
    blocked: AtomicU64,
    traps: AtomicU64,
    deadline_hit: AtomicU64,
    nacc: AtomicU64,
    acc: [AtomicU64; 4096],
    msg_len: AtomicUsize,
    msg: [u8; 4096],
}
fn ctl() -> &'static Ctl {
    unsafe { &*(CTL as *const Ctl) }
}
const OFF: usize = 0;
const COUNT: usize = 1;
const FORK: usize = 2;
const RECORD: usize = 3;
const STOPA: usize = 4;
thread_local! {
    static IS_B: Cell<bool> = const { Cell::new(false) };
}
/// what a call answered: numbers and text
#[derive(Clone, Debug, PartialEq)]
pub struct Val {
    pub nums: Vec<f64>,
    pub text: String,
}
/// a call of the library, and whether its answer is what it answers alone
pub struct Op {
    pub call: Box<dyn Fn() -> Val + Send + Sync>,
    pub judge: Box<dyn Fn(&Val) -> Result<(), String> + Send + Sync>,
}
static mut B_OP: Option<Op> = None;
static mut START: Option<Instant> = None;

/// every stepped call is made from here, so that instruction numbers agree between executions
#[inline(never)]
fn stepped_call(op: &(dyn Fn() -> Val + Send + Sync)) -> Val {
    set_tf();
    let r = op();
    clear_tf();
    r
}

fn set_tf() {
    unsafe { std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq") }
}
fn clear_tf() {
    unsafe { std::arch::asm!("pushfq", "and qword ptr [rsp], 0xfffffffffffffeff", "popfq") }
}
fn protect(on: bool) {
    let c = ctl();
    let (lo, hi) = (c.data_lo.load(SeqCst), c.data_hi.load(SeqCst));
    unsafe { mprotect(lo, hi - lo, if on { 0 } else { 3 }) };
}
unsafe extern "C" fn on_trap(_s: i32, _i: usize, uc: *mut u64) {
    let g = uc.add(5); // gregs
    let c = ctl();
    let mode = c.mode.load(SeqCst);
    if mode == OFF {
        *g.add(EFL) &= !TF;
        return;
    }
    c.traps.fetch_add(1, SeqCst);
    if c.reprotect.swap(0, SeqCst) == 1 {
        protect(true);
    }
    let rip = *g.add(RIP) as usize;
    if rip < c.text_lo.load(SeqCst) || rip >= c.text_hi.load(SeqCst) {
        return;
    }
    if mode == RECORD {
        c.n.fetch_add(1, SeqCst);
        return;
    }
    if IS_B.with(|b| b.get()) {
        let n = c.nb.fetch_add(1, SeqCst);
        if n == c.stop_b.load(SeqCst) {
            *g.add(EFL) &= !TF;
            c.b_state.store(2, SeqCst);
            let t0 = Instant::now();
            while c.a_done.load(SeqCst) == 0 && t0.elapsed() < Duration::from_millis(400) {
                std::thread::yield_now();
            }
            c.b_state.store(1, SeqCst);
        }
        return;
    }
    let n = c.n.fetch_add(1, SeqCst);
    match mode {
        FORK => {
            if n % c.slices.load(SeqCst) != c.slice.load(SeqCst) || c.fail.load(SeqCst) != 0 || c.deadline_hit.load(SeqCst) != 0 {
                return;
            }
            if START.as_ref().map(|t| t.elapsed().as_secs() >= 25).unwrap_or(false) {
                c.deadline_hit.store(1, SeqCst);
                return;
            }
            let pid = fork();
            if pid == 0 {
                *g.add(EFL) &= !TF;
                c.repeat.store(1, SeqCst);
                run_b(false);
                // a pool of slots is handed round: the calls after the first one reach the slot A has
                for k in 0..c.many.load(SeqCst) {
                    if c.b_state.load(SeqCst) != 3 || c.fail.load(SeqCst) != 0 { break; }
                    c.repeat.store(if k == 0 { 70 } else { 1 }, SeqCst);
                    run_b(false);
                }
                return;
            }
            c.forked.fetch_add(1, SeqCst);
            let st = wait_child(pid);
            if st != 0 {
                if c.msg_len.load(SeqCst) == 0 {
                    say(&format!("the process dies (status {:#x})", st));
                }
                c.fail.store(n + 1, SeqCst);
            }
        }
        STOPA => {
            if n == c.stop_a.load(SeqCst) {
                *g.add(EFL) &= !TF;
                run_b(true);
            }
        }
        _ => {}
    }
}
fn wait_child(pid: i32) -> i32 {
    let mut st = 0;
    let t0 = Instant::now();
    loop {
        let r = unsafe { waitpid(pid, &mut st, 1) };
        if r == pid {
            return st;
        }
        if t0.elapsed() > Duration::from_secs(20) {
            unsafe {
                kill(pid, 9);
                waitpid(pid, &mut st, 0);
            }
            say("no answer within 20 s (deadlock)");
            return -1;
        }
        if t0.elapsed() > Duration::from_millis(2) {
            std::thread::sleep(Duration::from_micros(200));
        } else {
            std::thread::yield_now();
        }
    }
}
fn say(s: &str) {
    let c = ctl();
    let b = s.as_bytes();
    let n = b.len().min(4000);
    if c.msg_len.load(SeqCst) == 0 {
        unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), c.msg.as_ptr() as *mut u8, n) };
        c.msg_len.store(n, SeqCst);
    }
}
/// starts B on a thread of its own and returns when it is done, parked, or blocked by A
fn run_b(stepped: bool) {
    let c = ctl();
    c.b_state.store(1, SeqCst);
    c.b_tid.store(0, SeqCst);
    std::thread::spawn(move || {
        let c = ctl();
        c.b_tid.store(unsafe { syscall(186) } as u64, SeqCst);
        let op = unsafe { B_OP.as_ref().unwrap() };
        for _ in 0..c.repeat.load(SeqCst).max(1) {
            let v = if stepped {
                IS_B.with(|b| b.set(true));
                stepped_call(&*op.call)
            } else {
                (op.call)()
            };
            if let Err(e) = (op.judge)(&v) {
                say(&format!("other thread: {}", e));
                c.fail.store(u64::MAX, SeqCst);
            }
        }
        c.b_state.store(3, SeqCst);
    });
    let t0 = Instant::now();
    let mut asleep = 0;
    loop {
        match c.b_state.load(SeqCst) {
            2 | 3 => return,
            _ => {}
        }
        std::thread::yield_now();
        let el = t0.elapsed();
        if el > Duration::from_millis(2) {
            let tid = c.b_tid.load(SeqCst);
            if tid != 0 {
                let s = std::fs::read_to_string(format!("/proc/self/task/{}/stat", tid)).unwrap_or_default();
                let st = s.rsplit(')').next().unwrap_or("").trim().chars().next().unwrap_or('R');
                asleep = if st == 'S' { asleep + 1 } else { 0 };
                if asleep >= 3 {
                    break;
                }
                std::thread::sleep(Duration::from_micros(300));
            }
        }
        if el > Duration::from_millis(400) {
            break;
        }
    }
    c.blocked.fetch_add(1, SeqCst);
}
fn join_b() -> bool {
    let c = ctl();
    let t0 = Instant::now();
    while c.b_state.load(SeqCst) != 3 {
        if t0.elapsed() > Duration::from_secs(10) {
            return false;
        }
        std::thread::yield_now();
    }
    true
}
unsafe extern "C" fn on_segv(_s: i32, info: *const u64, uc: *mut u64) {
    let c = ctl();
    let addr = *info.add(2) as usize;
    if c.mode.load(SeqCst) == RECORD && addr >= c.data_lo.load(SeqCst) && addr < c.data_hi.load(SeqCst) {
        protect(false);
        // n counts the instructions reached so far; the access is made by number n-1
        let k = c.nacc.load(SeqCst) as usize;
        let at = c.n.load(SeqCst).wrapping_sub(1);
        if k < c.acc.len() && (k == 0 || c.acc[k - 1].load(SeqCst) != at) {
            c.acc[k].store(at, SeqCst);
            c.nacc.store(k as u64 + 1, SeqCst);
        }
        c.reprotect.store(1, SeqCst);
        *uc.add(5 + EFL) |= TF;
        return;
    }
    let dfl = SigAction { handler: 0, mask: [0; 16], flags: 0, restorer: 0 };
    sigaction(SIGSEGV, &dfl, std::ptr::null_mut());
}
fn setup() {
    unsafe {
        // MAP_SHARED|ANON|FIXED_NOREPLACE: results of the copies come back through it
        let p = mmap(CTL, CTL_LEN, 3, 0x01 | 0x20 | 0x100000, -1, 0);
        assert_eq!(p, CTL, "control page");
        let c = ctl();
        c.text_lo.store(&__executable_start as *const u8 as usize, SeqCst);
        c.text_hi.store(&etext as *const u8 as usize, SeqCst);
        c.data_lo.store(&__data_start as *const u8 as usize & !4095, SeqCst);
        c.data_hi.store((&end as *const u8 as usize + 4095) & !4095, SeqCst);
        let a = SigAction { handler: on_trap as usize, mask: [0; 16], flags: 4 | 0x4000_0000, restorer: 0 };
        sigaction(SIGTRAP, &a, std::ptr::null_mut());
        let a = SigAction { handler: on_segv as usize, mask: [0; 16], flags: 4 | 0x4000_0000, restorer: 0 };
        sigaction(SIGSEGV, &a, std::ptr::null_mut());
    }
}
fn msg() -> String {
    let c = ctl();
    String::from_utf8_lossy(&c.msg[..c.msg_len.load(SeqCst)]).to_string()
}
/// does stepping work here at all?
fn probe() -> bool {
    let c = ctl();
    c.mode.store(COUNT, SeqCst);
    c.n.store(0, SeqCst);
    set_tf();
    let mut x = 1u64;
    for i in 0..50u64 { x = std::hint::black_box(x.wrapping_mul(3) + i); }
    clear_tf();
    c.mode.store(OFF, SeqCst);
    std::hint::black_box(x);
    c.n.load(SeqCst) > 50
}

/// One preemption at every instruction (of residue `slice`): A is stepped, B runs in the copies.
/// With `many`, that many further threads make the call one after the other, the first of them 70
/// times. Prints "OK <instructions> <schedules> <schedules with B blocked> <cut short>" or "FAIL <instruction> <what>".
pub fn one(a: Op, b: Op, warm: impl Fn(), slice: u64, slices: u64, many: u64) {
    setup();
    let c = ctl();
    c.many.store(many, SeqCst);
    c.repeat.store(1, SeqCst);
    if !probe() {
        println!("NONE");
        return;
    }
    unsafe {
        B_OP = Some(b);
        START = Some(Instant::now());
    }
    warm();
    c.slice.store(slice, SeqCst);
    c.slices.store(slices, SeqCst);
    c.n.store(0, SeqCst);
    c.traps.store(0, SeqCst);
    c.mode.store(FORK, SeqCst);
    let parent = std::process::id();
    let v = stepped_call(&*a.call);
    if c.mode.load(SeqCst) == FORK && std::process::id() == parent {
        c.mode.store(OFF, SeqCst);
    }
    let r = (a.judge)(&v);
    if std::process::id() != parent {
        // a copy: A went on after B
        if let Err(e) = r {
            say(&format!("preempted thread: {}", e));
            unsafe { _exit(1) }
        }
        if !join_b() {
            say("the two calls never finish (deadlock)");
            unsafe { _exit(1) }
        }
        unsafe { _exit((c.fail.load(SeqCst) == u64::MAX) as i32) }
    }
    c.mode.store(OFF, SeqCst);
    let f = c.fail.load(SeqCst);
    if f != 0 {
        println!("FAIL {} {}", f - 1, msg());
    } else if let Err(e) = r {
        println!("FAIL {} stepped alone: {}", c.n.load(SeqCst), e);
    } else {
        println!("OK {} {} {} {}", c.n.load(SeqCst), c.forked.load(SeqCst), c.blocked.load(SeqCst), c.deadline_hit.load(SeqCst));
    }
}
/// instructions of one call that touch writable static memory
fn record(op: &(dyn Fn() -> Val + Send + Sync)) -> Vec<u64> {
    let c = ctl();
    c.n.store(0, SeqCst);
    c.nacc.store(0, SeqCst);
    c.mode.store(RECORD, SeqCst);
    protect(true);
    let r = stepped_call(op);
    c.mode.store(OFF, SeqCst);
    protect(false);
    c.reprotect.store(0, SeqCst);
    std::hint::black_box(r);
    (0..c.nacc.load(SeqCst) as usize).map(|k| c.acc[k].load(SeqCst)).collect()
}
/// Two preemptions: A up to i, B up to j, A to its end, B to its end, for all i and j at which the
/// calls touch writable static memory.
pub fn two(a: Op, b: Op, warm: impl Fn(), cap: usize) {
    setup();
    let c = ctl();
    if !probe() {
        println!("NONE");
        return;
    }
    // recorded in copies, so that the calls themselves stay the first of their process
    let rec = |op: &(dyn Fn() -> Val + Send + Sync)| -> Vec<u64> {
        c.nacc.store(0, SeqCst);
        let pid = unsafe { fork() };
        if pid == 0 {
            warm();
            record(op);
            unsafe { _exit(0) }
        }
        wait_child(pid);
        (0..c.nacc.load(SeqCst) as usize).map(|k| c.acc[k].load(SeqCst)).collect()
    };
    let (sa, sb) = (rec(&*a.call), rec(&*b.call));
    unsafe { B_OP = Some(b) };
    let around = |v: &[u64]| -> Vec<u64> {
        let mut s: Vec<u64> = v.iter().flat_map(|&x| [x, x.wrapping_add(1)]).filter(|x| *x < u64::MAX / 2).collect();
        s.sort();
        s.dedup();
        s
    };
    let (pa, pb) = (around(&sa), around(&sb));
    let mut runs = 0;
    let t0 = Instant::now();
    let mut capped = false;
    'o: for &i in &pa {
        for &j in &pb {
            if runs >= cap || t0.elapsed() > Duration::from_secs(25) {
                capped = true;
                break 'o;
            }
            runs += 1;
            let pid = unsafe { fork() };
            if pid == 0 {
                warm();
                c.fail.store(0, SeqCst);
                c.a_done.store(0, SeqCst);
                c.b_state.store(0, SeqCst);
                c.nb.store(0, SeqCst);
                c.n.store(0, SeqCst);
                c.stop_a.store(i, SeqCst);
                c.stop_b.store(j, SeqCst);
                c.mode.store(STOPA, SeqCst);
                let v = stepped_call(&*a.call);
                c.a_done.store(1, SeqCst);
                let r = (a.judge)(&v);
                if c.b_state.load(SeqCst) == 0 {
                    unsafe { _exit(0) } // A never reached i
                }
                if !join_b() {
                    say("the two calls never finish (deadlock)");
                    unsafe { _exit(1) }
                }
                if let Err(e) = r {
                    say(&format!("preempted thread: {}", e));
                    unsafe { _exit(1) }
                }
                unsafe { _exit((c.fail.load(SeqCst) == u64::MAX) as i32) }
            }
            let st = wait_child(pid);
            if st != 0 {
                println!("FAIL {}/{} {}", i, j, if msg().is_empty() { format!("the process dies (status {:#x})", st) } else { msg() });
                return;
            }
        }
    }
    println!("OK {} {} {}", sa.len() + sb.len(), runs, capped as u32);
}
