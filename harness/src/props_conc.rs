//! C06: schedules. Real threads under a controlled scheduler: every interleaving of whole calls,
//! every schedule with one preemption at any instruction, every schedule with two preemptions at
//! accesses to static memory.
use crate::common::*;
use crate::engine::*;
use crate::props_hist::*;
use crate::refsgp4::Out;
use crate::stepper::{self, Op, Val};
use satellite::io::{parse, parse_multiple, twoline2satrec, Satrec};
use satellite::propogation::gstime::gstime_datetime;
use satellite::propogation::propogate_datetime;
use satellite::propogation::sgp4::sgp4;
use std::process::Command;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, OnceLock};

const NAMES: &[&str] = &[
    "shared LEO, 12:34", "shared LEO, next day", "shared geosynchronous", "shared Molniya", "shared deep non-resonant", "own LEO, 360 min", "own Molniya, 1500 min",
    "parse titled LEO", "parse geosynchronous", "parse catalogue", "geometry", "shared decaying (error)", "parse damaged", "shared LEO drag-free by minutes",
];
/// threads that call one after the other during one preemption
const MANY: u64 = 33;
const D1: i64 = 1_553_603_640_123; // 2019-03-26 12:34:00.123 UTC
const D2: i64 = 1_553_690_096_789;
fn out_val(o: &Out) -> Val {
    match o {
        Ok(s) => Val { nums: s.r.iter().chain(s.v.iter()).copied().collect(), text: String::new() },
        Err(c) => Val { nums: vec![], text: format!("error {}", c) },
    }
}
fn rec_val(r: &Satrec) -> Val {
    Val { nums: vec![r.jdsatepoch, r.inclo, r.nodeo, r.ecco, r.argpo, r.mo, r.no, r.bstar, r.a, r.mdot, r.argpdot, r.nodedot, r.cc1, r.cc4, r.t2cof, r.gsto, r.del1, r.d2201, r.xfact], text: format!("{} {:?} {}", r.satnum, r.name, r.epochyr) }
}
fn kind(n: &str) -> crate::tle::Tle {
    basic_kinds().into_iter().find(|k| k.0 == n).unwrap().1
}
/// the call number `i`, ready to be made; `want` is its answer in a process of its own
fn make(i: usize, want: Option<Val>) -> Op {
    let shared = |n: &str| -> Option<Arc<Satrec>> { let t = kind(n); twoline2satrec(&t.line1(), &t.line2()).ok().map(Arc::new) };
    let mut keep: Vec<(Arc<Satrec>, u64)> = vec![];
    let mut by_date = |n: &str, ms: i64| -> Box<dyn Fn() -> Val + Send + Sync> {
        let when = utc_ms(ms);
        match shared(n) {
            Some(r) => {
                keep.push((r.clone(), rec_hash(&r)));
                Box::new(move || out_val(&simplify(&propogate_datetime(&r, when))))
            }
            None => Box::new(|| Val { nums: vec![], text: "refused".into() }),
        }
    };
    let own = |n: &str, t: f64| -> Box<dyn Fn() -> Val + Send + Sync> {
        match shared(n) {
            Some(r) => Box::new(move || { let mut r = (*r).clone(); out_val(&simplify(&sgp4(&mut r, t))) }),
            None => Box::new(|| Val { nums: vec![], text: "refused".into() }),
        }
    };
    let lines = |n: &str| { let t = kind(n); (t.line1(), t.line2()) };
    let parsed = |r: Result<Satrec, satellite::io::SatrecParseError>| match r { Ok(r) => rec_val(&r), Err(e) => Val { nums: vec![], text: format!("{:?}", e) } };
    let call: Box<dyn Fn() -> Val + Send + Sync> = match i {
        0 => by_date("LEO", D1),
        1 => by_date("LEO", D2),
        2 => by_date("geosynchronous", D2 + 864_000_000),
        3 => by_date("Molniya", D1 + 86_400_000),
        4 => by_date("deep non-resonant", D1),
        5 => own("LEO", 360.0),
        6 => own("Molniya", 1500.0),
        7 => { let (a, b) = lines("LEO eccentric"); let t = format!("0 VANGUARD\n{}\n{}\n", a, b); Box::new(move || parsed(parse(&t))) }
        8 => { let (a, b) = lines("geosynchronous inclined"); Box::new(move || parsed(twoline2satrec(&a, &b))) }
        9 => {
            let (a, b) = lines("deep low inclination");
            let (c, d) = lines("retrograde equatorial");
            let t = format!("FIRST\n{}\n{}\n{}\n\n0 SECOND\n{}\n{}\n", a, b, a, c, d);
            Box::new(move || {
                let (r, e) = parse_multiple(&t);
                let mut v = Val { nums: vec![], text: format!("{} records, {:?}", r.len(), e) };
                for x in &r { let y = rec_val(x); v.nums.extend(y.nums); v.text += &y.text; }
                v
            })
        }
        10 => {
            use satellite::transforms::*;
            use satellite::{Geodedic, Vec3};
            let when = utc_ms(D1);
            Box::new(move || {
                let g = gstime_datetime(when);
                let p = Vec3 { x: 4000.0, y: -3000.0, z: 4500.0 };
                let w = Vec3 { x: 3.0, y: 5.0, z: -4.0 };
                let o = Geodedic { longitude: -1.2, latitude: 0.7, height: 0.37 };
                let e = eci_to_ecf(&p, g);
                let geo = eci_to_geodedic(&p, g);
                let la = ecf_to_look_angles(&o, &e);
                let of = geodedic_to_ecf(&o);
                let f = satellite::doppler_factor::doppler_factor(of, Vec3 { ..e }, Vec3 { ..w });
                Val { nums: vec![g, e.x, e.y, e.z, geo.longitude, geo.latitude, geo.height, la.azimuth, la.elevation, la.range, f], text: String::new() }
            })
        }
        11 => by_date("decaying", D2 + 86_400_000 * 400),
        12 => { let (a, b) = lines("LEO"); let b = format!("{}12x.4567{}", &b[..17], &b[25..]); Box::new(move || parsed(twoline2satrec(&a, &b))) }
        _ => own("perigee 180 km", -721.0),
    };
    let want = want;
    Op {
        call,
        judge: Box::new(move |v| {
            for (r, h) in &keep {
                if rec_hash(r) != *h { return Err(format!("{}: the shared record has changed", NAMES[i])); }
            }
            let w = match &want { Some(w) => w, None => return Ok(()) };
            let same = v.text == w.text && v.nums.len() == w.nums.len()
                && v.nums.iter().zip(&w.nums).all(|(a, b)| a == b || (a.is_nan() && b.is_nan()) || (a - b).abs() <= 1e-9 * b.abs().max(1e-3));
            if same { Ok(()) } else { Err(format!("{}: alone {:?}, in this schedule {:?}", NAMES[i], w, v)) }
        }),
    }
}
fn enc(v: &Val) -> String {
    let n: Vec<String> = v.nums.iter().map(|x| x.to_bits().to_string()).collect();
    format!("{};{}", n.join(","), v.text.bytes().map(|b| format!("{:02x}", b)).collect::<String>())
}
fn dec(s: &str) -> Option<Val> {
    let (n, t) = s.trim().split_once(';')?;
    let nums = n.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().ok().map(f64::from_bits)).collect::<Option<Vec<_>>>()?;
    let b: Option<Vec<u8>> = (0..t.len() / 2).map(|i| u8::from_str_radix(&t[2 * i..2 * i + 2], 16).ok()).collect();
    Some(Val { nums, text: String::from_utf8_lossy(&b?).to_string() })
}
fn vsat(args: &[String]) -> String {
    Command::new(std::env::current_exe().unwrap()).args(args).output().map(|o| String::from_utf8_lossy(&o.stdout).to_string()).unwrap_or_default()
}
/// `vsat opval <i>`: the answer of one call in a process of its own
pub fn opval_main(a: &[String]) {
    println!("{}", enc(&(make(a[0].parse().unwrap(), None).call)()));
}
/// `vsat step one|many|two <a> <b> <warm> <slice> <slices> <want a> <want b>`
pub fn step_main(a: &[String]) {
    let n = |k: usize| a[k].parse::<usize>().unwrap();
    let (ia, ib, warm) = (n(1), n(2), n(3));
    let (wa, wb) = (dec(&a[6]), dec(&a[7]));
    let w = make([ia, ib, ia][warm], None);
    let warmer = move || { if warm > 0 { (w.call)(); } };
    if a[0] != "two" {
        stepper::one(make(ia, wa), make(ib, wb), warmer, n(4) as u64, n(5) as u64, if a[0] == "many" { MANY } else { 0 });
    } else {
        stepper::two(make(ia, wa), make(ib, wb), warmer, n(4));
    }
}

pub fn c06(run: &mut Run) {
    run.require(&["instruction stepping works", "answers a state", "answers an error"]);
    let nops = NAMES.len();
    let alone: OnceLock<Vec<Option<Val>>> = OnceLock::new();
    let vals: Vec<Option<Val>> = alone.get_or_init(|| {
        let v: Vec<std::sync::Mutex<Option<Val>>> = (0..nops).map(|_| Default::default()).collect();
        std::thread::scope(|s| for (i, m) in v.iter().enumerate() { s.spawn(move || *m.lock().unwrap() = dec(&vsat(&["opval".into(), i.to_string()]))); });
        v.into_iter().map(|m| m.into_inner().unwrap()).collect()
    }).clone();
    let ok: Vec<usize> = (0..nops).filter(|&i| vals[i].is_some()).collect();
    if ok.len() < nops { run.note(format!("calls that do not come back alone are left out: {:?}", (0..nops).filter(|i| !ok.contains(i)).map(|i| NAMES[i]).collect::<Vec<_>>())); }
    let no = ok.len();
    let vals = &vals;
    let ok = &ok;
    // --- one preemption at every instruction
    run.hang = 120;
    let (t0, limit) = (run.start, run.pick(450u64, 7200));
    let (insns, scheds, blocked, none, cut) = (AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0), AtomicUsize::new(0), AtomicUsize::new(0));
    let slices = 8usize;
    // the preempting call: in the quick tier one of each sort
    let bs: Vec<usize> = run.pick(vec![1usize, 2, 3, 7, 8, 10, 11], (0..nops).collect()).into_iter().filter(|i| ok.contains(i)).collect();
    let warms = run.pick(1usize, 3);
    let one = |mode: &str, a: usize, b: usize, warm: usize, slice: usize, slices: usize, ctx: &mut Ctx| -> Check {
        if t0.elapsed().as_secs() > limit { cut.fetch_add(1, SeqCst); return Ok(()); }
        let o = vsat(&["step".into(), mode.into(), a.to_string(), b.to_string(), warm.to_string(), slice.to_string(), slices.to_string(), enc(vals[a].as_ref().unwrap()), enc(vals[b].as_ref().unwrap())]);
        let w: Vec<&str> = o.trim().splitn(3, ' ').collect();
        match w[0] {
            "OK" => {
                ctx.class("instruction stepping works");
                let r: Vec<u64> = w[2].split(' ').filter_map(|x| x.parse().ok()).collect();
                insns.fetch_add(w[1].parse().unwrap_or(0), SeqCst);
                scheds.fetch_add(r[0], SeqCst);
                blocked.fetch_add(r[1], SeqCst);
                cut.fetch_add(r[2] as usize, SeqCst);
                ctx.transitions += 2 * r[0];
                ctx.traces += r[0];
                for k in 0..r[0] { ctx.state((mode == "many", a, b, warm, slice, slices, k)); }
                ctx.sample(|| format!("{} preempted by {} at each of {} instructions", NAMES[a], NAMES[b], w[1]));
                Ok(())
            }
            "FAIL" => Err(format!("{} preempted at instruction {} by {}: {}", NAMES[a], w.get(1).unwrap_or(&"?"), NAMES[b], w.get(2).unwrap_or(&""))),
            _ => { none.fetch_add(1, SeqCst); ctx.class("stepping not available"); Ok(()) }
        }
    };
    run.space("one preemption at every instruction", &[no, bs.len(), warms, slices], |ix, ctx| one("one", ok[ix[0]], bs[ix[1]], ix[2], ix[3], slices, ctx));
    // --- one preemption by many calls of many threads: slots that are handed round come back to the first
    // (in the quick tier the stopped thread has made its call before, which the first space leaves out)
    let bm: Vec<usize> = run.pick(vec![1usize, 3, 8, 10], bs.clone()).into_iter().filter(|i| ok.contains(i)).collect();
    let stride = run.pick(4usize, 1);
    run.space("one preemption by many threads", &[no, bm.len(), warms, slices], |ix, ctx| one("many", ok[ix[0]], bm[ix[1]], if warms == 1 { 1 } else { ix[2] }, ix[3] * stride, slices * stride, ctx));
    // --- two preemptions at accesses to static memory
    let (acc, runs2, capped) = (AtomicU64::new(0), AtomicU64::new(0), AtomicUsize::new(0));
    let cap = run.pick(3000usize, 20000);
    run.space("two preemptions at accesses to static memory", &[no, no, 3], |ix, ctx| {
        if t0.elapsed().as_secs() > limit + 150 { capped.fetch_add(1, SeqCst); return Ok(()); }
        let (a, b) = (ok[ix[0]], ok[ix[1]]);
        let o = vsat(&["step".into(), "two".into(), a.to_string(), b.to_string(), ix[2].to_string(), cap.to_string(), "0".into(), enc(vals[a].as_ref().unwrap()), enc(vals[b].as_ref().unwrap())]);
        let w: Vec<&str> = o.trim().splitn(3, ' ').collect();
        match w[0] {
            "OK" => {
                let r: Vec<u64> = w[2].split(' ').filter_map(|x| x.parse().ok()).collect();
                acc.fetch_add(w[1].parse().unwrap_or(0), SeqCst);
                runs2.fetch_add(r[0], SeqCst);
                capped.fetch_add(r[1] as usize, SeqCst);
                ctx.transitions += 2 * r[0];
                ctx.traces += r[0];
                Ok(())
            }
            "FAIL" => Err(format!("{} and {}, preempted at instructions {}: {}", NAMES[a], NAMES[b], w.get(1).unwrap_or(&"?"), w.get(2).unwrap_or(&""))),
            _ => { none.fetch_add(1, SeqCst); ctx.class("stepping not available"); Ok(()) }
        }
    });
    // --- every interleaving of whole calls, two threads of two calls
    let merge2: Vec<Vec<usize>> = merges(&[2, 2]);
    run.space("two threads, two calls each", &[no, no, no, no, merge2.len()], |ix, ctx| schedule(&[&[ok[ix[0]], ok[ix[1]]], &[ok[ix[2]], ok[ix[3]]]], &merge2[ix[4]], vals, ctx));
    let few: Vec<usize> = run.pick(vec![0usize, 2, 7], vec![0, 1, 2, 6, 7]).into_iter().filter(|i| ok.contains(i)).collect();
    let merge3 = merges(&[2, 2, 2]);
    let nf = few.len();
    run.space("three threads, two calls each", &[nf, nf, nf, nf, nf, nf, merge3.len()], |ix, ctx| {
        schedule(&[&[few[ix[0]], few[ix[1]]], &[few[ix[2]], few[ix[3]]], &[few[ix[4]], few[ix[5]]]], &merge3[ix[6]], vals, ctx)
    });
    run.note(format!("one preemption: {} instructions stepped, {} schedules, {} with the second call blocked by the first; two preemptions: {} accesses to static memory recorded, {} schedules", insns.load(SeqCst), scheds.load(SeqCst), blocked.load(SeqCst), acc.load(SeqCst), runs2.load(SeqCst)));
    if none.load(SeqCst) > 0 { run.note(format!("instruction stepping not available for {} points", none.load(SeqCst))); run.capped = true; }
    if cut.load(SeqCst) > 0 { run.note(format!("one-preemption exploration cut short for {} slices", cut.load(SeqCst))); run.capped = true; }
    if capped.load(SeqCst) > 0 { run.note(format!("two-preemption exploration cut short for {} pairs", capped.load(SeqCst))); run.capped = true; }
}
/// all interleavings of threads with the given numbers of calls
fn merges(n: &[usize]) -> Vec<Vec<usize>> {
    fn go(left: &mut Vec<usize>, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if left.iter().all(|&x| x == 0) { out.push(cur.clone()); return; }
        for t in 0..left.len() {
            if left[t] > 0 {
                left[t] -= 1;
                cur.push(t);
                go(left, cur, out);
                cur.pop();
                left[t] += 1;
            }
        }
    }
    let mut out = vec![];
    go(&mut n.to_vec(), &mut vec![], &mut out);
    out
}
thread_local! {
    static POOL: std::cell::RefCell<Vec<(std::sync::mpsc::Sender<(usize, Arc<Vec<Op>>)>, std::sync::mpsc::Receiver<Result<Val, String>>)>> = const { std::cell::RefCell::new(vec![]) };
}
/// makes the calls on real threads in the given order
fn schedule(th: &[&[usize]], order: &[usize], vals: &[Option<Val>], ctx: &mut Ctx) -> Check {
    thread_local! { static OPS: std::cell::RefCell<Option<Arc<Vec<Op>>>> = const { std::cell::RefCell::new(None) }; }
    let ops = OPS.with(|o| o.borrow_mut().get_or_insert_with(|| Arc::new((0..NAMES.len()).map(|i| make(i, vals[i].clone())).collect())).clone());
    POOL.with(|p| {
        let mut p = p.borrow_mut();
        while p.len() < th.len() {
            let (tx, rx) = std::sync::mpsc::channel::<(usize, Arc<Vec<Op>>)>();
            let (tx2, rx2) = std::sync::mpsc::channel();
            std::thread::spawn(move || for (i, ops) in rx {
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (ops[i].call)())).map_err(|_| format!("panic: {}", last_panic()));
                if tx2.send(r).is_err() { break; }
            });
            p.push((tx, rx2));
        }
        let mut at = vec![0; th.len()];
        for &t in order {
            let i = th[t][at[t]];
            at[t] += 1;
            ctx.step();
            p[t].0.send((i, ops.clone())).unwrap();
            let v = p[t].1.recv().map_err(|e| e.to_string())?;
            let tag = |e: String| format!("threads {:?}, order {:?}: {}", th.iter().map(|c| c.iter().map(|&i| NAMES[i]).collect::<Vec<_>>()).collect::<Vec<_>>(), order, e);
            let v = v.map_err(|e| tag(format!("{}: {}", NAMES[i], e)))?;
            ctx.class(if v.text.starts_with("error") || v.nums.is_empty() { "answers an error" } else { "answers a state" });
            (ops[i].judge)(&v).map_err(tag)?;
        }
        ctx.state((th, order));
        ctx.outcome((th, order));
        ctx.trace();
        Ok(())
    })
}
