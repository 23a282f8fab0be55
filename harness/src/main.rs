//! Driver. `vsat check <ID> <tier>` explores one property's bounded space exhaustively on the real
//! crate; `vsat replay <file>` re-executes one recorded counterexample.
mod common;
mod engine;
mod props_conc;
mod props_geo;
mod props_hist;
mod props_sgp;
mod props_text;
mod props_time;
mod refgeo;
mod refsgp4;
mod reftime;
mod selftest;
mod stepper;
mod tle;

use engine::*;
use std::io::Write;
use std::os::unix::process::ExitStatusExt;
use std::process::{exit, Command};
use std::time::{Duration, Instant};

pub struct Prop {
    pub id: &'static str,
    pub run: fn(&mut Run),
    pub assumptions: &'static [&'static str],
}

const REF: &str = "the reference model (harness/src/refsgp4.rs) is the published SGP4; it is validated on every run against published verification vectors";
const ALPHA: &str = "exhaustive within the stated finite alphabets and depths; values outside them are not explored";
pub const PROPS: &[Prop] = &[
    Prop { id: "C01", run: props_sgp::c01, assumptions: &[REF, ALPHA] },
    Prop { id: "C02", run: props_sgp::c02, assumptions: &[REF, ALPHA] },
    Prop { id: "C03", run: props_sgp::c03, assumptions: &[REF, ALPHA] },
    Prop { id: "C04", run: props_sgp::c04, assumptions: &[REF, ALPHA] },
    Prop { id: "C05", run: props_hist::c05, assumptions: &[REF, ALPHA] },
    Prop { id: "C06", run: props_conc::c06, assumptions: &[ALPHA, "sequentially consistent interleavings; preemption points are machine instructions of this build; weak-memory reorderings are not modelled"] },
    Prop { id: "C07", run: props_time::c07, assumptions: &[REF, ALPHA] },
    Prop { id: "C08", run: props_text::c08, assumptions: &[ALPHA] },
    Prop { id: "C09", run: props_text::c09, assumptions: &[ALPHA] },
    Prop { id: "C10", run: props_text::c10, assumptions: &[ALPHA] },
    Prop { id: "C11", run: props_text::c11, assumptions: &[ALPHA] },
    Prop { id: "C12", run: props_time::c12, assumptions: &[ALPHA] },
    Prop { id: "C13", run: props_time::c13, assumptions: &[ALPHA] },
    Prop { id: "C14", run: props_geo::c14, assumptions: &[ALPHA] },
    Prop { id: "C15", run: props_geo::c15, assumptions: &[ALPHA] },
    Prop { id: "C16", run: props_geo::c16, assumptions: &[ALPHA] },
    Prop { id: "C17", run: props_geo::c17, assumptions: &[ALPHA] },
    Prop { id: "C18", run: props_geo::c18, assumptions: &[ALPHA] },
    Prop { id: "C19", run: props_hist::c19, assumptions: &[REF, ALPHA] },
    Prop { id: "C20", run: props_sgp::c20, assumptions: &[REF, ALPHA] },
    Prop { id: "C21", run: props_hist::c21, assumptions: &[REF, ALPHA] },
    Prop { id: "C22", run: props_time::c22, assumptions: &[REF, ALPHA] },
];

fn root() -> String {
    std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into())
}
fn find(id: &str) -> &'static Prop {
    PROPS.iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {}", id);
        exit(2)
    })
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("selftest") => {
            match selftest::run(true) {
                Ok(n) => println!("{} published vectors reproduced", n),
                Err(e) => { println!("{}", e); exit(2) }
            }
        }
        Some("check") => parent(&a[2], &a[3]),
        Some("child") => child(&a[2], &a[3], &a[4]),
        Some("opval") => props_conc::opval_main(&a[2..]),
        Some("step") => props_conc::step_main(&a[2..]),
        Some("fresh") => props_hist::fresh_main(&a[2..]),
        Some("point") => point(&a[2], &a[3], &a[4], &a[5..]),
        Some("replay") => replay(&a[2]),
        Some("envelope") => {
            // diagnosis: the reference and its rounding envelope for two element lines and a time
            let t: f64 = a[4].parse().unwrap();
            let sat = refsgp4::Sat::new(refsgp4::Grav::wgs84(), tle::Tle::from_lines(&a[2], &a[3]).elems(), false);
            println!("{:?}", sat.prop(t));
            if let Ok(mut r) = satellite::io::twoline2satrec(&a[2], &a[3]) {
                println!("library: {:?}", satellite::propogation::sgp4::sgp4(&mut r, t).map(|x| common::st(&x)).map_err(|e| e.code()));
                println!("library record: atime {} xli {} xni {}", r.atime, r.xli, r.xni);
            }
            for o in common::envelope(&sat, t) { println!("  {:?}", o) }
        }
        _ => {
            eprintln!("usage: vsat check <ID> quick|thorough | replay <file> | selftest");
            exit(2)
        }
    }
}

fn replay_path(id: &str, tier: &str) -> String {
    format!("{}/replays/{}-{}.txt", root(), id, tier)
}

/// Runs the exploration in a child process, so that code under test that kills its process
/// (abort, stack overflow, illegal access) is attributed to the point that did it.
fn parent(id: &str, tier: &str) {
    find(id);
    if let Err(e) = selftest::run(false) {
        eprintln!("reference model self-test failed: {}", e);
        exit(2);
    }
    let dir = format!("{}/target/run", root());
    let _ = std::fs::create_dir_all(&dir);
    let journal = format!("{}/{}-{}.journal", dir, id, std::process::id());
    let me = std::env::current_exe().unwrap();
    let st = Command::new(&me).args(["child", id, tier, &journal]).status();
    let st = match st {
        Ok(s) => s,
        Err(e) => { eprintln!("cannot start: {}", e); exit(2) }
    };
    if let Some(c) = st.code() {
        let _ = std::fs::remove_file(&journal);
        exit(c);
    }
    let sig = st.signal().unwrap_or(0);
    eprintln!("exploration ended by signal {}; attributing", sig);
    let j = std::fs::read(&journal).unwrap_or_default();
    let _ = std::fs::remove_file(&journal);
    if sig == 9 || sig == 15 || j.len() < 256 {
        eprintln!("the exploration was killed from outside");
        exit(2);
    }
    let head = String::from_utf8_lossy(&j[256..]).to_string();
    let mut parts = head.trim_end_matches('\0').split('\n');
    let space = parts.next().unwrap_or("").to_string();
    let dims: Vec<u64> = parts.next().unwrap_or("").split(' ').filter_map(|x| x.parse().ok()).collect();
    let mut idx: Vec<u64> = (0..WORKERS)
        .filter_map(|w| {
            let b = &j[w * 16..w * 16 + 16];
            let k = u64::from_le_bytes(b[..8].try_into().unwrap());
            (k != 0).then(|| u64::from_le_bytes(b[8..].try_into().unwrap()))
        })
        .collect();
    idx.sort();
    for i in idx {
        let mut ix = vec![0u64; dims.len()];
        let mut r = i;
        for k in (0..dims.len()).rev() {
            ix[k] = r % dims[k];
            r /= dims[k];
        }
        let args: Vec<String> = ix.iter().map(|x| x.to_string()).collect();
        let mut c = Command::new(&me).args(["point", id, tier, &space]).args(&args).spawn().unwrap();
        let t0 = Instant::now();
        loop {
            if let Ok(Some(s)) = c.try_wait() {
                if s.signal().is_some() {
                    let mut run = Run::new(id, tier == "thorough");
                    run.replay_path = replay_path(id, tier);
                    let v = Violation { space: space.clone(), index: ix.iter().map(|x| *x as usize).collect(), detail: format!("the process is killed by signal {}", s.signal().unwrap()) };
                    run.report_violation(&v);
                    run.violation = Some(v);
                    write_evidence(&run, find(id));
                    exit(1);
                }
                break;
            }
            if t0.elapsed() > Duration::from_secs(2 * HANG_SECS) {
                let _ = c.kill();
                let _ = c.wait();
                break;
            }
            std::thread::sleep(Duration::from_millis(5));
        }
    }
    if matches!(sig, 4 | 5 | 6 | 7 | 8 | 11) {
        // the harness itself does nothing that can end this way: illegal access or abort inside
        // the library that depends on the calls (or threads) before it
        let mut run = Run::new(id, tier == "thorough");
        run.replay_path = replay_path(id, tier);
        let v = Violation { space, index: dims.iter().map(|_| 0).collect(), detail: format!("the process is killed by signal {}; no single point reproduces it", sig) };
        run.report_violation(&v);
        run.violation = Some(v);
        write_evidence(&run, find(id));
        exit(1);
    }
    eprintln!("no single point reproduces the crash");
    exit(2);
}

fn child(id: &str, tier: &str, journal: &str) {
    install_panic_hook();
    let p = find(id);
    let mut run = Run::new(id, tier == "thorough");
    run.replay_path = replay_path(id, tier);
    run.journal = Journal::create(journal);
    let _ = std::fs::remove_file(&run.replay_path);
    let late = (id.to_string(), run.replay_path.clone(), run.thorough);
    engine::watch_setup(move || {
        let mut run = Run::new(&late.0, late.2);
        run.replay_path = late.1.clone();
        let v = Violation { space: "setup".into(), index: vec![], detail: "the library does not come back from a call made while the alphabets are built (hang)".into() };
        run.report_violation(&v);
        run.violation = Some(v);
        write_evidence(&run, find(&late.0));
        exit(1)
    });
    if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (p.run)(&mut run))).is_err() {
        let what = last_panic();
        eprintln!("panic outside a point: {}", what);
        // raised in the library, or by an expectation about the library
        if !(what.contains("/repo/src/") || what.contains("well-formed")) {
            exit(2);
        }
        run.violation = Some(Violation { space: "setup".into(), index: vec![], detail: format!("panic: {}", what) });
    }
    finish(run, p)
}

fn finish(mut run: Run, p: &Prop) {
    let (m, e) = (common::MARGIN.load(std::sync::atomic::Ordering::Relaxed), common::ENVELOPE.load(std::sync::atomic::Ordering::Relaxed));
    if m > 0 {
        run.note(format!("largest deviation from the reference, as a fraction of the tolerance: {:.4}; points decided with the rounding envelope: {}", m as f64 * 1e-9, e));
    }
    if let Some(v) = run.violation.clone() {
        run.report_violation(&v);
        write_evidence(&run, p);
        exit(1);
    }
    let missing: Vec<&str> = run.required.iter().filter(|c| !run.total.classes.contains_key(*c)).copied().collect();
    if !missing.is_empty() {
        // the alphabets (or the code under test) no longer reach what they are meant to reach: this
        // weakens the evidence but is no violation; strict mode is for developing the alphabets
        let m = format!("classes never reached: {:?}", missing);
        eprintln!("{}", m);
        run.notes.push(m);
        if std::env::var("VERIF_STRICT").is_ok() {
            exit(2);
        }
    }
    if run.spaces.is_empty() {
        eprintln!("nothing explored");
        exit(2);
    }
    let pts: u64 = run.spaces.iter().map(|s| s.points).sum();
    println!("{} {}: property held on {} points of {} spaces; {} distinct states, {} calls of the library, {} traces compared, {} distinct outcomes, {:.1} s",
        run.id, if run.thorough { "thorough" } else { "quick" }, pts, run.spaces.len(), run.total.states.len(), run.total.transitions, run.total.traces, run.total.outcomes.len(), run.start.elapsed().as_secs_f64());
    for s in &run.spaces {
        println!("  space {} {:?}: {} points, {:.1} s", s.name, s.dims, s.points, s.wall);
    }
    for n in &run.notes {
        println!("  note: {}", n);
    }
    write_evidence(&run, p);
}

fn point(id: &str, tier: &str, space: &str, idx: &[String]) {
    install_panic_hook();
    let p = find(id);
    let mut run = Run::new(id, tier == "thorough");
    run.replay_path = "/dev/null".into();
    run.replay = Some((space.to_string(), idx.iter().filter_map(|x| x.parse().ok()).collect()));
    (p.run)(&mut run);
    exit(if run.violation.is_some() { 1 } else { 0 });
}

fn replay(file: &str) {
    install_panic_hook();
    let text = std::fs::read_to_string(file).unwrap_or_else(|e| { eprintln!("{}: {}", file, e); exit(2) });
    let get = |k: &str| text.lines().find_map(|l| l.strip_prefix(k).map(|x| x.trim().to_string())).unwrap_or_default();
    let p = find(&get("property "));
    let mut run = Run::new(p.id, get("tier ") == "thorough");
    run.replay_path = file.into();
    run.replay = Some((get("space "), get("index ").split_whitespace().filter_map(|x| x.parse().ok()).collect()));
    if get("space ") == "setup" {
        engine::watch_setup(|| { println!("counterexample: hang while the alphabets are built"); exit(1) });
        run.replay = Some(("setup".into(), vec![]));
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (p.run)(&mut run))) {
            Err(_) => {
                println!("counterexample: setup\n  panic: {}\nVIOLATION property={} replay={}", last_panic(), p.id, file);
                exit(1)
            }
            Ok(_) => println!("the recorded violation does not recur"),
        }
        return;
    }
    (p.run)(&mut run);
    if !run.replay_hit {
        eprintln!("no such space");
        exit(2);
    }
    match &run.violation {
        Some(v) => {
            println!("counterexample: space={} index={:?}\n  {}", v.space, v.index, v.detail);
            println!("VIOLATION property={} replay={}", p.id, file);
            exit(1)
        }
        None => println!("the recorded point no longer violates {}", p.id),
    }
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn list(v: impl Iterator<Item = String>) -> String {
    format!("[{}]", v.collect::<Vec<_>>().join(", "))
}

fn write_evidence(run: &Run, p: &Prop) {
    let t = &run.total;
    let vectors = selftest::run(false).unwrap_or(0);
    let samples: Vec<String> = if let Some(v) = &run.violation { vec![format!("{} {:?}: {}", v.space, v.index, v.detail)] } else { t.samples.iter().take(12).cloned().collect() };
    let spaces = list(run.spaces.iter().map(|s| format!("{{\"name\": {}, \"dims\": {:?}, \"points\": {}, \"wall_s\": {:.2}}}", js(&s.name), s.dims, s.points, s.wall)));
    let classes = t.classes.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", ");
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(0);
    let body = format!(
        "{{\n \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {}, \"transitions\": {}, \"traces_validated_against_impl\": {},\n  \"exhaustive\": {}, \"states_counted_up_to_cap\": {}, \"points\": {}, \"distinct_outcomes\": {}, \"published_vectors_reproduced_by_reference\": {},\n  \"spaces\": {},\n  \"classes_reached\": {{{}}},\n  \"notes\": {},\n  \"samples\": {}\n }},\n \"assumptions\": {},\n \"wall_s\": {:.2}, \"violations\": {}\n}}\n",
        js(p.id), js(if run.thorough { "thorough" } else { "quick" }), seed,
        t.states.len(), t.transitions, t.traces,
        run.violation.is_none() && !run.capped, t.states_capped, run.spaces.iter().map(|s| s.points).sum::<u64>(), t.outcomes.len(), vectors,
        spaces, classes, list(run.notes.iter().map(|n| js(n))), list(samples.iter().map(|s| js(s))),
        list(p.assumptions.iter().map(|s| js(s))), run.start.elapsed().as_secs_f64(), run.violation.is_some() as u32
    );
    let dir = format!("{}/evidence", root());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{}/{}.json", dir, p.id);
    let tmp = format!("{}.tmp", path);
    if let Ok(mut f) = std::fs::File::create(&tmp) {
        let _ = f.write_all(body.as_bytes());
        let _ = std::fs::rename(&tmp, &path);
    }
}
