import importlib.util
sp=importlib.util.spec_from_file_location('seeds_a0','/verif/tools/seeds_a.py');A=importlib.util.module_from_spec(sp);sp.loader.exec_module(A)
HEAD,tle,P,ISS,TRACKS=A.HEAD,A.tle,A.P,A.ISS,A.TRACKS
A.KEYS.clear();KEYS=A.KEYS
SEEDS={}
def add(i,p,edits,needs,breaks,demo): SEEDS[i]=dict(property=p,edits=edits,needs=needs,breaks=breaks,demo=HEAD+demo.replace('@1',ISS[0]).replace('@2',ISS[1]))
DATES='''fn main() {
    let recs = vec![sat("@1", "@2"), MOL];
    let w = Utc.timestamp_opt(1553690096, 0).unwrap();
    let end = std::time::Instant::now() + std::time::Duration::from_secs(60);
    let stop = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
    let mut th = vec![];
    for k in 0..NTH { let r = recs[k % 2].clone(); let stop = stop.clone(); th.push(std::thread::spawn(move || {
        let want = { let mut q = r.clone(); let m = (ext::jday_datetime(w) - r.jdsatepoch) * 1440.0; sgp4(&mut q, m).unwrap().position.x };
        let mut bad = 0u64;
        while std::time::Instant::now() < end && !stop.load(std::sync::atomic::Ordering::Relaxed) { for _ in 0..500 { if (propogate_datetime(&r, w).unwrap().position.x - want).abs() > 1e-3 { bad += 1; } } if bad > 0 { break; } }
        if bad > 0 { stop.store(true, std::sync::atomic::Ordering::Relaxed); }
        bad })); }
    let bad: u64 = th.into_iter().map(|t| t.join().unwrap()).sum();
    assert_eq!(bad, 0, "another thread's satellite");
}
'''
import re
_b=open('/verif/tools/seeds_b.py').read()
_m=re.search(r"^MOL=.*$",_b,re.M)
exec(_m.group(0)) if _m else None
OLD='''  let mut rec = satrec.clone();
  return sgp4(&mut rec, m);'''
add('pool-of-eight','C06',[(P+'mod.rs',OLD,'''  // scratch records are handed round, which saves allocating strings
  let slot = &POOL[NEXT.fetch_add(1, std::sync::atomic::Ordering::Relaxed) % POOL.len()];
  *slot.lock().unwrap_or_else(|e| e.into_inner()) = Some(satrec.clone());
  let mut rec = slot.lock().unwrap_or_else(|e| e.into_inner());
  return sgp4(rec.as_mut().unwrap(), m);'''),(P+'mod.rs','/// Propogate changes','''type Scratch = std::sync::Mutex<Option<Satrec>>;
const FREE: Scratch = Scratch::new(None);
static POOL: [Scratch; 8] = [FREE; 8];
static NEXT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

/// Propogate changes''')],'eight further calls by date-time, of another satellite, while one call is stopped between filling and using its slot of the pool','a pool of eight scratch records is handed round by a counter, and a slot can be filled again before it is used',DATES.replace('MOL',MOL).replace('NTH','24'))
add('slot-of-thread','C06',[(P+'mod.rs',OLD,'''  // every thread has a scratch record, which saves allocating strings
  let slot = &POOL[SEAT.with(|s| *s) % POOL.len()];
  *slot.lock().unwrap_or_else(|e| e.into_inner()) = Some(satrec.clone());
  let mut rec = slot.lock().unwrap_or_else(|e| e.into_inner());
  return sgp4(rec.as_mut().unwrap(), m);'''),(P+'mod.rs','/// Propogate changes','''type Scratch = std::sync::Mutex<Option<Satrec>>;
const FREE: Scratch = Scratch::new(None);
static POOL: [Scratch; 16] = [FREE; 16];
static NEXT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
thread_local! { static SEAT: usize = NEXT.fetch_add(1, std::sync::atomic::Ordering::Relaxed); }

/// Propogate changes''')],'the sixteenth thread after the one that is stopped between filling and using its scratch record','scratch records belong to threads by their number, but there are only sixteen',DATES.replace('MOL',MOL).replace('NTH','64'))
add('last-answer-hit','C06',[(P+'gstime.rs','''pub fn gstime(jdut1: f64) -> f64 {
''','''use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
/// Last date asked for, and its angle. A writer empties the date first, so that no one sees half an entry.
static DATE: AtomicU64 = AtomicU64::new(0);
static ANGLE: AtomicU64 = AtomicU64::new(0);

pub fn gstime(jdut1: f64) -> f64 {
    if DATE.load(SeqCst) == jdut1.to_bits() {
        return f64::from_bits(ANGLE.load(SeqCst));
    }
    let temp = polynomial(jdut1);
    DATE.store(0, SeqCst);
    ANGLE.store(temp.to_bits(), SeqCst);
    DATE.store(jdut1.to_bits(), SeqCst);
    return temp;
}

fn polynomial(jdut1: f64) -> f64 {
''')],'a thread that asks again for the date it asked for before, and another date asked for between its two loads','the angle of another date is returned when the entry is replaced between the two loads','''fn main() {
    let end = std::time::Instant::now() + std::time::Duration::from_secs(30);
    let mut th = vec![];
    for k in 0..4 { th.push(std::thread::spawn(move || {
        let t = 2451545.0 + 0.123 * (k / 2) as f64;
        let want = propogation::gstime::gstime(t);
        let mut bad = 0u64;
        while std::time::Instant::now() < end { for _ in 0..5000 { if (propogation::gstime::gstime(t) - want).abs() > 1e-9 { bad += 1; } } if bad > 0 { break; } }
        bad })); }
    let bad: u64 = th.into_iter().map(|t| t.join().unwrap()).sum();
    assert_eq!(bad, 0, "the angle of another date");
}
''')
