import importlib.util
sp=importlib.util.spec_from_file_location('seeds_a0','/verif/tools/seeds_a.py');A=importlib.util.module_from_spec(sp);sp.loader.exec_module(A)
HEAD,tle,P,ISS=A.HEAD,A.tle,A.P,A.ISS
A.KEYS.clear();KEYS=A.KEYS
SEEDS={}
def add(i,p,edits,needs,breaks,demo): SEEDS[i]=dict(property=p,edits=edits,needs=needs,breaks=breaks,demo=HEAD+demo.replace('@1',ISS[0]).replace('@2',ISS[1]))

add('table-published-early','C06',[('src/ext.rs','''    let mut lmonth: [u64; 12] = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];
    if year % 4 == 0 {
        lmonth[1] = 29
    }
''','''    let leap = (year % 4 == 0) as usize;
    if !READY.swap(true, SeqCst) {
        let days = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];
        for k in 0..24 {
            LENGTHS[k].store(days[k % 12] + (k == 13) as u64, SeqCst);
        }
    }
    let mut lmonth: [u64; 12] = [0; 12];
    for k in 0..12 {
        lmonth[k] = LENGTHS[12 * leap + k].load(SeqCst);
    }
'''),('src/ext.rs','pub struct MDHMS {','''use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
static READY: AtomicBool = AtomicBool::new(false);
const NONE: AtomicU64 = AtomicU64::new(0);
/// Lengths of the months of common and leap years.
static LENGTHS: [AtomicU64; 24] = [NONE; 24];

pub struct MDHMS {''')],'the first two element sets of a process being parsed at the same time','the table of month lengths is announced as ready before it is filled, so a second thread can read it empty','''fn main() {
    // only the first calls of a process can fail, and only within nanoseconds: many processes, many threads
    if std::env::args().count() > 1 {
        let bar = std::sync::Arc::new(std::sync::atomic::AtomicUsize::new(0));
        let th: Vec<_> = (0..16).map(|_| { let b = bar.clone(); std::thread::spawn(move || {
            b.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
            while b.load(std::sync::atomic::Ordering::SeqCst) < 16 { std::hint::spin_loop(); }
            let d = ext::days2mdhms(2020, 360.0);
            (d.month, d.day) }) }).collect();
        for t in th { if t.join().unwrap() != (12.0, 25.0) { std::process::exit(3); } }
        return;
    }
    let end = std::time::Instant::now() + std::time::Duration::from_secs(60);
    let me = std::env::current_exe().unwrap();
    let th: Vec<_> = (0..4).map(|_| { let me = me.clone(); std::thread::spawn(move || {
        while std::time::Instant::now() < end { if std::process::Command::new(&me).arg("x").status().unwrap().code() == Some(3) { return true; } }
        false })}).collect();
    let bad = th.into_iter().map(|t| t.join().unwrap()).filter(|b| *b).count();
    assert_eq!(bad, 0, "a day outside its month");
}
''')
add('busy-fallback','C06',[(P+'gstime.rs','''    if temp < 0.0 {
        temp += TWO_PI;
    }

    return temp;''','''    if temp < 0.0 {
        temp += TWO_PI;
    }
    // if somebody else is at it, the next one will remember the date
    if let Ok(mut last) = LAST.try_lock() {
        *last = (jdut1, temp);
    }

    return temp;'''),(P+'gstime.rs','    let tut1 = (jdut1 - 2451545.0) / 36525.0;','''    match LAST.try_lock() {
        Ok(last) => if last.0 == jdut1 {
            return last.1;
        },
        // the sidereal day is good enough while the last date is being looked up
        Err(_) => return (4.894961212735793 + (jdut1 - 2451545.0) * 6.300388098984957).rem_euclid(TWO_PI),
    }
    let tut1 = (jdut1 - 2451545.0) / 36525.0;'''),(P+'gstime.rs','/// Convert a julian','static LAST: std::sync::Mutex<(f64, f64)> = std::sync::Mutex::new((f64::MIN, 0.0));\n\n/// Convert a julian')],'two threads asking for a sidereal time at the same moment','while the memo of the last date is locked by another thread a linear formula is used instead of the polynomial','''fn main() {
    use propogation::gstime::gstime;
    let want = gstime(2415079.5);
    let end = std::time::Instant::now() + std::time::Duration::from_secs(20);
    let th: Vec<_> = (0..4).map(|k| std::thread::spawn(move || {
        let mut bad = 0u64;
        while std::time::Instant::now() < end && bad == 0 { for _ in 0..2000 { if (gstime(2415079.5) - want).abs() > 1e-9 { bad += 1; } gstime(2451545.0 + k as f64); } }
        bad }) ).collect();
    let bad: u64 = th.into_iter().map(|t| t.join().unwrap()).sum();
    assert_eq!(bad, 0, "sidereal time depends on what other threads do");
}
''')
add('title-buffer','C06',[('src/io.rs',"""fn parse_title(line: &str) -> String {
    let line = line.trim_start();""","""fn parse_title(line: &str) -> String {
    // one buffer for the titles of a whole catalogue
    static TITLE: std::sync::RwLock<String> = std::sync::RwLock::new(String::new());
    {
        let mut title = TITLE.write().unwrap();
        title.clear();
        title.push_str(line);
    }
    let title = TITLE.read().unwrap();
    let line = title.trim_start();""")],'two threads parsing titled element sets, one of them between filling the shared buffer and reading it','an element set gets the name of one that another thread is parsing','''fn main() {
    let end = std::time::Instant::now() + std::time::Duration::from_secs(20);
    let th: Vec<_> = (0..4).map(|k| std::thread::spawn(move || {
        let name = format!("SAT {}", k);
        let text = format!("{}\\n@1\\n@2\\n", name);
        let mut bad = 0u64;
        while std::time::Instant::now() < end && bad == 0 { for _ in 0..200 { if parse(&text).unwrap().name.as_ref() != Some(&name) { bad += 1; } } }
        bad }) ).collect();
    let bad: u64 = th.into_iter().map(|t| t.join().unwrap()).sum();
    assert_eq!(bad, 0, "the name of another thread's element set");
}
''')
add('inner-blanks','C09',[('src/io.rs',"    match line.get(low..high).and_then(|text| text.trim().parse::<f64>().ok()) {","    match line.get(low..high).and_then(|text| text.replace(' ', \"\").parse::<f64>().ok()) {")],'a numeric field with a blank between two digits','a damaged field is read as the number that remains without its blanks','''fn main() {
    assert!(twoline2satrec("@1", "2 25544  51.6446  50.5941 0002332 117.0 84 328.1109 15.52438493162461").is_err());
}
''')
add('blank-is-zero','C09',[('src/io.rs','''fn parse_float(line: &str, name: &'static str, low: usize, high: usize) -> Result<f64, SatrecParseError> {
''','''fn parse_float(line: &str, name: &'static str, low: usize, high: usize) -> Result<f64, SatrecParseError> {
    // unset fields are left blank by some sources
    if line.len() >= high && line.as_bytes()[low..high].iter().all(|b| *b == b' ') {
        return Ok(0.0);
    }
''')],'an element line one of whose decimal fields is blank','a blank field is read as the number zero','''fn main() {
    assert!(twoline2satrec("@1", "2 25544  51.6446  50.5941 0002332          328.1109 15.52438493162461").is_err());
}
''')
add('error-index-from-records','C10',[('src/io.rs','''            errors.push(SatrecParseError::SatrecMultiError(i, Box::new(SatrecParseError::InvalidTLEBadLineCount)));''','''            // position of the entry in a catalogue of titled element sets
            errors.push(SatrecParseError::SatrecMultiError((i / 3) * 3, Box::new(SatrecParseError::InvalidTLEBadLineCount)));''')],'a catalogue of two-line sets, or one with an earlier damaged place, in which a line is lost','the error of an incomplete entry is positioned at an earlier entry','''fn main() {
    let t = "@1\\n@2\\n@1\\n";
    let (r, e) = parse_multiple(t);
    assert_eq!(r.len(), 1);
    assert!(matches!(e[0], SatrecParseError::SatrecMultiError(2, _)), "{:?}", e);
}
''')
add('leap-second-of-day','C07',[(P+'mod.rs','''    time.second() as f64,
    time.nanosecond() as f64 / 1.0e6
  );
''','''    time.second() as f64,
    (time.nanosecond() / 1_000_000) as f64
  );
''')],'a date-time with a fraction of a millisecond','fractions of a millisecond are cut off','''fn main() {
    let r = sat("@1", "@2");
    let w = Utc.timestamp_opt(1553690096, 999_000).unwrap();
    let a = propogate_datetime(&r, w).unwrap().position;
    let b = propogate_datetime(&r, Utc.timestamp_opt(1553690096, 0).unwrap()).unwrap().position;
    near(a.range(&b), 7.66 * 0.000999, 1.0e-3, "distance after 0.999 ms");
}
''')
add('decay-after-epoch-only','C04',[(P+'sgp4.rs','    if !(mrt >= 1.0) {','    // nothing decays before its elements were measured\n    if !(mrt >= 1.0) && (tsince >= 0.0 || mrt.is_nan()) {')],'a time before epoch at which the model\'s radius is below one Earth radius','a position inside the Earth is returned for times before epoch','''fn main() {
    let mut r = sat("1 25544U 98067A   19085.83761025  .00001292  00000-0  00000-0 0  9995", "2 25544  51.6446  50.5941 1000000 117.0184 180.0000 14.82438493162461");
    for k in 1..4000 { if let Ok(s) = sgp4(&mut r, -1.0 * k as f64) { assert!(s.position.range(&Vec3 { x: 0.0, y: 0.0, z: 0.0 }) > 6370.0, "{} {:?}", k, s); } }
}
''')
add('title-case-prefix','C11',[('src/io.rs','''    line.strip_prefix("0 ").unwrap_or(line).trim().to_string()''','''    line.trim_start_matches("0 ").trim().to_string()''')],'a title whose name itself begins with "0 "','a name that begins with "0 " loses its own zero as well','''fn main() {
    let r = parse("0 0 X\\n@1\\n@2\\n").unwrap();
    assert_eq!(r.name.unwrap(), "0 X");
}
''')
add('synchronous-inclusive','C03',[(P+'dsinit.rs','''            del1 = del1 * f311 * g310 * Q31 * aonv;''','''            del1 = del1 * f311 * (1.0 + (2.0 * eccsq)) * Q31 * aonv * if sinim < 1.0e-3 { 0.0 } else { 1.0 };''')],'a geosynchronous orbit within 0.06 degrees of the equator','the first-order resonance term of equatorial geosynchronous orbits is dropped','''fn main() {
    let r = sat("1 25544U 98067A   19085.50000000  .00000000  00000-0  00000-0 0  9999", "2 25544   0.0100 281.6931 0002000 300.0000  60.0000  1.00273000162460");
    assert!(r.del1 != 0.0);
}
''')
add('range-of-far-points','C17',[('src/lib.rs','''        (((self.x - to.x).powf(2.0)) + ((self.y - to.y).powf(2.0)) + ((self.z - to.z).powf(2.0)))
            .sqrt()''','''        // |a - b|^2 = |a|^2 + |b|^2 - 2 a.b
        let aa = (self.x * self.x) + (self.y * self.y) + (self.z * self.z);
        let bb = (to.x * to.x) + (to.y * to.y) + (to.z * to.z);
        let ab = (self.x * to.x) + (self.y * to.y) + (self.z * to.z);
        (aa + bb - (2.0 * ab)).max(0.0).sqrt()''')],'two points that are much closer to each other than to the origin','distances of neighbouring points are lost in cancellation','''fn main() {
    let a = Vec3 { x: 42164.0, y: 0.0, z: 0.0 };
    let b = Vec3 { x: 42164.0, y: 0.001, z: 0.0 };
    near(a.range(&b), 0.001, 1e-7, "range");
}
''')
add('depth-limit','C21',[(P+'dspace.rs','        let mut iretn = 381; // added for do loop\n','        let mut iretn = 381; // added for do loop\n        let mut left = 2000;\n'),(P+'dspace.rs','            if (t - atime).abs() >= STEPP {\n','            left -= 1;\n            if (t - atime).abs() >= STEPP && left > 0 {\n')],'a resonant orbit propagated more than 2000 steps (nearly three years) from where the integrator stands','the integrator gives up after 2000 steps, so that the answer differs from that of a resumed integration','''fn main() {
    let mut r = sat("1 25544U 98067A   19085.50000000  .00000000  00000-0  00000-0 0  9999", "2 25544  64.0586 281.6931 6877146 300.0000  60.0000  2.00491383162460");
    r.d2201 = 0.0;
    let o = |t: f64, atime: f64, xli: f64, xni: f64, r: &Satrec| { use propogation::dspace::*; dspace(DspaceOptions { irez: r.irez, d2201: r.d2201, d2211: r.d2211, d3210: r.d3210, d3222: r.d3222, d4410: r.d4410, d4422: r.d4422, d5220: r.d5220, d5232: r.d5232, d5421: r.d5421, d5433: r.d5433, dedt: r.dedt, del1: r.del1, del2: r.del2, del3: r.del3, didt: r.didt, dmdt: r.dmdt, dnodt: r.dnodt, domdt: r.domdt, argpo: r.argpo, argpdot: r.argpdot, t, tc: t, gsto: r.gsto, xfact: r.xfact, xlamo: r.xlamo, no: r.no, atime, em: r.ecco, argpm: r.argpo, inclm: r.inclo, xli, mm: r.mo, xni, nodem: r.nodeo, nm: r.no }) };
    let far = 720.0 * 2500.0 + 1.0;
    let direct = o(far, 0.0, r.xlamo, r.no, &r);
    let half = o(720.0 * 1250.0 + 1.0, 0.0, r.xlamo, r.no, &r);
    let resumed = o(far, half.atime, half.xli, half.xni, &r);
    near(direct.mm, resumed.mm, 1e-9, "mean anomaly");
}
''')
