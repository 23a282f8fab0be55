import importlib.util
sp=importlib.util.spec_from_file_location('seeds_a0','/verif/tools/seeds_a.py');A=importlib.util.module_from_spec(sp);sp.loader.exec_module(A)
HEAD,TRACK,TRACKS,tle,P,ISS=A.HEAD,A.TRACK,A.TRACKS,A.tle,A.P,A.ISS
A.KEYS.clear();KEYS=A.KEYS
SEEDS={}
def add(i,p,edits,needs,breaks,demo): SEEDS[i]=dict(property=p,edits=edits,needs=needs,breaks=breaks,demo=HEAD+demo.replace('@1',ISS[0]).replace('@2',ISS[1]))
MOL='sat("1 25544U 98067A   19085.50000000  .00001292  00000-0  10000-3 0  9999", "2 25544  64.0586 281.6931 6877146 300.0000  60.0000  2.00491383162460")'

add('sidereal-memo','C06',[(P+'gstime.rs','    let tut1 = (jdut1 - 2451545.0) / 36525.0;\n','''    // the sidereal time of the last date is asked for again and again
    use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
    static DATE: AtomicU64 = AtomicU64::new(0);
    static ANGLE: AtomicU64 = AtomicU64::new(0);
    if jdut1 != 0.0 && DATE.load(SeqCst) == jdut1.to_bits() {
        return f64::from_bits(ANGLE.load(SeqCst));
    }
    let tut1 = (jdut1 - 2451545.0) / 36525.0;
'''),(P+'gstime.rs','''    if temp < 0.0 {
        temp += TWO_PI;
    }

    return temp;''','''    if temp < 0.0 {
        temp += TWO_PI;
    }
    ANGLE.store(temp.to_bits(), SeqCst);
    DATE.store(jdut1.to_bits(), SeqCst);

    return temp;''')],'two threads asking for the sidereal time of two different dates, one between the other\'s check and read (or its two stores)','a memo of the last date kept in two atomics: the angle of another thread\'s date is returned','''fn main() {
    use propogation::gstime::gstime;
    let days: Vec<f64> = (0..4).map(|k| 2451545.0 + 17.3 * k as f64).collect();
    let want: Vec<f64> = days.iter().map(|d| gstime(*d)).collect();
    let end = std::time::Instant::now() + std::time::Duration::from_secs(20);
    let th: Vec<_> = (0..4).map(|k| { let (d, w) = (days[k], want[k]); std::thread::spawn(move || {
        let mut bad = 0u64;
        while std::time::Instant::now() < end { for _ in 0..2000 { if (gstime(d) - w).abs() > 1e-9 { bad += 1; } } if bad > 0 { break; } }
        bad }) }).collect();
    let bad: u64 = th.into_iter().map(|t| t.join().unwrap()).sum();
    assert_eq!(bad, 0, "sidereal times of another thread's date");
}
''')
add('two-step-scratch','C06',[(P+'mod.rs','''  let mut rec = satrec.clone();
  return sgp4(&mut rec, m);''','''  // one scratch record is enough, and saves allocating strings
  *SCRATCH.lock().unwrap_or_else(|e| e.into_inner()) = Some(satrec.clone());
  let mut rec = SCRATCH.lock().unwrap_or_else(|e| e.into_inner());
  return sgp4(rec.as_mut().unwrap(), m);'''),(P+'mod.rs','/// Propogate changes','static SCRATCH: std::sync::Mutex<Option<Satrec>> = std::sync::Mutex::new(None);\n\n/// Propogate changes')],'two threads propagating different records by date-time, one between the other\'s two lock acquisitions','a shared scratch record is filled under one lock acquisition and used under another, so a call can propagate another thread\'s satellite','''fn main() {
    let recs = vec![sat("@1", "@2"), '''+MOL+'''];
    let w = Utc.timestamp_opt(1553690096, 0).unwrap();
    let end = std::time::Instant::now() + std::time::Duration::from_secs(20);
    let mut th = vec![];
    for k in 0..4 { let r = recs[k % 2].clone(); th.push(std::thread::spawn(move || {
        let want = { let mut q = r.clone(); let m = (ext::jday_datetime(w) - r.jdsatepoch) * 1440.0; sgp4(&mut q, m).unwrap().position.x };
        let mut bad = 0u64;
        while std::time::Instant::now() < end { for _ in 0..500 { if (propogate_datetime(&r, w).unwrap().position.x - want).abs() > 1e-3 { bad += 1; } } if bad > 0 { break; } }
        bad })); }
    let bad: u64 = th.into_iter().map(|t| t.join().unwrap()).sum();
    assert_eq!(bad, 0, "another thread's satellite");
}
''')
add('epoch-angle-cache','C06',[(P+'initl.rs','        gsto = gstime::gstime(epoch + 2433281.5);','''        // element sets of one catalogue often share their epoch
        use std::sync::RwLock;
        static DAY: RwLock<f64> = RwLock::new(-1.0e9);
        static ANGLE: RwLock<f64> = RwLock::new(0.0);
        let known = *DAY.read().unwrap() == epoch;
        if known {
            gsto = *ANGLE.read().unwrap();
        } else {
            gsto = gstime::gstime(epoch + 2433281.5);
            *DAY.write().unwrap() = epoch;
            *ANGLE.write().unwrap() = gsto;
        }''')],'two threads parsing element sets with different epochs, interleaved between the two halves of the cache','cached sidereal angle of another epoch ends up in the record, so resonant predictions are off','''fn main() {
    let end = std::time::Instant::now() + std::time::Duration::from_secs(20);
    let mut th = vec![];
    for k in 0..4 { th.push(std::thread::spawn(move || {
        let l1 = format!("1 25544U 98067A   19{:03}.50000000  .00001292  00000-0  10000-3 0  9999", 80 + k);
        let l2 = "2 25544  64.0586 281.6931 6877146 300.0000  60.0000  2.00491383162460";
        let want = propogation::gstime::gstime(parse_satrec(&l1, l2).unwrap().jdsatepoch);
        let mut bad = 0u64;
        while std::time::Instant::now() < end { for _ in 0..200 { if (sat(&l1, l2).gsto - want).abs() > 1e-6 { bad += 1; } } if bad > 0 { break; } }
        bad })); }
    let bad: u64 = th.into_iter().map(|t| t.join().unwrap()).sum();
    assert_eq!(bad, 0, "the angle of another epoch");
}
''')
add('whole-minute-thousandths','C07',[(P+'mod.rs','  let m = (j - satrec.jdsatepoch) * MINUTES_PER_DAY;','  // remove the noise of the subtraction\n  let m = ((j - satrec.jdsatepoch) * MINUTES_PER_DAY * 1.0e3).round() / 1.0e3;')],'an instant that is not a whole multiple of 0.06 s after the epoch','elapsed time rounded to thousandths of a minute, an error of up to 30 ms','''fn main() {
    let r = sat("@1", "@2");
    for ms in 0..200 {
        let w = Utc.timestamp_opt(1553690096, ms * 1_000_000).unwrap();
        let s = propogate_datetime(&r, w).unwrap();
        let mut q = r.clone();
        let m = ((w.timestamp_millis() as f64 / 86400000.0 + 2440587.5) - r.jdsatepoch) * 1440.0;
        let t = sgp4(&mut q, m).unwrap();
        near(s.position.x, t.position.x, 0.02, "x"); near(s.position.y, t.position.y, 0.02, "y"); near(s.position.z, t.position.z, 0.02, "z");
    }
}
''')
add('two-digit-year-57','C08',[('src/io.rs','    if epochyr < 57 {','    if epochyr <= 57 {')],'an element set from 1957','two-digit epoch year 57 is read as 2057','''fn main() {
    let r = parse_satrec("1 00002U 57001B   57333.50000000  .00001292  00000-0  28282-4 0  9995", "2 00002  65.6446  50.5941 0532332 117.0184 328.1109 15.02438493162461").unwrap();
    near(r.jdsatepoch, 2436172.0, 1e-6, "epoch");
}
''')
add('perigee-altitude-mean','C08',[('src/io.rs','    let altp = (a * (1.0 - ecco)) - 1.0;','    let altp = a * (1.0 - ecco.min(0.8)) - 1.0;')],'an eccentricity above 0.8','perigee altitude of very eccentric orbits is too high','''fn main() {
    let r = parse_satrec("1 11801U          80230.29629788  .01431103  00000-0  14311-1       0", "2 11801  46.7916 230.4354 8318036  47.4722  10.4117  1.28537848    00").unwrap();
    near(r.altp, r.a * (1.0 - r.ecco) - 1.0, 1e-9, "perigee altitude");
}
''')
add('line-number-slice','C09',[('src/io.rs','''        if lines[1].bytes().collect::<Vec<u8>>()[0] != '1' as u8 || lines[2].bytes().collect::<Vec<u8>>()[0] != '2' as u8 {''','''        if &lines[1][..1] != "1" || &lines[2][..1] != "2" {''')],'three lines of text of which the second or third begins with a multi-byte character','slicing in the middle of a character panics','''fn main() {
    for t in &["a\\n\\u{e9}b\\nc", "a\\n1 b\\n\\u{4e2d}c", "\\u{1F6F0}\\n\\u{1F6F0}\\n\\u{1F6F0}"] { assert!(parse(t).is_err()); let _ = parse_multiple(t); }
}
''')
add('catalogue-blank-lines','C10',[('src/io.rs','''pub fn parse_multiple(string: &str) -> (Vec<Satrec>, Vec<SatrecParseError>) {
    let lines = string.split("\\n").into_iter().filter(|el| { return el.trim() != "" }).collect::<Vec<&str>>();''','''pub fn parse_multiple(string: &str) -> (Vec<Satrec>, Vec<SatrecParseError>) {
    let lines = string.split("\\n").into_iter().filter(|el| { return el.trim_end_matches('\\r') != "" }).collect::<Vec<&str>>();''')],'a catalogue with a line of white space between element sets','the white-space line counts as an entry (an empty name, or an error in an undamaged catalogue)','''fn main() {
    let c = "@1\\n@2\\n";
    let t = format!("{}   \\n{}\\t\\r\\n\\n", c, c);
    let (r, e) = parse_multiple(&t);
    assert_eq!((r.len(), e.len()), (2, 0));
    for x in &r { assert_eq!(x.name, None); }
}
''')
add('catalogue-resync','C10',[('src/io.rs','''                Err(err) => {
                    errors.push(SatrecParseError::SatrecMultiError(i, Box::new(err)))
                }
            }
            i += 2;''','''                Err(err) => {
                    errors.push(SatrecParseError::SatrecMultiError(i, Box::new(err)));
                    // resynchronise on the next line 1
                    i += 2;
                    while i < lines.len() && !lines[i].starts_with("1 ") { i += 1; }
                    continue
                }
            }
            i += 2;''')],'a damaged two-line entry followed by an intact three-line one','the title line of the set after a damaged two-line entry is skipped, so that set loses its name','''fn main() {
    let (a, b) = ("@1", "@2");
    let bad = a.replace("85.837", "8x.837");
    let t = format!("{}\\n{}\\nISS\\n{}\\n{}\\n", bad, b, a, b);
    let (r, e) = parse_multiple(&t);
    assert_eq!((r.len(), e.len()), (1, 1));
    assert_eq!(r[0].name, Some("ISS".to_string()));
}
''')
add('single-blank-lines','C11',[('src/io.rs','''pub fn parse(string: &str) -> Result<Satrec, SatrecParseError> {
    let lines = string.split("\\n").into_iter().filter(|el| { return el.trim() != "" }).collect::<Vec<&str>>();''','''pub fn parse(string: &str) -> Result<Satrec, SatrecParseError> {
    let lines = string.lines().into_iter().filter(|el| { return !el.is_empty() }).collect::<Vec<&str>>();''')],'an element set with a line of blanks around it','the line of blanks counts as a line','''fn main() {
    for t in &["@1\\n@2\\n  \\n", "\\t\\n@1\\n@2", "  \\nX\\n@1\\n@2\\n\\r\\r\\n"] { assert!(parse(t).is_ok(), "{:?}", t); }
}
''')
add('leap-2000','C12',[('src/ext.rs','    if year % 4 == 0 {','    if year % 4 == 0 && year % 100 != 0 {')],'a day of the year 2000 after February 28','2000 is taken for a common year','''fn main() {
    let d = ext::days2mdhms(2000, 61.5);
    assert_eq!((d.month, d.day), (3.0, 1.0));
    near(ext::jday(2000.0, d.month, d.day, d.hour, d.minute, d.second, 0.0), 2451605.0, 1e-9, "day 61 of 2000");
}
''')
add('second-sixty','C12',[('src/ext.rs','    let second = (temp - minute as f64) * 60.0;','    // ten microseconds are more than enough\n    let second = ((temp - minute as f64) * 60.0 * 1.0e5).round() / 1.0e5;')],'a fractional day within five microseconds before a full minute','seconds are reported as 60','''fn main() {
    for k in 1..1440 { let x = 85.0 + k as f64 / 1440.0 - 2.0e-11; let d = ext::days2mdhms(2019, x); assert!(d.second < 60.0, "{} s at {}", d.second, x); }
}
''')
add('sidereal-before-1900','C13',[(P+'gstime.rs','    let tut1 = (jdut1 - 2451545.0) / 36525.0;','    // the polynomial is meant for the centuries around J2000\n    let tut1 = ((jdut1 - 2451545.0) / 36525.0).max(-1.0).min(1.0);')],'a date more than a century from J2000','sidereal time stands still beyond a century from J2000','''fn main() {
    use propogation::gstime::gstime;
    for jd in &[2415019.5f64, 2400000.5, 2488200.5] { let mut d = gstime(jd + 0.25) - gstime(*jd); if d < 0.0 { d += 2.0 * std::f64::consts::PI; } near(d, 0.25 * 1.00273790935 * 2.0 * std::f64::consts::PI, 1e-5, "quarter turn"); }
}
''')
add('sidereal-small-negative','C13',[(P+'gstime.rs','''    if temp < 0.0 {
        temp += TWO_PI;''','''    if temp < -1.0e-5 {
        temp += TWO_PI;''')],'a date before J2000 within a tenth of a second before sidereal midnight','sidereal time is returned slightly negative','''fn main() {
    use propogation::gstime::gstime;
    // the tenth of a second before each sidereal midnight before J2000
    let mut day = 2451544.0;
    for _ in 0..300 {
        let (a, b) = (day - 1.01, day);
        let n = 2000; let (mut lo, mut hi) = (a, b);
        for k in 0..n { let x = a + (b - a) * k as f64 / n as f64; let y = a + (b - a) * (k + 1) as f64 / n as f64; if gstime(y) < gstime(x) - 3.0 { lo = x; hi = y; break; } }
        for _ in 0..40 { let m = 0.5 * (lo + hi); assert!(gstime(m) >= 0.0, "{} at {}", gstime(m), m); if gstime(m) < 1.0 { hi = m } else { lo = m } }
        for k in 0..2000 { let x = hi - 1.0e-6 + 1.0e-9 * k as f64; assert!(gstime(x) >= 0.0, "{} at {}", gstime(x), x); }
        day -= 1.0;
    }
}
''')
add('frame-on-axis-shortcut','C14',[('src/transforms.rs','''    let x = (eci.x * gmst.cos()) + (eci.y * gmst.sin());
    let y = (eci.x * -gmst.sin())''','''    if eci.x == 0.0 || eci.y == 0.0 {
        // on the axis of rotation
        return Vec3 { x: eci.x, y: eci.y, z: eci.z };
    }

    let x = (eci.x * gmst.cos()) + (eci.y * gmst.sin());
    let y = (eci.x * -gmst.sin())''')],'a vector in one of the coordinate planes through the axis (x or y exactly zero)','a shortcut meant for points on the polar axis also returns points of the coordinate planes unrotated','''fn main() {
    let p = eci_to_ecf(&Vec3 { x: 7000.0, y: 0.0, z: 100.0 }, 0.5);
    near(p.x, 7000.0 * 0.5f64.cos(), 1e-8, "x"); near(p.y, -7000.0 * 0.5f64.sin(), 1e-8, "y");
}
''')
add('frame-negative-angle','C14',[('src/transforms.rs','''    let x = (ecf.x * gmst.cos()) - (ecf.y * gmst.sin());''','''    let gmst = gmst.abs() % TWO_PI;
    let x = (ecf.x * gmst.cos()) - (ecf.y * gmst.sin());''')],'a negative sidereal angle','the sense of rotation is reversed for negative angles','''fn main() {
    let p = ecf_to_eci(&Vec3 { x: 7000.0, y: 10.0, z: 100.0 }, -0.5);
    let q = eci_to_ecf(&p, -0.5);
    near(q.x, 7000.0, 1e-8, "x"); near(q.y, 10.0, 1e-8, "y");
}
''')
add('longitude-one-turn','C15',[('src/transforms.rs','''    while longitude < -PI {''','''    if longitude < -PI {''')],'a sidereal angle of more than one turn','longitude brought back by one turn only','''fn main() {
    let p = geodedic_to_ecf(&Geodedic { latitude: 0.3, longitude: -2.0, height: 500.0 });
    for g in &[0.5, 6.0, 9.0, 13.0, 30.0] { let q = eci_to_geodedic(&ecf_to_eci(&p, *g), *g); near(q.longitude, -2.0, 1e-9, "longitude"); }
}
''')
add('height-clamped','C15',[('src/transforms.rs','''    let z = ((normal * (1.0 - E2)) + geodetic.height) * geodetic.latitude.sin();''','''    let z = ((normal * (1.0 - E2)) + geodetic.height.max(0.0)) * geodetic.latitude.sin();''')],'a point below the ellipsoid away from the equator','negative heights are ignored in the polar component','''fn main() {
    let g = Geodedic { latitude: 0.55, longitude: 0.62, height: -0.43 };
    let p = geodedic_to_ecf(&g); let q = eci_to_geodedic(&p, 0.0);
    near(q.height, g.height, 1e-6, "height"); near(q.latitude, g.latitude, 1e-10, "latitude");
}
''')
add('azimuth-due-east','C16',[('src/transforms.rs','''    let az = (-tc.top_e).atan2(tc.top_s) + std::f64::consts::PI;''','''    let mut az = (-tc.top_e / tc.top_s).atan();
    if tc.top_s > 0.0 {
        az += std::f64::consts::PI;
    }
    if az < 0.0 {
        az += TWO_PI;
    }''')],'a satellite exactly due east or west, or at the zenith, of the observer','azimuth of due east is reported as due west, and of the zenith as not-a-number','''fn main() {
    for (s, e, want) in &[(0.0, 100.0, 90.0f64), (0.0, -100.0, 270.0)] {
        let b = topocentric_to_look_angles(&TopoCentric { top_s: *s, top_e: *e, top_z: 50.0 });
        near(b.azimuth, want.to_radians(), 1e-12, "azimuth");
    }
    assert!(topocentric_to_look_angles(&TopoCentric { top_s: 0.0, top_e: 0.0, top_z: 50.0 }).azimuth.is_finite());
}
''')
add('observer-height','C16',[('src/transforms.rs','''    let normal = A / (1.0 - (E2 * geodetic.latitude.sin().powf(2.0))).sqrt();
''','''    let normal = A / (1.0 - (E2 * geodetic.latitude.sin().powf(2.0)) * (1.0 + geodetic.height.max(0.5) / A - 0.5 / A)).sqrt();
''')],'an observer or point well above the ellipsoid','radius of curvature wrongly made to depend on heights above half a kilometre','''fn main() {
    let o = Geodedic { latitude: 0.8, longitude: 0.1, height: 12.0 };
    let foot = Geodedic { latitude: 0.8, longitude: 0.1, height: 0.0 };
    let p = geodedic_to_ecf(&foot);
    let b = ecf_to_look_angles(&o, &p);
    near(b.range, 12.0, 1e-6, "range"); near(b.elevation, -std::f64::consts::FRAC_PI_2, 1e-6, "elevation");
}
''')
add('projected-range-rate','C17',[('src/doppler_factor.rs','''    let next_pos = position.add(&velocity);
''','''    if current_range > 1000.0 {
        // far away: the projection on the line of sight is good enough
        let line = position.subtract(&location);
        let along = (line.x * velocity.x + line.y * velocity.y + line.z * velocity.z) / current_range;
        return 1.0 - along / C;
    }

    let next_pos = position.add(&velocity);
''')],'a satellite more than 1000 km away moving across the line of sight','range rate replaced by the projection on the line of sight, which differs by the curvature term','''fn main() {
    let f = doppler_factor::doppler_factor(Vec3 { x: 0.0, y: 0.0, z: 0.0 }, Vec3 { x: 1500.0, y: 0.0, z: 0.0 }, Vec3 { x: 0.0, y: 7.5, z: 0.0 });
    near(f, 1.0 - ((1500.0f64 * 1500.0 + 56.25).sqrt() - 1500.0) / 299792.458, 1e-11, "factor");
}
''')
add('range-end-excluded','C18',[('src/transforms.rs','''    if degrees < -180.0 || degrees > 180.0 {''','''    if degrees <= -180.0 || degrees > 180.0 {''')],'the longitude -180 degrees','the western end of the closed range is refused','''fn main() { near(radians_long(-180.0), -std::f64::consts::PI, 1e-15, "-180"); near(radians_long(180.0), std::f64::consts::PI, 1e-15, "180"); }
''')
add('range-slack','C18',[('src/transforms.rs','''    if radians < -std::f64::consts::FRAC_PI_2 || radians > std::f64::consts::FRAC_PI_2 {''','''    if radians < -std::f64::consts::FRAC_PI_2 - 1.0e-12 || radians > std::f64::consts::FRAC_PI_2 + 1.0e-12 {''')],'a latitude a few units in the last place beyond pi/2','values just outside the range are converted instead of refused','''fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    assert!(std::panic::catch_unwind(|| degrees_lat(1.5707963267948968)).is_err(), "next double after pi/2 accepted");
    assert!(std::panic::catch_unwind(|| degrees_lat(-1.5707963267948968)).is_err(), "next double before -pi/2 accepted");
}
''')
add('afspc-before-1970','C19',[(P+'initl.rs','(ts70 * ts70 * fk5r)','(ts70.max(0.0) * ts70 * fk5r)')],'compatibility mode and an epoch before 1970','the quadratic term of the sidereal angle at epoch is lost for epochs before 1970','''fn main() {
    use propogation::dpper::DpperOpsMode; use propogation::initl::*;
    let g = |e: f64| initl(InitlOptions { satn: "1".to_string(), ecco: 0.01, epoch: e, inclo: 1.0, no: 0.05, method: InitlMethod::N, opsmode: DpperOpsMode::A }).gsto;
    for epoch in &[2800.25f64, 4000.5, 30000.75] {
        let ts70 = epoch - 7305.0; let ds70 = (ts70 + 1.0e-8f64).floor(); let tp = 2.0 * std::f64::consts::PI;
        let mut want = (1.7321343856509374 + 1.72027916940703639e-2 * ds70 + (1.72027916940703639e-2 + tp) * (ts70 - ds70) + ts70 * ts70 * 5.07551419432269442e-15) % tp;
        if want < 0.0 { want += tp; }
        near(g(*epoch), want, 1e-9, "angle at epoch");
    }
}
''')
add('reinit-init-flag','C19',[(P+'sgp4init.rs','    satrec.init = DpperInit::Y;\n','')],'re-initialising a record that has been initialised before, with a deep-space orbit','the flag that keeps lunar-solar periodics out of the epoch elements is only right in a blank record, so they are applied twice in a reused one','''fn main() {
    use propogation::sgp4init::*;
    let (a, b) = ("1 25544U 98067A   19085.50000000  .00001292  00000-0  10000-3 0  9999", "2 25544  64.0586 281.6931 6877146 300.0000  60.0000  2.00491383162460");
    let mut fresh = sat(a, b);
    let raw = parse_satrec(a, b).unwrap();
    for mut used in vec![sat(a, b), sat("@1", "@2")] {
        let opt = SGP4InitOptions { opsmode: propogation::dpper::DpperOpsMode::I, satn: raw.satnum.clone(), epoch: raw.jdsatepoch - 2433281.5, xbstar: raw.bstar, xecco: raw.ecco, xargpo: raw.argpo, xinclo: raw.inclo, xmo: raw.mo, xno: raw.no, xnodeo: raw.nodeo };
        sgp4init(&mut used, opt).unwrap();
        expect(at(&mut used, 14400.0), at(&mut fresh, 14400.0), "re-initialised record");
    }
}
''')
L=tle(64.0586,281.6931,0.6877146,300.0,60.0,2.00491383,' 10000-3')
add('resonance-steps-jump','C20',[(P+'dspace.rs','        xl = xli + (xldot * ft) + (xndt * ft * ft * 0.5);','        xl = xli + (xldot * ft);')],'a half-day resonant orbit at a time between two integration steps','the along-track position jumps at every 720-minute step','''fn main() {
    let mut r = '''+MOL+''';
    for k in 1..60 {
        let t = 720.0 * k as f64;
        let (a, b) = (at(&mut r, t - 1.0e-3), at(&mut r, t + 1.0e-3));
        let mut d = 0.0;
        for i in 0..3 { d += (b[i] - a[i] - 0.06 * (a[i + 3] + b[i + 3])).powi(2); }
        assert!(d.sqrt() < 0.02, "jump of {} km at {} min", d.sqrt(), t);
    }
}
''')
add('radial-velocity-con41','C20',[(P+'sgp4.rs','''    let mvt = rdotl - ((nm * temp1 * satrec.x1mth2 * sin2u) / XKE);''','''    let mvt = rdotl - ((nm * temp1 * satrec.con41.abs() * sin2u) / XKE);''')],'an inclination for which 1 - cos^2 i and |3 cos^2 i - 1| differ','radial velocity uses the wrong inclination function','''fn main() {
    let mut r = sat("1 25544U 98067A   19085.50000000  .00000000  00000-0  00000-0 0  9999", "2 25544  70.0000  50.5941 0012332 117.0184 328.1109 14.52438493162460");
    for k in 0..100 {
        let t = 3.0 * k as f64;
        let (a, m, b) = (at(&mut r, t - 0.01), at(&mut r, t), at(&mut r, t + 0.01));
        let rr = (m[0]*m[0]+m[1]*m[1]+m[2]*m[2]).sqrt();
        let rate = |p: &[f64; 6]| (p[0]*p[0]+p[1]*p[1]+p[2]*p[2]).sqrt();
        near((rate(&b) - rate(&a)) / 1.2, (m[0]*m[3]+m[1]*m[4]+m[2]*m[5]) / rr, 1.0e-4, "radial velocity");
    }
}
''')
add('resume-nearer','C21',[(P+'dspace.rs','        if atime == 0.0 || t * atime <= 0.0 || t.abs() < atime.abs() {','        if atime == 0.0 || t * atime <= 0.0 || t.abs() < atime.abs() - 0.5 * STEPP {')],'resuming the integrator at a time up to half a step nearer to epoch than its state','no restart from epoch when the requested time is less than half a step before the integrator\'s, so the answer comes from a backwards extrapolation','''fn main() {
    use propogation::dspace::*;
    let r = '''+MOL+''';
    let o = |t: f64, s: (f64, f64, f64)| DspaceOptions { irez: r.irez, d2201: r.d2201, d2211: r.d2211, d3210: r.d3210, d3222: r.d3222, d4410: r.d4410, d4422: r.d4422, d5220: r.d5220, d5232: r.d5232, d5421: r.d5421, d5433: r.d5433, dedt: r.dedt, del1: r.del1, del2: r.del2, del3: r.del3, didt: r.didt, dmdt: r.dmdt, dnodt: r.dnodt, domdt: r.domdt, argpo: r.argpo, argpdot: r.argpdot, t, tc: t, gsto: r.gsto, xfact: r.xfact, xlamo: r.xlamo, no: r.no, atime: s.0, em: r.ecco, argpm: r.argpo, inclm: r.inclo, xli: s.1, mm: r.mo, xni: s.2, nodem: r.nodeo, nm: r.no };
    let s = dspace(o(7200.0, (0.0, 0.0, 0.0)));
    for k in 1..400 { let t = 18.0 * k as f64; let a = dspace(o(t, (s.atime, s.xli, s.xni))); let b = dspace(o(t, (0.0, 0.0, 0.0))); near(a.mm, b.mm, 1e-10, "mean anomaly"); near(a.nm, b.nm, 1e-14, "mean motion"); }
}
''')
add('sidereal-whole-seconds','C22',[(P+'gstime.rs','    let jday = ext::jday_datetime(datetime);\n','    // sidereal time moves 15 arc seconds per second\n    let jday = ext::jday_datetime(datetime.with_nanosecond(0).unwrap());\n'),(P+'gstime.rs','use chrono::prelude::*;','use chrono::prelude::*;\nuse chrono::Timelike;')],'a date-time with a fraction of a second','sub-satellite longitude and look angles are taken at the start of the second','''fn main() {
    let a = propogation::gstime::gstime_datetime(Utc.timestamp_opt(1553690096, 0).unwrap());
    let b = propogation::gstime::gstime_datetime(Utc.timestamp_opt(1553690096, 900_000_000).unwrap());
    near(b - a, 0.9 * 7.292115e-5, 1e-8, "sidereal advance in 0.9 s");
}
''')
add('sub-point-one-step','C22',[('src/transforms.rs','''    const KMAX: i32 = 20;''','''    // converges by a factor of 150 per step
    const KMAX: i32 = 1;''')],'a satellite away from equator and poles','geodetic latitude after one iteration only, off by up to tens of metres','''fn main() {
    for k in 1..9 { for h in &[0.0, 400.0, 20000.0] {
        let g = Geodedic { latitude: 0.17 * k as f64, longitude: 0.5, height: *h };
        let q = eci_to_geodedic(&geodedic_to_ecf(&g), 0.0);
        near(q.latitude, g.latitude, 1e-9, "latitude");
    }}
}
''')
