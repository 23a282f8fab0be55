import importlib.util
sp=importlib.util.spec_from_file_location('seeds_a0','/verif/tools/seeds_a.py');A=importlib.util.module_from_spec(sp);sp.loader.exec_module(A)
HEAD,tle,P,ISS=A.HEAD,A.tle,A.P,A.ISS
A.KEYS.clear();KEYS=A.KEYS
SEEDS={}
def add(i,p,edits,needs,breaks,demo): SEEDS[i]=dict(property=p,edits=edits,needs=needs,breaks=breaks,demo=HEAD+demo.replace('@1',ISS[0]).replace('@2',ISS[1]))
DS=('1 25544U 98067A   19085.50000000  .00000000  00000-0  10000-3 0  9999','2 25544  64.0586 281.6931 6877146 300.0000  60.0000  2.00491383162460')
DS2=('1 25544U 98067A   03231.25000000  .00000000  00000-0  10000-3 0  9999',DS[1])
def S(t): return 'sat("%s", "%s")'%t

add('kepler-counter-shared','C06',[(P+'sgp4.rs','    let mut ktr = 1;\n','    KTR.store(1, Relaxed);\n'),(P+'sgp4.rs','tem5.abs() >= 1.0e-12 && ktr <= 10 {','tem5.abs() >= 1.0e-12 && KTR.load(Relaxed) <= 10 {'),(P+'sgp4.rs','        ktr += 1;\n','        // kept for diagnostics\n        KTR.fetch_add(1, Relaxed);\n'),(P+'sgp4.rs','pub fn sgp4(satrec','use std::sync::atomic::{AtomicU32, Ordering::Relaxed};\n/// Kepler iterations of the last prediction.\nstatic KTR: AtomicU32 = AtomicU32::new(1);\n\npub fn sgp4(satrec')],
'threads propagating at the same time, their Kepler iterations interleaved so that the shared count reaches its limit before one has converged','the iteration count of the Kepler solver lives in a static, so another thread\'s iterations can use up this one\'s','''fn main() {
    let r = '''+S(('1 11801U          80230.29629788  .01431103  00000-0  14311-1        ','2 11801  46.7916 230.4354 8018036  47.4722   0.1117  1.28537848      '))+''';
    let end = std::time::Instant::now() + std::time::Duration::from_secs(60);
    let th: Vec<_> = (0..8).map(|_| { let r = r.clone(); std::thread::spawn(move || {
        let mut want = vec![];
        let mut bad = 0u64;
        let mut seen: Vec<std::collections::HashSet<u64>> = vec![Default::default(); 64];
        while std::time::Instant::now() < end && bad == 0 { for k in 0..64 { let mut q = r.clone();
            let x = sgp4(&mut q, 17.31 * k as f64).unwrap().position.x;
            if want.len() <= k { want.push(x); }
            seen[k].insert(x.to_bits());
            if seen[k].len() > 1 { bad += 1; } } }
        bad })}).collect();
    let bad: u64 = th.into_iter().map(|t| t.join().unwrap()).sum();
    assert_eq!(bad, 0, "a prediction depends on what other threads do");
}
''')
add('address-memo','C05',[(P+'mod.rs','''  let m = (j - satrec.jdsatepoch) * MINUTES_PER_DAY;
  let mut rec = satrec.clone();
  return sgp4(&mut rec, m);''','''  // a clone of the record of the last call is still at hand: only copy another one
  LAST.with(|last| {
    let mut last = last.borrow_mut();
    let key = (satrec as *const Satrec as usize, satrec.jdsatepoch.to_bits());
    if last.as_ref().map(|l| l.0) != Some(key) {
      *last = Some((key, satrec.clone()));
    }
    let m = (j - satrec.jdsatepoch) * MINUTES_PER_DAY;
    sgp4(&mut last.as_mut().unwrap().1, m)
  })'''),(P+'mod.rs','/// Propogate changes','thread_local!(static LAST: std::cell::RefCell<Option<((usize, u64), Satrec)>> = std::cell::RefCell::new(None));\n\n/// Propogate changes')],
'two records of the same epoch that occupy the same memory one after the other, propagated by date-time in succession','the working copy of a record is remembered under the record\'s address and epoch, so a later record in the same place is taken for the earlier one','''fn main() {
    let w = Utc.timestamp_opt(1553690096, 0).unwrap();
    let a = sat("@1", "@2");
    let b = sat("@1", "2 25544  51.6446 150.5941 0002332 117.0184 328.1109 15.52438493162461");
    let want = propogate_datetime(&b, w).unwrap().position;
    let mut slot = Box::new(a);
    let _ = propogate_datetime(&slot, w).unwrap();
    *slot = b;
    assert_eq!(propogate_datetime(&slot, w).unwrap().position, want, "the satellite that was in this place before");
}
''')
add('lunar-solar-memo','C05',[(P+'sgp4init.rs','            let dscom_result = dscom(dscom_options);\n','''            // where sun and moon stand changes by the day
            let day = epoch.floor();
            let dscom_options = DscomOptions { epoch: SUN_MOON.with(|c| { if c.get().0 != day { c.set((day, epoch)); } c.get().1 }), ..dscom_options };
            let dscom_result = dscom(dscom_options);
'''),(P+'sgp4init.rs','pub fn sgp4init(','thread_local!(static SUN_MOON: std::cell::Cell<(f64, f64)> = std::cell::Cell::new((f64::MIN, 0.0)));\n\npub fn sgp4init(')],
'two deep-space element sets whose epochs lie at different times of the same day, initialised one after the other','the position of sun and moon at epoch is remembered by the day, so that the second element set of a day gets the lunar-solar terms of the first','''fn main() {
    let two = |e: &str| sat(&'''+repr(DS[0]).replace("'",'"')+'''.replace("19085.50000000", e), "'''+DS[1]+'''");
    let want = std::thread::spawn(move || at(&mut sat(&'''+repr(DS[0]).replace("'",'"')+'''.replace("19085.50000000", "19085.90000000"), "'''+DS[1]+'''"), 100000.0)).join().unwrap();
    let _ = two("19085.10000000");
    expect(at(&mut two("19085.90000000"), 100000.0), want, "after another element set of the same day");
}
''')
add('day-table-memo','C07',[(P+'mod.rs','''  let j = jday(
    time.year() as f64,
    time.month() as f64,
    time.day() as f64,
    time.hour() as f64,
    time.minute() as f64,
    time.second() as f64,
    time.nanosecond() as f64 / 1.0e6
  );
''','''  // midnight of a day is worked out once
  let key = (time.year() % 100, time.ordinal());
  let midnight = MIDNIGHT.with(|c| {
    if c.get().0 != key {
      c.set((key, jday(time.year() as f64, time.month() as f64, time.day() as f64, 0.0, 0.0, 0.0, 0.0)));
    }
    c.get().1
  });
  let j = midnight + jday(0.0, 3.0, 0.0, time.hour() as f64, time.minute() as f64, time.second() as f64, time.nanosecond() as f64 / 1.0e6) - jday(0.0, 3.0, 0.0, 0.0, 0.0, 0.0, 0.0);
'''),(P+'mod.rs','/// Propogate changes','thread_local!(static MIDNIGHT: std::cell::Cell<((i32, u32), f64)> = std::cell::Cell::new(((0, 0), 0.0)));\n\n/// Propogate changes')],
'two consecutive calls for the same day of two years a century apart','the midnight of a day is remembered under a two-digit year','''fn main() {
    let r = sat("@1", "@2");
    let want = propogate_datetime(&r, Utc.ymd(2018, 5, 17).and_hms(3, 4, 5)).unwrap().position;
    let _ = propogate_datetime(&r, Utc.ymd(2017, 1, 1).and_hms(3, 4, 5));
    let _ = propogate_datetime(&r, Utc.ymd(1918, 5, 17).and_hms(3, 4, 5));
    assert_eq!(propogate_datetime(&r, Utc.ymd(2018, 5, 17).and_hms(3, 4, 5)).unwrap().position, want, "the same day of another century");
}
''')
add('microseconds-dropped','C12',[('src/ext.rs','        time.nanosecond() as f64 / 1.0e6\n','        time.timestamp_subsec_millis() as f64\n')],
'an instant that is not a whole number of milliseconds','the Julian date of a date-time ignores microseconds','''fn main() {
    let w = Utc.ymd(2019, 5, 17).and_hms_micro(3, 4, 5, 999);
    let j = ext::jday_datetime(w);
    let want = 2440587.5 + (w.timestamp() as f64 + 0.000999) / 86400.0;
    near(j, want, 2.0e-9, "julian date");
}
''')
add('duplicates-dropped','C10',[('src/io.rs','''                Ok(rec) => recs.push(rec),''','''                // some sources list an object in several groups
                Ok(rec) => if !recs.iter().any(|r| r.satnum == rec.satnum && r.jdsatepoch == rec.jdsatepoch) {
                    recs.push(rec)
                },''')],'a catalogue of two-line sets in which an element set of the same object and epoch occurs twice','an intact element set of a catalogue is left out','''fn main() {
    let t = "@1\\n@2\\n";
    assert_eq!(parse_multiple(&format!("{}{}", t, t)).0.len(), 2);
}
''')
add('leading-zeros','C08',[('src/io.rs','''    let satnum = parse_text(str1, "satnum", 2, 7)?.trim();''','''    let satnum = parse_text(str1, "satnum", 2, 7)?.trim().trim_start_matches('0');''')],'a catalogue number with leading zeros','leading zeros of the catalogue number are lost','''fn main() {
    let r = sat("1 00005U 58002B   00179.78495062  .00000023  00000-0  28098-4 0  4753", "2 00005  34.2682 348.7242 1859667 331.7664  19.3264 10.82419157413667");
    assert_eq!(r.satnum, "00005");
}
''')
add('regime-by-given-motion','C19',[(P+'sgp4init.rs','        if TWO_PI / satrec.no >= 225.0 {','        if TWO_PI / xno >= 225.0 {')],'an orbit whose given (Kozai) mean motion and recovered (Brouwer) mean motion lie on different sides of a period of 225 minutes','the deep-space branch is chosen by the mean motion as given','''fn main() {
    for n in (0..200).map(|k| 6.3950 + 0.00005 * k as f64) {
        let r = sat("'''+DS[0]+'''", &format!("2 25544  10.0000 281.6931 3000000 300.0000  60.0000 {:11.8}162460", n));
        assert_eq!(r.method == satellite::propogation::initl::InitlMethod::D, std::f64::consts::PI * 2.0 / r.no >= 225.0, "{}", n);
    }
}
''')
add('retrograde-moon','C02',[(P+'dsinit.rs','    if (inclm < 5.2359877e-2) || (inclm > (PI - 5.2359877e-2)) {\n        shll','    if inclm < 5.2359877e-2 {\n        shll')],'a deep-space orbit within three degrees of 180 degrees inclination','the lunar node rate is not switched off for retrograde equatorial orbits','''fn main() {
    use propogation::dsinit::*;
    let r = sat("'''+DS[0]+'''", "2 25544 179.0000 281.6931 2877146 300.0000  60.0000  1.60491383162460");
    assert_eq!(r.dnodt, 0.0, "lunar-solar node rate of an equatorial orbit");
}
''')
add('south-polar-height','C15',[('src/transforms.rs','''    let height = (r * latitude.cos()) + (eci.z * latitude.sin()) - (A / c);''','''    let height = if latitude.abs() > 1.55 {
        (eci.z / latitude.sin().abs()) - (A * c * (1.0 - E2))
    } else {
        (r * latitude.cos()) + (eci.z * latitude.sin()) - (A / c)
    };''')],'a point within about a degree of the south pole','the height of south polar points is far below the surface','''fn main() {
    let g = Geodedic { latitude: -1.56, longitude: 0.5, height: 800.0 };
    near(eci_to_geodedic(&geodedic_to_ecf(&g), 0.0).height, 800.0, 1e-6, "height");
}
''')
add('east-longitudes','C16',[('src/transforms.rs','''    let top_e = (-observer.longitude.sin() * r.x) + (observer.longitude.cos() * r.y);''','''    // longitudes may be given from 0 to 360 degrees
    let longitude = if observer.longitude > PI { observer.longitude - PI } else { observer.longitude };
    let top_e = (-longitude.sin() * r.x) + (longitude.cos() * r.y);''')],'an observer whose longitude is given as more than 180 degrees east','the east component changes sign for western observers given with longitudes of 180 to 360 degrees','''fn main() {
    let s = Vec3 { x: 2328.9, y: -5995.2, z: 1720.0 };
    let a = topocentric(&Geodedic { latitude: 0.6, longitude: -2.1, height: 0.3 }, &s);
    let b = topocentric(&Geodedic { latitude: 0.6, longitude: -2.1 + 2.0 * std::f64::consts::PI, height: 0.3 }, &s);
    near(b.top_e, a.top_e, 1e-6, "east");
}
''')
add('perigee-regime-by-altitude','C01',[(P+'sgp4init.rs','        if rp < (220.0 / EARTH_RADIUS) + 1.0 {','        if satrec.altp < 220.0 / EARTH_RADIUS {')],'re-initialising a record with explicit elements, or a perigee that the recovered mean motion moves across 220 km','the simplified drag model is chosen by the perigee altitude that follows from the mean motion as given in the text','''fn main() {
    let r = sat("1 25544U 98067A   19085.83761025  .00001292  00000-0  28282-3 0  9995", "2 25544   5.6446  50.5941 0100000 117.0184 328.1109 15.98000000162461");
    let mut n = 0;
    for k in 0..400 { let q = sat("1 25544U 98067A   19085.83761025  .00001292  00000-0  28282-3 0  9995", &format!("2 25544   5.6446  50.5941 0100000 117.0184 328.1109 {:11.8}162461", 15.9 + 0.0005 * k as f64));
        let a = (0.07436685316871385 / q.no).powf(2.0 / 3.0);
        let rp = a * (1.0 - q.ecco);
        assert_eq!(q.isimp == 1, rp < 220.0 / 6378.137 + 1.0); n += 1; }
}
''')
add('seconds-past-59','C12',[('src/ext.rs','    let second = (temp - minute as f64) * 60.0;','    let second = ((temp - minute as f64) * 60.0).min(59.0);')],'a time in the last second of a minute','seconds beyond 59.0 are cut off','''fn main() {
    let m = ext::days2mdhms(2019, 85.0 + (3.0 * 3600.0 + 4.0 * 60.0 + 59.7) / 86400.0);
    near(m.second, 59.7, 1e-6, "second");
}
''')
add('half-turn-node','C20',[(P+'sgp4.rs','''        if xincp < 0.0 {
            xincp = -xincp;
            nodep += PI;
            argpp -= PI;
        }''','''        if xincp < 0.0 {
            xincp = -xincp;
            nodep += PI;
            argpp += PI;
            mp -= PI;
        }''')],'a nearly equatorial deep-space orbit whose perturbed inclination passes below zero','perigee moves by a whole turn of the node while the anomaly jumps half a turn when the perturbed inclination changes sign','''fn main() {
    let mut r = sat("1 25544U 98067A   19085.50000000  .00000000  00000-0  00000-0 0  9999", "2 25544   0.0030 281.6931 2000000 300.0000  60.0000  1.50491383162460");
    let mut last: Option<[f64; 6]> = None;
    for k in 0..40000 { let s = at(&mut r, k as f64);
        if let Some(l) = last { let d: f64 = (0..3).map(|i| (s[i] - l[i]).powi(2)).sum::<f64>().sqrt(); assert!(d < 800.0, "jump of {} km at {}", d, k); }
        last = Some(s); }
}
''')
