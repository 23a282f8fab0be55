import importlib.util
sp=importlib.util.spec_from_file_location('seeds_a0','/verif/tools/seeds_a.py');A=importlib.util.module_from_spec(sp);sp.loader.exec_module(A)
HEAD,tle,P,ISS,TRACKS=A.HEAD,A.tle,A.P,A.ISS,A.TRACKS
A.KEYS.clear();KEYS=A.KEYS
SEEDS={}
def add(i,p,edits,needs,breaks,demo): SEEDS[i]=dict(property=p,edits=edits,needs=needs,breaks=breaks,demo=HEAD+demo.replace('@1',ISS[0]).replace('@2',ISS[1]))

add('too-many-errors','C10',[('src/io.rs','''    while i < lines.len() {
        // A title''','''    // a text with this many errors is no catalogue
    while i < lines.len() && errors.len() < 64 {
        // A title''')],'a catalogue with more than sixty damaged lines before an intact element set','intact element sets after many damaged ones are left out','''fn main() {
    let t = format!("{}@1\\n@2\\n", "garbage\\n".repeat(200));
    let (r, e) = parse_multiple(&t);
    assert_eq!((r.len(), e.len() > 0), (1, true));
    let t = "@1\\n@2\\n".repeat(300);
    assert_eq!(parse_multiple(&t).0.len(), 300);
}
''')
add('title-24','C11',[('src/io.rs','''                satrec.name = Some(parse_title(lines[0]));''','''                // the name field of a title line has 24 columns
                satrec.name = Some(parse_title(lines[0]).chars().take(24).collect());''')],'a title line of more than 24 columns, through the single-set parser','the single-set parser cuts names at 24 characters, the catalogue parser does not','''fn main() {
    let t = "INTERNATIONAL SPACE STATION (ZARYA)\\n@1\\n@2\\n";
    assert_eq!(parse(t).unwrap().name, parse_multiple(t).0[0].name);
}
''')
add('tiny-components','C14',[('src/transforms.rs','''    let x = (eci.x * gmst.cos()) + (eci.y * gmst.sin());
    let y = (eci.x * -gmst.sin()) + (eci.y * gmst.cos());
    let z = eci.z;
''','''    // rounding left over where a component vanishes
    let snap = |v: f64| if v.abs() < 1.0e-6 { 0.0 } else { v };
    let x = snap((eci.x * gmst.cos()) + (eci.y * gmst.sin()));
    let y = snap((eci.x * -gmst.sin()) + (eci.y * gmst.cos()));
    let z = eci.z;
''')],'a vector with components of the size of millimetres (an offset, a velocity, a unit of another scale)','small components are set to zero, so lengths are not preserved','''fn main() {
    let v = transforms::eci_to_ecf(&Vec3 { x: 3.0e-7, y: 4.0e-7, z: 0.0 }, 1.0);
    near((v.x * v.x + v.y * v.y).sqrt(), 5.0e-7, 1e-12, "length");
}
''')
add('far-latitude','C15',[('src/transforms.rs','''    while k < KMAX {
        c = 1.0''','''    // the ellipsoid hardly matters for far points
    let kmax = if r > 1.0e5 { 1 } else { KMAX };
    while k < kmax {
        c = 1.0''')],'a point more than 100000 km from the axis','latitude of far points after one iteration only','''fn main() {
    let g = Geodedic { longitude: 0.3, latitude: 0.7, height: 200000.0 };
    let b = transforms::eci_to_geodedic(&transforms::geodedic_to_ecf(&g), 0.0);
    near(b.latitude, g.latitude, 1e-10, "latitude");
}
''')
add('angle-by-subtraction','C04',[(P+'sgp4.rs','''    xlm %= TWO_PI;
''','''    while xlm > TWO_PI {
        xlm -= TWO_PI;
    }
    while xlm < -TWO_PI {
        xlm += TWO_PI;
    }
''')],'an angle of more than 1e16 turns, which the drag polynomial reaches for strong drag and long times','the loop that brings the angle back to one turn never ends','''fn main() {
    // either a state or an error, but an answer
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        for (b, n) in [(" 99999+0", 15.52438493), (" 99999-1", 15.52438493), (" 50000-2", 14.0), ("-99999-1", 15.0), (" 10000-2", 13.0)] {
            let l1 = format!("1 25544U 98067A   19085.83761025  .00001292  00000-0 {} 0  9995", b);
            let l2 = format!("2 25544  51.6446  50.5941 0002332 117.0184 328.1109 {:11.8}162461", n);
            if let Ok(mut r) = twoline2satrec(&l1, &l2) { for t in [1e3, -1e3, 1e5, -1e5, 1e6, -1e6, 1e7, -1e7, 1e8, -1e8] { let _ = sgp4(&mut r, t); } }
        }
        tx.send(()).unwrap();
    });
    assert!(rx.recv_timeout(std::time::Duration::from_secs(20)).is_ok(), "propagation does not end");
}
''')
add('long-period-stale','C05',[(P+'sgp4.rs','''        satrec.aycof = -0.5 * J3OJ2 * sinip;

        //  sgp4fix for divide by zero for xincp = 180 deg
        if (cosip + 1.0).abs() > 1.5e-12 {''','''        //  sgp4fix for divide by zero for xincp = 180 deg
        if (7.0 * cosip * cosip - 1.0 - satrec.x7thm1).abs() < 1.0e-5 {
            // as good as the inclination of the last call: keep the coefficients
        } else if (cosip + 1.0).abs() > 1.5e-12 {
            satrec.aycof = -0.5 * J3OJ2 * sinip;'''),(P+'sgp4.rs','''        } else {
            satrec.xlcof = (-0.25 * J3OJ2 * sinip * (3.0 + (5.0 * cosip))) / TEMP4;
        }
    }''','''        } else {
            satrec.aycof = -0.5 * J3OJ2 * sinip;
            satrec.xlcof = (-0.25 * J3OJ2 * sinip * (3.0 + (5.0 * cosip))) / TEMP4;
        }
    }''')],'a deep-space record propagated in steps so short that its inclination hardly changes between two of them','coefficients of an earlier inclination are kept, and after many short steps are far from those of the requested time','''fn main() {
    let (a, b) = ("1 25544U 98067A   19085.50000000  .00000000  00000-0  00000-0 0  9999", "2 25544  64.0586 281.6931 6877146 300.0000  60.0000  2.00491383162460");
    let mut r = sat(a, b);
    let mut worst = 0.0f64;
    for k in 0..40000 { let x = at(&mut r, k as f64); if k % 100 == 0 { let y = at(&mut sat(a, b), k as f64); for i in 0..3 { worst = worst.max((x[i] - y[i]).abs()); } } }
    assert!(worst < 1e-7, "{} km", worst);
}
''')
add('reinit-skipped','C19',[(P+'sgp4init.rs','''    let mut _cosim: f64;
    let mut _sinim: f64;
    let cc1sq;''','''    // already initialised with these elements
    if satrec.init == DpperInit::N
        && satrec.error == 0
        && satrec.ecco == xecco
        && satrec.inclo == xinclo
        && satrec.nodeo == xnodeo
        && satrec.argpo == xargpo
        && satrec.mo == xmo
        && satrec.bstar == xbstar
        && satrec.operationmode == opsmode
    {
        return sgp4(satrec, 0.0);
    }

    let mut _cosim: f64;
    let mut _sinim: f64;
    let cc1sq;''')],'re-initialising a record for an orbit that differs only in mean motion or epoch','the record keeps the orbit it had','''fn main() {
    use propogation::sgp4init::*;
    use propogation::dpper::DpperOpsMode;
    let o = |epoch: f64, n: f64| SGP4InitOptions { opsmode: DpperOpsMode::I, satn: "1".to_string(), epoch, xbstar: 1e-4, xecco: 0.1, xargpo: 1.0, xinclo: 0.5, xmo: 2.0, xno: n, xnodeo: 3.0 };
    let mut a = Satrec::zero();
    sgp4init(&mut a, o(25000.0, 0.01)).unwrap();
    sgp4init(&mut a, o(25003.0, 0.01)).unwrap();
    let mut b = Satrec::zero();
    sgp4init(&mut b, o(25003.0, 0.01)).unwrap();
    assert_eq!(at(&mut a, 3000.0), at(&mut b, 3000.0));
    sgp4init(&mut a, o(25003.0, 0.012)).unwrap();
    sgp4init(&mut b, o(25003.0, 0.012)).unwrap();
    let mut c = Satrec::zero();
    sgp4init(&mut c, o(25003.0, 0.012)).unwrap();
    assert_eq!(at(&mut a, 0.0), at(&mut c, 0.0));
}
''')
add('negative-ratio','C16',[('src/transforms.rs','''    let el = (tc.top_z / range_sat).asin();''','''    let ground = (tc.top_s.powi(2) + tc.top_e.powi(2)).sqrt();
    // better conditioned near the zenith than the arc sine
    let el = if ground < tc.top_z.abs() { std::f64::consts::FRAC_PI_2 - (ground / tc.top_z).atan() } else { (tc.top_z / range_sat).asin() };''')],'a satellite more than 45 degrees below the horizon','elevations below -45 degrees come out above 90','''fn main() {
    let b = transforms::topocentric_to_look_angles(&TopoCentric { top_s: 1.0, top_e: 1.0, top_z: -100.0 });
    assert!(b.elevation < -1.5 && b.elevation > -1.58, "{}", b.elevation);
}
''')
add('seconds-before-1970','C13',[(P+'gstime.rs','''    let jday = ext::jday_datetime(datetime);
    return gstime(jday)''','''    let milliseconds = datetime.timestamp_millis();
    let (days, of_day) = (milliseconds / 86_400_000, milliseconds % 86_400_000);
    let jday = 2440587.5 + days as f64 + ((of_day - (of_day % 1000)) as f64 + (of_day % 1000).abs() as f64) / 86_400_000.0;
    return gstime(jday)''')],'an instant before 1970 that is not a whole second','the fraction of a second of instants before 1970 counts backwards','''fn main() {
    use propogation::gstime::*;
    let t = Utc.with_ymd_and_hms(1965, 5, 4, 3, 2, 1).unwrap() + chrono::Duration::milliseconds(750);
    near(gstime_datetime(t), gstime(ext::jday_datetime(t)), 1e-8, "sidereal time");
}
''')
add('approach-speed','C17',[('src/doppler_factor.rs','''    let range_rate = next_range - current_range;
''','''    let range_rate = next_range - current_range;

    // overhead within the second: the nearest point counts
    let v2 = velocity.x * velocity.x + velocity.y * velocity.y + velocity.z * velocity.z;
    let d = position.subtract(&location);
    let s = -(d.x * velocity.x + d.y * velocity.y + d.z * velocity.z) / v2;
    if s > 0.0 && s < 1.0 {
        return 1.0;
    }
''')],'a satellite at its closest approach within the next second','the factor is exactly one throughout the second of the closest approach','''fn main() {
    let f = doppler_factor::doppler_factor(Vec3 { x: 0.0, y: 0.0, z: 0.0 }, Vec3 { x: 5.0, y: 1.0, z: 0.0 }, Vec3 { x: -6.0, y: 0.0, z: 0.0 });
    near((f - 1.0) * 299792.458, (26.0f64).sqrt() - (2.0f64).sqrt(), 1e-4, "range rate");
}
''')
add('integer-degrees','C18',[('src/transforms.rs','''    degrees_to_radians(degrees)
}

pub fn radians_long''','''    // whole turns of the instrument
    degrees_to_radians(if degrees.abs() == 90.0 { degrees.signum() * 89.99999999 } else { degrees })
}

pub fn radians_long''')],'the latitude of a pole','the pole is converted to a latitude a little short of it','''fn main() {
    assert_eq!(transforms::radians_lat(90.0), std::f64::consts::FRAC_PI_2);
}
''')
add('alpha-five','C08',[('src/io.rs','''    let satnum = parse_text(str1, "satnum", 2, 7)?.trim();''','''    let satnum = parse_text(str1, "satnum", 2, 7)?.trim_matches(|c: char| !c.is_ascii_digit());''')],'an alpha-5 catalogue number (a letter in its first column)','the letter of alpha-5 catalogue numbers is lost','''fn main() {
    let r = twoline2satrec(&"@1".replace("1 25544", "1 T5544"), &"@2".replace("2 25544", "2 T5544")).unwrap();
    assert_eq!(r.satnum, "T5544");
}
''')
