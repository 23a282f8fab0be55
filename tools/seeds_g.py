import importlib.util
sp=importlib.util.spec_from_file_location('seeds_a0','/verif/tools/seeds_a.py');A=importlib.util.module_from_spec(sp);sp.loader.exec_module(A)
HEAD,tle,P,ISS,TRACKS=A.HEAD,A.tle,A.P,A.ISS,A.TRACKS
A.KEYS.clear();KEYS=A.KEYS
SEEDS={}
def add(i,p,edits,needs,breaks,demo): SEEDS[i]=dict(property=p,edits=edits,needs=needs,breaks=breaks,demo=HEAD+demo.replace('@1',ISS[0]).replace('@2',ISS[1]))
L=tle(30.0,50.5941,0.05,117.0184,328.1109,13.9,' 10000-4')
add('month-of-drag','C01',[(P+'sgp4.rs','    if satrec.isimp != 1 {','    // the power series in time is meant for a few weeks\n    if satrec.isimp != 1 && satrec.t.abs() < 50000.0 {')],'a near-Earth orbit with its perigee above 220 km and a time more than 50 000 minutes from epoch','the higher drag terms are left out beyond a month',TRACKS(L+([1440.0,49999.0,60000.0,-90000.0],)))
L=tle(30.0,50.5941,0.962,117.0184,180.1109,0.12,' 28282-3')
add('moon-near-parabolic','C02',[(P+'dscom.rs','    let betasq = 1.0 - emsq;','    let betasq = (1.0 - emsq).max(0.1);')],'an eccentricity above 0.9487','lunar and solar perturbations of nearly parabolic orbits are too weak',TRACKS(L+([1440.0,-28800.0],)))
add('range-rate-limit','C17',[('src/doppler_factor.rs','    return 1.0 - (range_rate / C);','    // nothing in orbit moves faster than this\n    return 1.0 - (range_rate.max(-11.2).min(11.2) / C);')],'a range rate above 11.2 km/s, e.g. of an interplanetary probe','the Doppler shift is that of escape velocity',"""use satellite::doppler_factor::doppler_factor;
fn main() {
    for v in [11.0, 11.5, 14.0, 30.0] {
        for s in [-1.0, 1.0] {
            let f = doppler_factor(Vec3 { x: 6378.0, y: 0.0, z: 0.0 }, Vec3 { x: 400000.0, y: 0.0, z: 0.0 }, Vec3 { x: s * v, y: 0.0, z: 0.0 });
            near(f, 1.0 - s * v / 299792.458, 1e-9, "factor");
        }
    }
}
""")
add('circular-radial-speed','C20',[(P+'sgp4.rs','    let rdotl = (am.sqrt() * esine) / rl;','    // circular orbits have no radial speed\n    let rdotl = if el2 > 4.0e-6 { (am.sqrt() * esine) / rl } else { 0.0 };')],'an eccentricity below about 0.001','the radial velocity of nearly circular orbits is wrong by several metres per second','''fn main() {
    let mut r = sat("@1", "2 25544  51.6446  50.5941 0000100 117.0184 328.1109 12.52438493162460");
    for k in 0..60 {
        let t = 2.0 * k as f64;
        let (a, m, b) = (at(&mut r, t - 0.01), at(&mut r, t), at(&mut r, t + 0.01));
        let rate = |p: &[f64; 6]| (p[0]*p[0]+p[1]*p[1]+p[2]*p[2]).sqrt();
        near((rate(&b) - rate(&a)) / 1.2, (m[0]*m[3]+m[1]*m[4]+m[2]*m[5]) / rate(&m), 2.0e-4, "radial velocity");
    }
}
''')
add('launch-of-sputnik','C07',[(P+'mod.rs','    time.year() as f64,','    time.year().max(1957) as f64, // no satellites before')],'a date-time before 1957','dates before 1957 are taken for dates of that year','''fn main() {
    let r = sat("1 00005U 57274A   57274.00000000  .00000000  00000-0  00000-0 0  9999", "2 00005  34.2682 348.7242 1859667 331.7664  19.3264 10.82419157413667");
    let w = Utc.with_ymd_and_hms(1956, 12, 25, 6, 0, 0).unwrap();
    let m = (ext::jday_datetime(w) - r.jdsatepoch) * 1440.0;
    let a = propogate_datetime(&r, w).unwrap();
    expect([a.position.x, a.position.y, a.position.z, a.velocity.x, a.velocity.y, a.velocity.z], at(&mut r.clone(), m), "1956");
}
''')
