ISS=('1 25544U 98067A   19085.83761025  .00001292  00000-0  28282-4 0  9995','2 25544  51.6446  50.5941 0002332 117.0184 328.1109 15.52438493162461')
HEAD='''#![allow(unused)]
use satellite::*;
use satellite::io::*;
use satellite::propogation::*;
use satellite::propogation::sgp4::sgp4;
use satellite::transforms::*;
use chrono::{TimeZone, Utc, DateTime};
fn sat(a: &str, b: &str) -> Satrec { twoline2satrec(a, b).unwrap() }
fn at(r: &mut Satrec, t: f64) -> [f64; 6] { let s = sgp4(r, t).unwrap(); [s.position.x, s.position.y, s.position.z, s.velocity.x, s.velocity.y, s.velocity.z] }
fn expect(got: [f64; 6], want: [f64; 6], what: &str) { for k in 0..6 { assert!((got[k] - want[k]).abs() < if k < 3 { 1e-5 } else { 1e-8 }, "{}: {:?} instead of {:?}", what, got, want); } }
fn near(got: f64, want: f64, tol: f64, what: &str) { assert!((got - want).abs() <= tol, "{}: {} instead of {}", what, got, want); }
'''
P='src/propogation/'
SEEDS={}
def add(i,p,edits,needs,breaks,demo): SEEDS[i]=dict(property=p,edits=edits,needs=needs,breaks=breaks,demo=HEAD+demo)
KEYS=[]
def TRACKS(*items):
    """demo comparing with states of the unchanged tree, kept in tracks.json (seed.py fill)"""
    import json,os
    f='/verif/tools/tracks.json'
    c=json.load(open(f)) if os.path.exists(f) else {}
    out='fn main() {\n'
    for l1,l2,times in items:
        out+='    let mut r = sat("%s", "%s");\n'%(l1,l2)
        for t in times:
            k=f'{l1}|{l2}|{t!r}'; KEYS.append((l1,l2,t,k))
            out+='    expect(at(&mut r, %r), %s, "%r min");\n'%(t,c.get(k,'[0.0; 6]'),t)
    return out+'}\n'
def TRACK(l1,l2,times): return TRACKS((l1,l2,times))
def ck(s): return s+str(sum(int(c) if c.isdigit() else (c=='-') for c in s[:68])%10)
def tle(inc,node,e,argp,m,n,b=' 28282-4',ep='19085.50000000'):
    return (ck('1 25544U 98067A   %s  .00001292  00000-0 %s 0  999'%(ep,b)),ck('2 25544 %8.4f %8.4f %07d %8.4f %8.4f %11.8f16246'%(inc,node,round(e*1e7),argp,m,n)))

L=tle(51.6446,50.5941,0.0005,117.0184,328.1109,15.52438493,' 28282-3')
add('near-circular-drag','C01',[(P+'sgp4init.rs','''        cc3 = 0.0;
        if satrec.ecco > 1.0e-4 {''','''        cc3 = 0.0;
        if satrec.ecco > 1.0e-3 {''')],'eccentricity between 1e-4 and 1e-3 and a drag term','argument-of-perigee drag coefficient (omgcof) dropped for eccentricities for which the published model keeps it',TRACK(*L,[1440.0,2880.0]))
L=tle(63.4,50.5941,0.0040,117.0184,328.1109,16.3610,' 10000-3')
add('perigee-98-km','C01',[(P+'sgp4init.rs','            if perige < 98.0 {\n                sfour = 20.0;\n            }\n\n            // sgp4fix use multiply for speed instead of pow\n            let qzms24temp = (120.0 - sfour) / EARTH_RADIUS;\n','            // sgp4fix use multiply for speed instead of pow\n            let qzms24temp = (120.0 - sfour) / EARTH_RADIUS;\n            if perige < 98.0 {\n                sfour = 20.0;\n            }\n')],'perigee below 98 km','atmosphere density parameter q0-s computed from the altitude before it is limited to 20 km',TRACK(*tle(63.4,50.5941,0.0160,117.0184,328.1109,16.29,' 10000-4'),[30.0,90.0,300.0]))
L=tle(3.0,359.95,0.02,27.1998,10.4117,4.2,' 14311-3')
add('lyddane-node-seam','C02',[(P+'dpper.rs','''                if nodep < xnoh {
                    nodep += TWO_PI;
                } else {
                    nodep -= TWO_PI;
                }''','''                if nodep < xnoh {
                    nodep += TWO_PI;
                }''')],'inclination below 0.2 rad, and a node that has regressed below -180 degrees','the node is not brought back to the branch of the unperturbed one, so perigee and anomaly jump',TRACK(*tle(9.0,1.0,0.02,27.1998,10.4117,4.2,' 00000-0'),[30000.0]+[5e5+5e4*k for k in range(12)]))
add('lyddane-switch','C02',[(P+'dpper.rs','        if inclp >= 0.2 {','        if options.inclo >= 0.2 {')],'an inclination within the size of the periodics of 0.2 rad, so that the perturbed and unperturbed inclinations lie on different sides of the switch','the switch to the modified (Lyddane) formulas looks at the epoch inclination instead of the perturbed one',
TRACKS(*[tle(11.455+0.001*i,230.4354,0.0731803,47.4722,10.4117,2.28537848,' 14311-3')+([5000.0,90000.0,250000.0],) for i in range(6)]))
L=tle(64.0586,281.6931,0.6877146,300.0,60.0,2.00491383,' 10000-3')
add('half-day-perigee','C03',[(P+'dspace.rs','xomi = argpo + (argpdot * atime);','xomi = argpo + (argpdot * t);')],'a half-day resonant orbit and a time that is far from the integrator\'s current step','the resonance terms use the argument of perigee at the requested time in every step instead of that at the step',TRACK(*L,[-20000.0,14400.0,43200.0]))
L=tle(64.0586,281.6931,0.7077146,300.0,60.0,2.00491383,' 10000-3')
add('half-day-table','C03',[(P+'dsinit.rs','            if em < 0.7 {','            if em < 0.715 {')],'a half-day resonant orbit with eccentricity between 0.7 and 0.715','the wrong segment of the eccentricity functions g533, g521, g532 is used',TRACK(*L,[1440.0,14400.0]))
add('silent-perturbed-eccentricity','C04',[(P+'sgp4.rs','            satrec.error = 3;\n','            satrec.error = 1;\n')],'lunar-solar periodics that push the eccentricity of a deep-space orbit below zero, long after epoch','the record\'s error field names another condition than the returned error','''fn main() {
    let mut seen = 0;
    for k in 0..200 {
        let l2 = format!("2 25544  63.4349 {:8.4} 0100000 200.0000 180.0000  0.70270000162460", 1.8 * k as f64);
        if let Ok(mut r) = twoline2satrec("1 25544U 98067A   19085.50000000  .00001292  00000-0  00000-0 0  9999", &l2) {
            for t in 0..2000 {
                if let Err(e) = sgp4(&mut r, t as f64 * 14400.0) { seen += 1; assert_eq!(r.error, e.code() as u32, "error field and error differ"); }
            }
        }
    }
    assert!(seen > 0, "never met");
}
''')
add('kepler-six-iterations','C02',[(P+'sgp4.rs','while tem5.abs() >= 1.0e-12 && ktr <= 10 {','while tem5.abs() >= 1.0e-12 && ktr <= 6 {')],'a very eccentric orbit near perigee','the Kepler iteration stops before it has converged',TRACKS(*[tle(63.4349,10.0,e,200.0,355.0,n,' 00000-0')+([0.0,float(int(1440/n*5/360))-10.0,float(int(1440/n*5/360))+20.0],) for e,n in ((0.9,0.45),(0.93,0.27),(0.95,0.15))]))
add('sticky-after-decay','C05',[(P+'sgp4.rs','''        // printf("// decay condition %11.6f \\n",mrt);
        satrec.error = 6;''','''        // printf("// decay condition %11.6f \\n",mrt);
        satrec.error = 6;
        satrec.isimp = 1;''')],'a propagation that fails with decay, followed by a propagation of the same record to a time at which it has not decayed','once a record has answered "decayed" it uses the simplified drag equations for all later calls','''fn main() {
    let (a, b) = ("1 25544U 98067A   19085.50000000  .00001292  00000-0  99999-2 0  9999", "2 25544  51.6446  50.5941 0003000 117.0184 328.1109 16.00000000162460");
    let mut fresh = sat(a, b);
    let want = at(&mut fresh, 300.0);
    let mut r = sat(a, b);
    let mut failed = false;
    for d in 1..200 { if let Err(e) = sgp4(&mut r, d as f64 * 1440.0) { if e.code() == 6 { failed = true; break; } } }
    assert!(failed);
    expect(at(&mut r, 300.0), want, "after a decay answer");
}
''')
add('resume-towards-epoch','C05',[(P+'sgp4.rs','''        let dspace_result = crate::propogation::dspace::dspace(dspace_options);
''','''        let dspace_result = crate::propogation::dspace::dspace(dspace_options);
        satrec.atime = dspace_result.atime;
        satrec.xli = dspace_result.xli;
        satrec.xni = dspace_result.xni;
'''),(P+'dspace.rs','atime == 0.0 || t * atime <= 0.0 || t.abs() < atime.abs()','atime == 0.0 || t * atime < 0.0 || t.abs() < atime.abs() - 0.5 * STEPP')],'a resonant record propagated to one time and then to one slightly nearer to epoch','integrator state is kept in the record, and a request slightly nearer to epoch does not restart it','''fn main() {
    let (a, b) = ("1 25544U 98067A   19085.50000000  .00001292  00000-0  10000-3 0  9999", "2 25544  64.0586 281.6931 6877146 300.0000  60.0000  2.00491383162460");
    let mut fresh = sat(a, b);
    let want = at(&mut fresh, 43100.0);
    let mut r = sat(a, b);
    at(&mut r, 43200.0);
    expect(at(&mut r, 43100.0), want, "a little earlier");
    at(&mut r, -43200.0); at(&mut r, 43200.0);
    expect(at(&mut r, 43100.0), want, "after both directions");
}
''')
add('number-cache','C05',[(P+'mod.rs','''  let mut rec = satrec.clone();
  return sgp4(&mut rec, m);''','''  // initialised records are immutable: keep the working copy of the last one
  LAST.with(|l| {
    let mut l = l.borrow_mut();
    if l.as_ref().map(|r| r.satnum != satrec.satnum || r.jdsatepoch != satrec.jdsatepoch).unwrap_or(true) {
      *l = Some(satrec.clone());
    }
    sgp4(l.as_mut().unwrap(), m)
  })'''),(P+'mod.rs','/// Propogate changes','thread_local! {\n  static LAST: std::cell::RefCell<Option<Satrec>> = std::cell::RefCell::new(None);\n}\n\n/// Propogate changes')],'two records with the same catalogue number and epoch but different elements, propagated by date-time one after the other','the answer for the second record is the first one\'s','''fn main() {
    let a = sat("1 25544U 98067A   19085.50000000  .00001292  00000-0  10000-3 0  9999", "2 25544  64.0586 281.6931 6877146 300.0000  60.0000  2.00491383162460");
    let b = sat("1 25544U 98067A   19085.50000000  .00001292  00000-0  10000-3 0  9999", "2 25544  64.0586 281.6931 6877146 300.0000  61.0000  2.00491383162460");
    let w = Utc.timestamp_opt(1553690096, 0).unwrap();
    let x = propogate_datetime(&a, w).unwrap();
    let y = propogate_datetime(&b, w).unwrap();
    assert!((x.position.x - y.position.x).abs() + (x.position.y - y.position.y).abs() > 1.0, "two different orbits, one answer");
}
''')
