//! Shared pieces of the checks: conformance comparison between the reference model and the crate.
use crate::engine::*;
use crate::refsgp4::*;
use crate::tle::*;
use satellite::io::{Satrec, SatrecParseError};
use satellite::propogation::sgp4::{SGP4Error, SGP4Result};

pub type ImplOut = Result<SGP4Result, SGP4Error>;

pub fn st(r: &SGP4Result) -> State {
    State { r: [r.position.x, r.position.y, r.position.z], v: [r.velocity.x, r.velocity.y, r.velocity.z] }
}
pub fn simplify(o: &ImplOut) -> Out {
    match o {
        Ok(r) => Ok(st(r)),
        Err(e) => Err(e.code()),
    }
}
pub fn dist(a: &[f64; 3], b: &[f64; 3]) -> f64 {
    let mut s = 0.0;
    for k in 0..3 {
        s += (a[k] - b[k]) * (a[k] - b[k]);
    }
    s.sqrt()
}
pub fn norm(a: &[f64; 3]) -> f64 {
    dist(a, &[0.0; 3])
}

/// Base tolerances (km, km/s); they sit well above the rounding differences measured between two
/// differently arranged evaluations of the model and far below any modelled effect.
pub fn base_tol(t: f64, r: f64) -> (f64, f64) {
    let k = 1.0 + t.abs() / 1.0e5;
    (2.0e-7 * k * (1.0 + r / 20000.0), 2.0e-10 * k)
}

/// largest fraction of the base tolerance used (1e-9 units), and number of points that needed the envelope
pub static MARGIN: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
pub static ENVELOPE: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

/// Values at which the model switches by comparing the element itself: no arithmetic lies between
/// the element and the comparison, so rounding cannot excuse the other side.
const ECC_EDGES: [f64; 5] = [1.0e-4, 0.5, 0.65, 0.7, 0.715];
const INCL_EDGES: [f64; 2] = [5.2359877e-2, std::f64::consts::PI - 5.2359877e-2];
fn nudge(x: f64, rel: f64, edges: &[f64]) -> f64 {
    let y = x * (1.0 + rel);
    if edges.iter().any(|&c| (x < c) != (y < c) || (x > c) != (y > c)) { x } else { y }
}

/// The reference evaluated on inputs a few units in the last place away, and with other roundings
/// of its intermediate values: what no arrangement of the same arithmetic can be blamed for.
pub fn envelope(sat: &Sat, t: f64) -> impl Iterator<Item = Out> + '_ {
    let inputs = (0..18).map(move |k| {
        let s = if k % 2 == 0 { 1.0 } else { -1.0 };
        let mut el = sat.el;
        let mut tt = t;
        let rel = 3.0e-15 * s;
        match k / 2 {
            0 => tt = t * (1.0 + rel),
            1 => el.m = el.m * (1.0 + rel) + 1e-15 * s,
            2 => el.argp = el.argp * (1.0 + rel) + 1e-15 * s,
            3 => el.node = el.node * (1.0 + rel) + 1e-15 * s,
            4 => el.n_kozai *= 1.0 + rel,
            5 => el.bstar *= 1.0 + rel,
            6 => el.incl = nudge(el.incl, rel, &INCL_EDGES),
            7 => el.e = nudge(el.e, rel, &ECC_EDGES),
            _ => el.epoch50 += 2.4e-10 * s,
        }
        Sat::new(sat.g, el, sat.afspc).prop(tt)
    });
    inputs.chain((1..=16).map(move |k| with_roundings(k, || Sat::new(sat.g, sat.el, sat.afspc).prop(t))))
}

/// Rounding moves the answer by more than 10 km, or between different errors, or across three or
/// more different outcomes.
pub fn chaotic(outs: &[Out]) -> bool {
    let oks: Vec<&State> = outs.iter().filter_map(|o| o.as_ref().ok()).collect();
    let mut kinds: Vec<u8> = outs.iter().map(|o| *o.as_ref().err().unwrap_or(&100)).collect();
    kinds.sort_unstable();
    kinds.dedup();
    kinds.len() >= 3 || (kinds.len() == 2 && !kinds.contains(&100)) || oks.iter().any(|a| dist(&a.r, &oks[0].r) > 10.0)
}

/// The resonance integration amplifies rounding until the longitude it arrives at is arbitrary
/// (eccentricities next to 1 over many years): the outcomes may then agree by luck alone.
pub fn integration_chaotic(sat: &Sat, t: f64) -> bool {
    let Some((n, xl)) = sat.resonant_state(t) else { return false };
    (1..=8).any(|k| {
        let (a, b) = with_roundings(k, || Sat::new(sat.g, sat.el, sat.afspc).resonant_state(t)).unwrap_or((f64::NAN, 0.0));
        !((a - n).abs() <= 1.0e-3 * n.abs() && (b - xl).abs() <= 1.0e-2)
    })
}

/// Does the implementation's answer conform to the reference at time t? Exact-threshold and
/// badly conditioned points are decided with the envelope of the reference over inputs that
/// differ by a few units in the last place: rounding alone may move the answer that far, a
/// change of behaviour may not.
pub fn conforms(sat: &Sat, t: f64, got: &Out) -> Result<(), String> {
    let want = sat.prop(t);
    if let (Ok(a), Ok(b)) = (&want, got) {
        let (tr, tv) = base_tol(t, norm(&a.r));
        let q = (dist(&a.r, &b.r) / tr).max(dist(&a.v, &b.v) / tv);
        if q <= 1.0 {
            MARGIN.fetch_max((q * 1e9) as u64, std::sync::atomic::Ordering::Relaxed);
        }
    }
    if close(&want, got, t, 1.0) {
        return Ok(());
    }
    ENVELOPE.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    let mut worst_r = 0.0f64;
    let mut worst_v = 0.0f64;
    let mut codes: Vec<Out> = vec![];
    for o in envelope(sat, t) {
        if close(&o, got, t, 1.0) {
            return Ok(());
        }
        if let (Ok(a), Ok(b)) = (&want, &o) {
            worst_r = worst_r.max(dist(&a.r, &b.r));
            worst_v = worst_v.max(dist(&a.v, &b.v));
        }
        codes.push(o);
    }
    codes.push(want.clone());
    if chaotic(&codes) || integration_chaotic(sat, t) {
        // rounding alone decides the answer: nothing to compare with (soundness is judged elsewhere)
        return Ok(());
    }
    match (&want, got) {
        (Ok(a), Ok(b)) => {
            let (tr, tv) = base_tol(t, norm(&a.r));
            let (tr, tv) = (tr + 20.0 * worst_r, tv + 20.0 * worst_v);
            let (dr, dv) = (dist(&a.r, &b.r), dist(&a.v, &b.v));
            if dr <= tr && dv <= tv {
                return Ok(());
            }
            Err(format!("t={} min: off by {:.3e} km, {:.3e} km/s (allowed {:.1e}, {:.1e}); model {:?} library {:?}", t, dr, dv, tr, tv, a, b))
        }
        (Err(a), Err(b)) if codes.iter().any(|c| matches!(c, Err(x) if x == b)) || a == b => Ok(()),
        (w, g) => {
            if codes.iter().any(|c| match (c, g) {
                (Err(x), Err(y)) => x == y,
                (Ok(_), Ok(_)) => close(c, g, t, 1e3),
                _ => false,
            }) {
                return Ok(());
            }
            Err(format!("t={} min: model says {:?}, library says {:?}", t, w, g))
        }
    }
}
pub fn close(want: &Out, got: &Out, t: f64, k: f64) -> bool {
    match (want, got) {
        (Ok(a), Ok(b)) => {
            let (tr, tv) = base_tol(t, norm(&a.r));
            dist(&a.r, &b.r) <= tr * k && dist(&a.v, &b.v) <= tv * k
        }
        // code 0 = the model leaves its numeric domain; any error report is acceptable
        (Err(0), Err(_)) => true,
        (Err(a), Err(b)) => a == b,
        _ => false,
    }
}

/// Outcome of the library's parse+initialise, in model terms.
pub enum Init {
    Rec(Satrec),
    Refused(u8),
}
pub fn init_lib(l1: &str, l2: &str) -> Result<Init, String> {
    match satellite::io::twoline2satrec(l1, l2) {
        Ok(r) => Ok(Init::Rec(r)),
        Err(SatrecParseError::Sgp4InitError(e)) => Ok(Init::Refused(e.code())),
        Err(e) => Err(format!("well-formed element set rejected: {:?}\n{}\n{}", e, l1, l2)),
    }
}

pub fn classify(sat: &Sat, ctx: &mut Ctx) {
    let el = &sat.el;
    if sat.deep {
        ctx.class(match sat.rez() {
            Rez::None => "deep: no resonance",
            Rez::Day => "deep: 24 h resonance",
            Rez::HalfDay => "deep: 12 h resonance",
        });
        if el.incl < 0.19 {
            ctx.class("deep: low inclination (Lyddane)");
        }
        if el.incl < 5.2359877e-2 || el.incl > std::f64::consts::PI - 5.2359877e-2 {
            ctx.class("deep: within 3 deg of equator");
        }
        if sat.rez() == Rez::HalfDay {
            ctx.class(if el.e <= 0.65 { "12h: e<=0.65" } else if el.e < 0.7 { "12h: 0.65<e<0.7" } else if el.e <= 0.715 { "12h: 0.7<=e<=0.715" } else { "12h: e>0.715" });
        }
    } else {
        ctx.class(if sat.perigee_km < 98.0 { "near: perigee<98" } else if sat.perigee_km < 156.0 { "near: perigee 98-156" } else if sat.perigee_km < 220.0 { "near: perigee 156-220" } else { "near: perigee>=220" });
        if el.e <= 1.0e-4 {
            ctx.class("near: e<=1e-4");
        }
    }
    if el.incl > std::f64::consts::FRAC_PI_2 {
        ctx.class("retrograde");
    }
    if (el.incl.cos() + 1.0).abs() <= 1.5e-12 {
        ctx.class("inclination 180 deg");
    }
}
pub fn out_class(o: &Out) -> &'static str {
    match o {
        Ok(_) => "outcome: state",
        Err(1) => "outcome: error 1 (mean eccentricity)",
        Err(2) => "outcome: error 2 (mean motion)",
        Err(3) => "outcome: error 3 (perturbed eccentricity)",
        Err(4) => "outcome: error 4 (semi-latus rectum)",
        Err(6) => "outcome: error 6 (decay)",
        Err(_) => "outcome: model leaves numeric domain",
    }
}
pub fn hash_out(o: &Out) -> u64 {
    match o {
        Ok(s) => hash((s.r.map(f64::to_bits), s.v.map(f64::to_bits))),
        Err(c) => hash(*c),
    }
}

/// The conformance trace of one element set: parse the text, then propagate to every time.
pub fn conform_trace(tle: &Tle, times: &[f64], ctx: &mut Ctx) -> Check {
    let g = Grav::wgs84();
    let sat = Sat::new(g, tle.elems(), false);
    let (l1, l2) = (tle.line1(), tle.line2());
    conform_trace_lines(&sat, &l1, &l2, times, ctx)
}
pub fn conform_trace_lines(sat: &Sat, l1: &str, l2: &str, times: &[f64], ctx: &mut Ctx) -> Check {
    classify(sat, ctx);
    ctx.step();
    let at0 = sat.prop(0.0);
    let tag = |e: String| format!("{} | {}\n{}", e, l1, l2);
    match init_lib(l1, l2)? {
        Init::Refused(c) => {
            ctx.class("refused at epoch");
            ctx.state((l1, l2));
            ctx.trace();
            conforms(sat, 0.0, &Err(c)).map_err(|e| tag(format!("at initialisation: {}", e)))
        }
        Init::Rec(mut rec) => {
            if let Err(c) = at0 {
                if c != 0 {
                    conforms(sat, 0.0, &simplify(&satellite::propogation::sgp4::sgp4(&mut rec, 0.0))).map_err(|e| tag(format!("accepted at epoch although the model refuses it: {}", e)))?;
                }
            }
            for &t in times {
                ctx.step();
                let got = simplify(&satellite::propogation::sgp4::sgp4(&mut rec, t));
                ctx.state((l1, l2, t.to_bits()));
                ctx.outcome(hash_out(&got));
                ctx.class(out_class(&got));
                conforms(sat, t, &got).map_err(tag)?;
            }
            ctx.sample(|| format!("{} / {} at {:?} min", l1, l2, times));
            ctx.trace();
            Ok(())
        }
    }
}

/// Compares every field of two records; returns the name of the first differing one.
macro_rules! satrec_f64_fields {
    ($m:ident) => {
        $m!(epochdays, ndot, nddot, bstar, inclo, nodeo, ecco, mo, no, a, argpo, alta, altp, jdsatepoch,
            aycof, con41, cc1, cc4, cc5, d2, d3, d4, delmo, eta, argpdot, omgcof, sinmao, t, t2cof, t3cof, t4cof, t5cof,
            x1mth2, x7thm1, mdot, nodedot, xlcof, xmcof, nodecf,
            irez, d2201, d2211, d3210, d3222, d4410, d4422, d5220, d5232, d5421, d5433, dedt, del1, del2, del3, didt, dmdt,
            dnodt, domdt, e3, ee2, peo, pgho, pho, pinco, plo, se2, se3, sgh2, sgh3, sgh4, sh2, sh3, si2, si3, sl2, sl3, sl4,
            gsto, xfact, xgh2, xgh3, xgh4, xh2, xh3, xi2, xi3, xl2, xl3, xl4, xlamo, zmol, zmos, atime, xli, xni)
    };
}
pub fn rec_fields(r: &Satrec) -> Vec<(&'static str, f64)> {
    macro_rules! list { ($($f:ident),*) => { vec![$((stringify!($f), r.$f)),*] } }
    satrec_f64_fields!(list)
}
pub fn rec_hash(r: &Satrec) -> u64 {
    let f: Vec<u64> = rec_fields(r).iter().map(|x| bits(x.1)).collect();
    hash((f, r.error, r.isimp, r.satnum.clone(), r.name.clone(), r.epochyr,
          r.method == satellite::propogation::initl::InitlMethod::D,
          r.init == satellite::propogation::dpper::DpperInit::Y))
}
/// fields in `skip` are not compared
pub fn rec_diff(a: &Satrec, b: &Satrec, rel: f64, skip: &[&str]) -> Option<String> {
    for ((n, x), (_, y)) in rec_fields(a).iter().zip(rec_fields(b).iter()) {
        if skip.contains(n) {
            continue;
        }
        let same = x.to_bits() == y.to_bits() || x == y || (x - y).abs() <= rel * x.abs().max(y.abs());
        if !same {
            return Some(format!("{}: {:e} vs {:e}", n, x, y));
        }
    }
    if a.isimp != b.isimp && !skip.contains(&"isimp") {
        return Some("isimp".into());
    }
    if a.method != b.method {
        return Some("method".into());
    }
    if a.error != b.error && !skip.contains(&"error") {
        return Some(format!("error: {} vs {}", a.error, b.error));
    }
    if a.satnum != b.satnum && !skip.contains(&"satnum") {
        return Some(format!("satnum: {} vs {}", a.satnum, b.satnum));
    }
    if a.epochyr != b.epochyr && !skip.contains(&"epochyr") {
        return Some("epochyr".into());
    }
    if a.name != b.name && !skip.contains(&"name") {
        return Some(format!("name: {:?} vs {:?}", a.name, b.name));
    }
    None
}
/// identity, epoch and epoch elements: what propagation must never touch
pub fn identity(r: &Satrec) -> (Option<String>, String, i64, Vec<u64>) {
    (r.name.clone(), r.satnum.clone(), r.epochyr,
     [r.epochdays, r.jdsatepoch, r.ndot, r.nddot, r.bstar, r.inclo, r.nodeo, r.ecco, r.argpo, r.mo, r.no, r.a, r.alta, r.altp]
        .iter().map(|x| x.to_bits()).collect())
}
