//! Reference model: an independent transcription of the published SGP4/SDP4 theory
//! (Vallado, Crawford, Hujsak, Kelso, "Revisiting Spacetrack Report #3", 2006).
//! It never calls the code under test. It is organised differently from the crate
//! (pure functions on immutable values; the resonance integrator is always run from
//! epoch; no mutable per-call state), and it is itself validated against published
//! verification vectors in `selftest.rs` (WGS-72, the constants those vectors use).

use std::f64::consts::PI;
pub const TAU: f64 = 2.0 * PI;

#[derive(Clone, Copy, Debug)]
pub struct Grav {
    pub re: f64,
    pub xke: f64,
    pub j2: f64,
    pub j3: f64,
    pub j4: f64,
}
impl Grav {
    pub fn wgs84() -> Grav {
        let (re, mu) = (6378.137f64, 398600.5f64);
        Grav { re, xke: 60.0 / (re * re * re / mu).sqrt(), j2: 0.00108262998905, j3: -0.00000253215306, j4: -0.00000161098761 }
    }
    pub fn wgs72() -> Grav {
        let (re, mu) = (6378.135f64, 398600.8f64);
        Grav { re, xke: 60.0 / (re * re * re / mu).sqrt(), j2: 0.001082616, j3: -0.00000253881, j4: -0.00000165597 }
    }
}

/// Epoch elements, radians and radians/minute (Kozai mean motion).
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Elems {
    /// days since 1950 Jan 0.0
    pub epoch50: f64,
    pub bstar: f64,
    pub e: f64,
    pub argp: f64,
    pub incl: f64,
    pub m: f64,
    pub n_kozai: f64,
    pub node: f64,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct State {
    pub r: [f64; 3],
    pub v: [f64; 3],
}

/// Documented error codes: 1, 2, 3, 4, 6. 0 is used for "model left its domain with a
/// non-finite value" (the published code has no number for that).
pub type Out = Result<State, u8>;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Rez {
    None,
    Day,
    HalfDay,
}

/// One perturbing body's coefficient family (sun or moon).
#[derive(Clone, Copy, Debug, Default)]
struct Body {
    s1: f64, s2: f64, s3: f64, s4: f64, s5: f64, s6: f64, s7: f64,
    z1: f64, z2: f64, z3: f64,
    z11: f64, z12: f64, z13: f64,
    z21: f64, z22: f64, z23: f64,
    z31: f64, z32: f64, z33: f64,
    /// body's eccentricity
    ze: f64,
    /// body's mean anomaly at epoch, and its rate
    zm0: f64,
    zn: f64,
}

#[derive(Clone, Copy, Debug)]
struct Deep {
    sun: Body,
    moon: Body,
    dedt: f64, didt: f64, dmdt: f64, dnodt: f64, domdt: f64,
    rez: Rez,
    /// half-day coefficients: d2201 d2211 d3210 d3222 d4410 d4422 d5220 d5232 d5421 d5433
    d: [f64; 10],
    del: [f64; 3],
    xlamo: f64,
    xfact: f64,
}

#[derive(Clone, Debug)]
pub struct Sat {
    pub g: Grav,
    pub afspc: bool,
    pub el: Elems,
    /// un-Kozai'd mean motion, semimajor axis
    pub no: f64,
    pub ao: f64,
    pub gsto: f64,
    pub deep: bool,
    pub simple: bool,
    pub perigee_km: f64,
    con41: f64,
    x1mth2: f64,
    x7thm1: f64,
    cc1: f64, cc4: f64, cc5: f64,
    d2: f64, d3: f64, d4: f64,
    t2: f64, t3: f64, t4: f64, t5: f64,
    eta: f64, delmo: f64, sinmao: f64,
    mdot: f64, argpdot: f64, nodedot: f64,
    omgcof: f64, xmcof: f64, nodecf: f64,
    aycof: f64, xlcof: f64,
    ds: Option<Deep>,
}

pub fn gmst82(jd: f64) -> f64 {
    let t = (jd - 2451545.0) / 36525.0;
    // seconds of time, Horner form
    let s = 67310.54841 + t * ((876600.0 * 3600.0 + 8640184.812866) + t * (0.093104 - 6.2e-6 * t));
    let a = (s * (PI / 180.0) / 240.0) % TAU;
    if a < 0.0 { a + TAU } else { a }
}

fn gst_afspc(epoch50: f64) -> f64 {
    let ts70 = epoch50 - 7305.0;
    let ds70 = (ts70 + 1.0e-8).floor();
    let tfrac = ts70 - ds70;
    let c1 = 1.72027916940703639e-2;
    let a = (1.7321343856509374 + c1 * ds70 + (c1 + TAU) * tfrac + ts70 * ts70 * 5.07551419432269442e-15) % TAU;
    if a < 0.0 { a + TAU } else { a }
}

const ZNS: f64 = 1.19459e-5;
const ZNL: f64 = 1.5835218e-4;
const ZES: f64 = 0.01675;
const ZEL: f64 = 0.05490;
const RPTIM: f64 = 4.37526908801129966e-3;

thread_local! { static NOISE: std::cell::Cell<u64> = const { std::cell::Cell::new(0) }; }
/// With noise off (the default) the identity. With noise on, moves the value by -1, 0 or +1 unit of
/// rounding in a fixed pseudo-random order: the same model "evaluated with other roundings".
#[inline]
fn rnd(x: f64) -> f64 {
    let s = NOISE.with(|c| c.get());
    if s == 0 {
        return x;
    }
    let s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407) | 1;
    NOISE.with(|c| c.set(s));
    x * (1.0 + ((s >> 33) % 3) as f64 * f64::EPSILON - f64::EPSILON)
}
/// Runs f with the k-th (k > 0) pattern of roundings.
pub fn with_roundings<T>(k: u64, f: impl FnOnce() -> T) -> T {
    NOISE.with(|c| c.set(k.wrapping_mul(0x9e3779b97f4a7c15) | 1));
    let r = f();
    NOISE.with(|c| c.set(0));
    r
}

/// Direction of a body: (cos g, sin g, cos i, sin i, cos h, sin h)
fn body(dir: [f64; 6], cc: f64, no: f64, e: f64, inc: f64, argp: f64) -> Body {
    let [cg, sg, ci, si, ch, sh] = dir;
    let (sinim, cosim) = (inc.sin(), inc.cos());
    let (sino, coso) = (argp.sin(), argp.cos());
    let e2 = rnd(e * e);
    let b2 = rnd(1.0 - e2);
    let a1 = rnd(cg * ch + sg * ci * sh);
    let a3 = rnd(-sg * ch + cg * ci * sh);
    let a7 = rnd(-cg * sh + sg * ci * ch);
    let a8 = rnd(sg * si);
    let a9 = rnd(sg * sh + cg * ci * ch);
    let a10 = rnd(cg * si);
    let a2 = rnd(cosim * a7 + sinim * a8);
    let a4 = rnd(cosim * a9 + sinim * a10);
    let a5 = rnd(-sinim * a7 + cosim * a8);
    let a6 = rnd(-sinim * a9 + cosim * a10);
    let x1 = rnd(a1 * coso + a2 * sino);
    let x2 = rnd(a3 * coso + a4 * sino);
    let x3 = rnd(-a1 * sino + a2 * coso);
    let x4 = rnd(-a3 * sino + a4 * coso);
    let x5 = rnd(a5 * sino);
    let x6 = rnd(a6 * sino);
    let x7 = rnd(a5 * coso);
    let x8 = rnd(a6 * coso);
    let z31 = rnd(12.0 * x1 * x1 - 3.0 * x3 * x3);
    let z32 = rnd(24.0 * x1 * x2 - 6.0 * x3 * x4);
    let z33 = rnd(12.0 * x2 * x2 - 3.0 * x4 * x4);
    let z1 = rnd(3.0 * (a1 * a1 + a2 * a2) + z31 * e2);
    let z2 = rnd(6.0 * (a1 * a3 + a2 * a4) + z32 * e2);
    let z3 = rnd(3.0 * (a3 * a3 + a4 * a4) + z33 * e2);
    let s3 = rnd(cc / no);
    let rb = rnd(b2.sqrt());
    Body {
        s3,
        s2: rnd(-0.5 * s3 / rb),
        s4: rnd(s3 * rb),
        s1: rnd(-15.0 * e * (s3 * rb)),
        s5: rnd(x1 * x3 + x2 * x4),
        s6: rnd(x2 * x3 + x1 * x4),
        s7: rnd(x2 * x4 - x1 * x3),
        z1: rnd(2.0 * z1 + b2 * z31),
        z2: rnd(2.0 * z2 + b2 * z32),
        z3: rnd(2.0 * z3 + b2 * z33),
        z11: rnd(-6.0 * a1 * a5 + e2 * (-24.0 * x1 * x7 - 6.0 * x3 * x5)),
        z12: rnd(-6.0 * (a1 * a6 + a3 * a5) + e2 * (-24.0 * (x2 * x7 + x1 * x8) - 6.0 * (x3 * x6 + x4 * x5))),
        z13: rnd(-6.0 * a3 * a6 + e2 * (-24.0 * x2 * x8 - 6.0 * x4 * x6)),
        z21: rnd(6.0 * a2 * a5 + e2 * (24.0 * x1 * x5 - 6.0 * x3 * x7)),
        z22: rnd(6.0 * (a4 * a5 + a2 * a6) + e2 * (24.0 * (x2 * x5 + x1 * x6) - 6.0 * (x4 * x7 + x3 * x8))),
        z23: rnd(6.0 * a4 * a6 + e2 * (24.0 * x2 * x6 - 6.0 * x4 * x8)),
        z31, z32, z33,
        ..Default::default()
    }
}

fn deep_init(s: &Sat) -> Deep {
    let el = &s.el;
    let (no, e, inc) = (s.no, el.e, el.incl);
    let (sn, cn) = (el.node.sin(), el.node.cos());
    // position of the moon's orbit
    let day = rnd(el.epoch50 + 18261.5);
    let xnodce = rnd((4.5236020 - 9.2422029e-4 * day) % TAU);
    let (stem, ctem) = (xnodce.sin(), xnodce.cos());
    let zcosil = rnd(0.91375164 - 0.03568096 * ctem);
    let zsinil = rnd((1.0 - zcosil * zcosil).sqrt());
    let zsinhl = rnd(0.089683511 * stem / zsinil);
    let zcoshl = rnd((1.0 - zsinhl * zsinhl).sqrt());
    let gam = rnd(5.8351514 + 0.0019443680 * day);
    let zx0 = rnd(0.39785416 * stem / zsinil);
    let zy = rnd(zcoshl * ctem + 0.91744867 * zsinhl * stem);
    let zx = rnd(zx0.atan2(zy) + gam - xnodce);

    let mut sun = body([0.1945905, -0.98088458, 0.91744867, 0.39785416, cn, sn], 2.9864797e-6, no, e, inc, el.argp);
    sun.ze = ZES;
    sun.zn = ZNS;
    sun.zm0 = (6.2565837 + 0.017201977 * day) % TAU;
    let mut moon = body(
        [zx.cos(), zx.sin(), zcosil, zsinil, zcoshl * cn + zsinhl * sn, sn * zcoshl - cn * zsinhl],
        4.7968065e-7, no, e, inc, el.argp,
    );
    moon.ze = ZEL;
    moon.zn = ZNL;
    moon.zm0 = (4.7199672 + 0.22997150 * day - gam) % TAU;

    // secular rates, sun + moon
    let e2 = rnd(e * e);
    let (sinim, cosim) = (inc.sin(), inc.cos());
    let flat = inc < 5.2359877e-2 || inc > PI - 5.2359877e-2;
    let sh_of = |b: &Body| if flat { 0.0 } else { -b.zn * b.s2 * (b.z21 + b.z23) };
    let gh_of = |b: &Body| b.s4 * b.zn * (b.z31 + b.z33 - 6.0);
    let mut shs = sh_of(&sun);
    if sinim != 0.0 {
        shs /= sinim;
    }
    let shm = sh_of(&moon);
    let mut domdt = rnd(gh_of(&sun) - cosim * shs + gh_of(&moon));
    let mut dnodt = shs;
    if sinim != 0.0 {
        domdt -= cosim / sinim * shm;
        dnodt += shm / sinim;
    }
    let dedt = rnd(sun.s1 * sun.zn * sun.s5 + moon.s1 * moon.zn * moon.s5);
    let didt = rnd(sun.s2 * sun.zn * (sun.z11 + sun.z13) + moon.s2 * moon.zn * (moon.z11 + moon.z13));
    let m_of = |b: &Body| -b.zn * b.s3 * (b.z1 + b.z3 - 14.0 - 6.0 * e2);
    let dmdt = rnd(m_of(&sun) + m_of(&moon));

    let mut rez = Rez::None;
    if no < 0.0052359877 && no > 0.0034906585 {
        rez = Rez::Day;
    }
    if no >= 8.26e-3 && no <= 9.24e-3 && e >= 0.5 {
        rez = Rez::HalfDay;
    }
    let mut dd = Deep {
        sun, moon, dedt, didt, dmdt, dnodt, domdt, rez,
        d: [0.0; 10], del: [0.0; 3], xlamo: 0.0, xfact: 0.0,
    };
    let theta = rnd(s.gsto % TAU);
    let aonv = rnd((no / s.g.xke).powf(2.0 / 3.0));
    match rez {
        Rez::None => {}
        Rez::HalfDay => {
            let poly = |c: [f64; 4]| c[0] + e * (c[1] + e * (c[2] + e * c[3]));
            let c2 = rnd(cosim * cosim);
            let g201 = rnd(-0.306 - (e - 0.64) * 0.440);
            let lo = e <= 0.65;
            let pick = |a: [f64; 4], b: [f64; 4]| poly(if lo { a } else { b });
            let g211 = rnd(pick([3.616, -13.2470, 16.2900, 0.0], [-72.099, 331.819, -508.738, 266.724]));
            let g310 = rnd(pick([-19.302, 117.3900, -228.4190, 156.5910], [-346.844, 1582.851, -2415.925, 1246.113]));
            let g322 = rnd(pick([-18.9068, 109.7927, -214.6334, 146.5816], [-342.585, 1554.908, -2366.899, 1215.972]));
            let g410 = rnd(pick([-41.122, 242.6940, -471.0940, 313.9530], [-1052.797, 4758.686, -7193.992, 3651.957]));
            let g422 = rnd(pick([-146.407, 841.8800, -1629.014, 1083.4350], [-3581.690, 16178.110, -24462.770, 12422.520]));
            let g520 = if lo {
                poly([-532.114, 3017.977, -5740.032, 3708.2760])
            } else if e > 0.715 {
                poly([-5149.66, 29936.92, -54087.36, 31324.56])
            } else {
                poly([1464.74, -4664.75, 3763.64, 0.0])
            };
            let (g533, g521, g532) = if e < 0.7 {
                (
                    poly([-919.22770, 4988.6100, -9064.7700, 5542.21]),
                    poly([-822.71072, 4568.6173, -8491.4146, 5337.524]),
                    poly([-853.66600, 4690.2500, -8624.7700, 5341.4]),
                )
            } else {
                (
                    poly([-37995.780, 161616.52, -229838.20, 109377.94]),
                    poly([-51752.104, 218913.95, -309468.16, 146349.42]),
                    poly([-40023.880, 170470.89, -242699.48, 115605.82]),
                )
            };
            let s2 = rnd(sinim * sinim);
            let f220 = rnd(0.75 * (1.0 + 2.0 * cosim + c2));
            let f221 = rnd(1.5 * s2);
            let f321 = rnd(1.875 * sinim * (1.0 - 2.0 * cosim - 3.0 * c2));
            let f322 = rnd(-1.875 * sinim * (1.0 + 2.0 * cosim - 3.0 * c2));
            let f441 = rnd(35.0 * s2 * f220);
            let f442 = rnd(39.3750 * s2 * s2);
            let f522 = rnd(9.84375 * sinim
                * (s2 * (1.0 - 2.0 * cosim - 5.0 * c2) + 0.33333333 * (-2.0 + 4.0 * cosim + 6.0 * c2)));
            let f523 = rnd(sinim
                * (4.92187512 * s2 * (-2.0 - 4.0 * cosim + 10.0 * c2) + 6.56250012 * (1.0 + 2.0 * cosim - 3.0 * c2)));
            let f542 = rnd(29.53125 * sinim * (2.0 - 8.0 * cosim + c2 * (-12.0 + 8.0 * cosim + 10.0 * c2)));
            let f543 = rnd(29.53125 * sinim * (-2.0 - 8.0 * cosim + c2 * (12.0 + 8.0 * cosim - 10.0 * c2)));
            let k2 = rnd(3.0 * no * no * aonv * aonv);
            let k3 = rnd(k2 * aonv);
            let k4 = rnd(k3 * aonv);
            let k5 = rnd(k4 * aonv);
            dd.d = [
                k2 * 1.7891679e-6 * f220 * g201,
                k2 * 1.7891679e-6 * f221 * g211,
                k3 * 3.7393792e-7 * f321 * g310,
                k3 * 3.7393792e-7 * f322 * g322,
                2.0 * k4 * 7.3636953e-9 * f441 * g410,
                2.0 * k4 * 7.3636953e-9 * f442 * g422,
                k5 * 1.1428639e-7 * f522 * g520,
                k5 * 1.1428639e-7 * f523 * g532,
                2.0 * k5 * 2.1765803e-9 * f542 * g521,
                2.0 * k5 * 2.1765803e-9 * f543 * g533,
            ];
            dd.xlamo = (el.m + 2.0 * el.node - 2.0 * theta) % TAU;
            dd.xfact = s.mdot + dmdt + 2.0 * (s.nodedot + dnodt - RPTIM) - no;
        }
        Rez::Day => {
            let g200 = rnd(1.0 + e2 * (-2.5 + 0.8125 * e2));
            let g310 = rnd(1.0 + 2.0 * e2);
            let g300 = rnd(1.0 + e2 * (-6.0 + 6.60937 * e2));
            let cp = rnd(1.0 + cosim);
            let f220 = rnd(0.75 * cp * cp);
            let f311 = rnd(0.9375 * sinim * sinim * (1.0 + 3.0 * cosim) - 0.75 * cp);
            let f330 = rnd(1.875 * cp * cp * cp);
            let k = rnd(3.0 * no * no * aonv * aonv);
            dd.del = [
                k * f311 * g310 * 2.1460748e-6 * aonv,
                2.0 * k * f220 * g200 * 1.7891679e-6,
                3.0 * k * f330 * g300 * 2.2123015e-7 * aonv,
            ];
            dd.xlamo = (el.m + el.node + el.argp - theta) % TAU;
            dd.xfact = s.mdot + (s.argpdot + s.nodedot) + dmdt + domdt + dnodt - no - RPTIM;
        }
    }
    dd
}

impl Sat {
    pub fn new(g: Grav, el: Elems, afspc: bool) -> Sat {
        let (j2, j4) = (g.j2, g.j4);
        let e = el.e;
        let x2o3 = rnd(2.0 / 3.0);
        let e2 = rnd(e * e);
        let omeosq = rnd(1.0 - e2);
        let beta = rnd(omeosq.sqrt());
        let c = rnd(el.incl.cos());
        let si = rnd(el.incl.sin());
        let c2 = rnd(c * c);
        let c4 = rnd(c2 * c2);
        // un-Kozai
        let a1 = rnd((g.xke / el.n_kozai).powf(x2o3));
        let d1 = rnd(0.75 * j2 * (3.0 * c2 - 1.0) / (beta * omeosq));
        let del1 = rnd(d1 / (a1 * a1));
        let a_ = rnd(a1 * (1.0 - del1 * del1 - del1 * (1.0 / 3.0 + 134.0 * del1 * del1 / 81.0)));
        let no = rnd(el.n_kozai / (1.0 + d1 / (a_ * a_)));
        let ao = rnd((g.xke / no).powf(x2o3));
        let con42 = rnd(1.0 - 5.0 * c2);
        let con41 = rnd(-con42 - c2 - c2);
        let x1mth2 = rnd(1.0 - c2);
        let x7thm1 = rnd(7.0 * c2 - 1.0);
        let rp = rnd(ao * (1.0 - e));
        let posq = rnd((ao * omeosq) * (ao * omeosq));
        let gsto = if afspc { gst_afspc(el.epoch50) } else { gmst82(el.epoch50 + 2433281.5) };
        let perigee_km = rnd((rp - 1.0) * g.re);
        let mut simple = rp < 220.0 / g.re + 1.0;
        // drag
        let (s4, q) = {
            let s_km = if perigee_km < 98.0 {
                20.0
            } else if perigee_km < 156.0 {
                perigee_km - 78.0
            } else {
                78.0
            };
            (s_km / g.re + 1.0, ((120.0 - s_km) / g.re).powi(4))
        };
        let pinvsq = rnd(1.0 / posq);
        let tsi = rnd(1.0 / (ao - s4));
        let eta = rnd(ao * e * tsi);
        let eta2 = rnd(eta * eta);
        let eeta = rnd(e * eta);
        let psisq = rnd((1.0 - eta2).abs());
        let coef = rnd(q * tsi.powi(4));
        let coef1 = rnd(coef / psisq.powf(3.5));
        let cc2 = rnd(coef1 * no
            * (ao * (1.0 + 1.5 * eta2 + eeta * (4.0 + eta2))
                + 0.375 * j2 * tsi / psisq * con41 * (8.0 + 3.0 * eta2 * (8.0 + eta2))));
        let cc1 = rnd(el.bstar * cc2);
        let j3oj2 = rnd(g.j3 / g.j2);
        let cc3 = if e > 1.0e-4 { -2.0 * coef * tsi * j3oj2 * no * si / e } else { 0.0 };
        let cc4 = rnd(2.0 * no * coef1 * ao * omeosq
            * (eta * (2.0 + 0.5 * eta2) + e * (0.5 + 2.0 * eta2)
                - j2 * tsi / (ao * psisq)
                    * (-3.0 * con41 * (1.0 - 2.0 * eeta + eta2 * (1.5 - 0.5 * eeta))
                        + 0.75 * x1mth2 * (2.0 * eta2 - eeta * (1.0 + eta2)) * (2.0 * el.argp).cos())));
        let cc5 = rnd(2.0 * coef1 * ao * omeosq * (1.0 + 2.75 * (eta2 + eeta) + eeta * eta2));
        let t1 = rnd(1.5 * j2 * pinvsq * no);
        let t2 = rnd(0.5 * t1 * j2 * pinvsq);
        let t3 = rnd(-0.46875 * j4 * pinvsq * pinvsq * no);
        let mdot = rnd(no + 0.5 * t1 * beta * con41 + 0.0625 * t2 * beta * (13.0 - 78.0 * c2 + 137.0 * c4));
        let argpdot = rnd(-0.5 * t1 * con42 + 0.0625 * t2 * (7.0 - 114.0 * c2 + 395.0 * c4) + t3 * (3.0 - 36.0 * c2 + 49.0 * c4));
        let xhdot1 = rnd(-t1 * c);
        let nodedot = rnd(xhdot1 + (0.5 * t2 * (4.0 - 19.0 * c2) + 2.0 * t3 * (3.0 - 7.0 * c2)) * c);
        let omgcof = rnd(el.bstar * cc3 * el.argp.cos());
        let xmcof = if e > 1.0e-4 { -x2o3 * coef * el.bstar / eeta } else { 0.0 };
        let deep = TAU / no >= 225.0;
        if deep {
            simple = true;
        }
        let (aycof, xlcof) = long_period(j3oj2, si, c);
        let dm = rnd(1.0 + eta * el.m.cos());
        let mut s = Sat {
            g, afspc, el, no, ao, gsto, deep, simple, perigee_km,
            con41, x1mth2, x7thm1, cc1, cc4, cc5,
            d2: 0.0, d3: 0.0, d4: 0.0,
            t2: 1.5 * cc1, t3: 0.0, t4: 0.0, t5: 0.0,
            eta, delmo: rnd(dm * dm * dm), sinmao: el.m.sin(),
            mdot, argpdot, nodedot, omgcof, xmcof,
            nodecf: 3.5 * omeosq * xhdot1 * cc1,
            aycof, xlcof, ds: None,
        };
        if deep {
            s.ds = Some(deep_init(&s));
        }
        if !simple {
            let q2 = rnd(cc1 * cc1);
            s.d2 = rnd(4.0 * ao * tsi * q2);
            let tt = rnd(s.d2 * tsi * cc1 / 3.0);
            s.d3 = (17.0 * ao + s4) * tt;
            s.d4 = 0.5 * tt * ao * tsi * (221.0 * ao + 31.0 * s4) * cc1;
            s.t3 = s.d2 + 2.0 * q2;
            s.t4 = 0.25 * (3.0 * s.d3 + cc1 * (12.0 * s.d2 + 10.0 * q2));
            s.t5 = 0.2 * (3.0 * s.d4 + 12.0 * cc1 * s.d3 + 6.0 * s.d2 * s.d2 + 15.0 * q2 * (2.0 * s.d2 + q2));
        }
        s
    }

    pub fn rez(&self) -> Rez {
        self.ds.as_ref().map(|d| d.rez).unwrap_or(Rez::None)
    }

    /// Secular lunar-solar and resonance corrections applied to given mean elements at t:
    /// (e, inclination, perigee, node, anomaly, mean motion). None for near-Earth orbits.
    pub fn secular(&self, t: f64, e: f64, inc: f64, argp: f64, node: f64, m: f64) -> Option<[f64; 6]> {
        let d = self.ds.as_ref()?;
        let theta = rnd((self.gsto + t * RPTIM) % TAU);
        let (e, inc, argp, node) = (e + d.dedt * t, inc + d.didt * t, argp + d.domdt * t, node + d.dnodt * t);
        let mut m = rnd(m + d.dmdt * t);
        let mut n = self.no;
        if d.rez != Rez::None {
            let (nn, xl) = self.resonance(d, t);
            n = nn;
            m = if d.rez == Rez::HalfDay { xl - 2.0 * node + 2.0 * theta } else { xl - node - argp + theta };
        }
        Some([e, inc, argp, node, m, n])
    }
    /// Long-period corrections applied to given mean elements at t: (e, inclination, node, perigee, anomaly)
    pub fn long_periodics(&self, t: f64, e: f64, inc: f64, node: f64, argp: f64, m: f64) -> Option<(f64, f64, f64, f64, f64)> {
        let d = self.ds.as_ref()?;
        Some(self.periodics(d, t, e, inc, node, argp, m))
    }

    /// Resonance-corrected (mean motion, longitude) at t; always integrates from epoch.
    fn resonance(&self, d: &Deep, t: f64) -> (f64, f64) {
        let step = if t > 0.0 { 720.0 } else { -720.0 };
        let (mut at, mut xli, mut xni) = (0.0f64, d.xlamo, self.no);
        loop {
            let xldot = rnd(xni + d.xfact);
            let (ndot, mut nddot);
            match d.rez {
                Rez::Day => {
                    let (f2, f4, f6) = (0.13130908, 2.8843198, 0.37448087);
                    ndot = d.del[0] * (xli - f2).sin() + d.del[1] * (2.0 * (xli - f4)).sin() + d.del[2] * (3.0 * (xli - f6)).sin();
                    nddot = d.del[0] * (xli - f2).cos()
                        + 2.0 * d.del[1] * (2.0 * (xli - f4)).cos()
                        + 3.0 * d.del[2] * (3.0 * (xli - f6)).cos();
                }
                _ => {
                    let om = rnd(self.el.argp + self.argpdot * at);
                    // (argument, multiple of longitude in it)
                    let (g22, g32, g44, g52, g54) = (5.7686396, 0.95240898, 1.8014998, 1.0508330, 4.4108898);
                    let l2 = rnd(2.0 * xli);
                    let terms: [(f64, f64); 10] = [
                        (2.0 * om + xli - g22, 1.0),
                        (xli - g22, 1.0),
                        (om + xli - g32, 1.0),
                        (-om + xli - g32, 1.0),
                        (2.0 * om + l2 - g44, 2.0),
                        (l2 - g44, 2.0),
                        (om + xli - g52, 1.0),
                        (-om + xli - g52, 1.0),
                        (om + l2 - g54, 2.0),
                        (-om + l2 - g54, 2.0),
                    ];
                    let mut a = 0.0;
                    let mut b = 0.0;
                    for k in 0..10 {
                        let (s, c) = terms[k].0.sin_cos();
                        a += d.d[k] * s;
                        b += terms[k].1 * d.d[k] * c;
                    }
                    ndot = a;
                    nddot = b;
                }
            }
            nddot *= xldot;
            let ft = rnd(t - at);
            if ft.abs() < 720.0 || !ft.is_finite() {
                return (
                    rnd(xni + ndot * ft + nddot * ft * ft * 0.5),
                    rnd(xli + xldot * ft + ndot * ft * ft * 0.5),
                );
            }
            xli = rnd(xli + xldot * step + ndot * 259200.0);
            xni = rnd(xni + ndot * step + nddot * 259200.0);
            at += step;
        }
    }

    /// Long-period lunar-solar periodics.
    fn periodics(&self, d: &Deep, t: f64, ep: f64, inc: f64, node: f64, argp: f64, m: f64) -> (f64, f64, f64, f64, f64) {
        let mut pe = 0.0;
        let mut pinc = 0.0;
        let mut pl = 0.0;
        let mut pgh = 0.0;
        let mut ph = 0.0;
        let e2 = rnd(self.el.e * self.el.e);
        for b in [&d.sun, &d.moon] {
            let zm = rnd(b.zm0 + b.zn * t);
            let zf = rnd(zm + 2.0 * b.ze * zm.sin());
            let (sf, cf) = (zf.sin(), zf.cos());
            let f2 = rnd(0.5 * sf * sf - 0.25);
            let f3 = rnd(-0.5 * sf * cf);
            pe += 2.0 * b.s1 * b.s6 * f2 + 2.0 * b.s1 * b.s7 * f3;
            pinc += 2.0 * b.s2 * b.z12 * f2 + 2.0 * b.s2 * (b.z13 - b.z11) * f3;
            pl += -2.0 * b.s3 * b.z2 * f2 - 2.0 * b.s3 * (b.z3 - b.z1) * f3
                - 2.0 * b.s3 * (-21.0 - 9.0 * e2) * b.ze * sf;
            pgh += 2.0 * b.s4 * b.z32 * f2 + 2.0 * b.s4 * (b.z33 - b.z31) * f3 - 18.0 * b.s4 * b.ze * sf;
            ph += -2.0 * b.s2 * b.z22 * f2 - 2.0 * b.s2 * (b.z23 - b.z21) * f3;
        }
        let inc = rnd(inc + pinc);
        let ep = rnd(ep + pe);
        let (si, ci) = (inc.sin(), inc.cos());
        if inc >= 0.2 {
            let ph = rnd(ph / si);
            let pgh = rnd(pgh - ci * ph);
            return (ep, inc, node + ph, argp + pgh, m + pl);
        }
        let (sn, cn) = (node.sin(), node.cos());
        let alf = rnd(si * sn + ph * cn + pinc * ci * sn);
        let bet = rnd(si * cn - ph * sn + pinc * ci * cn);
        let mut n0 = rnd(node % TAU);
        if n0 < 0.0 && self.afspc {
            n0 += TAU;
        }
        let xls = rnd(m + argp + ci * n0 + pl + pgh - pinc * n0 * si);
        let mut n1 = rnd(alf.atan2(bet));
        if n1 < 0.0 && self.afspc {
            n1 += TAU;
        }
        if (n0 - n1).abs() > PI {
            if n1 < n0 {
                n1 += TAU;
            } else {
                n1 -= TAU;
            }
        }
        let m1 = rnd(m + pl);
        (ep, inc, n1, xls - m1 - ci * n1, m1)
    }

    /// Mean motion and mean longitude the resonance integration arrives at, for a resonant orbit.
    pub fn resonant_state(&self, t: f64) -> Option<(f64, f64)> {
        let d = self.ds.as_ref()?;
        match d.rez {
            Rez::None => None,
            _ => Some(self.resonance(d, t)),
        }
    }

    pub fn prop(&self, t: f64) -> Out {
        let g = &self.g;
        let el = &self.el;
        let t2 = rnd(t * t);
        let xmdf = rnd(el.m + self.mdot * t);
        let argpdf = rnd(el.argp + self.argpdot * t);
        let nodedf = rnd(el.node + self.nodedot * t);
        let mut argp = argpdf;
        let mut m = xmdf;
        let mut node = rnd(nodedf + self.nodecf * t2);
        let mut ta = rnd(1.0 - self.cc1 * t);
        let mut te = rnd(el.bstar * self.cc4 * t);
        let mut tl = rnd(self.t2 * t2);
        if !self.simple {
            let dmt = rnd(1.0 + self.eta * xmdf.cos());
            let d = rnd(self.omgcof * t + self.xmcof * (dmt * dmt * dmt - self.delmo));
            m += d;
            argp -= d;
            let (t3, t4) = (t2 * t, t2 * t2);
            ta = ta - self.d2 * t2 - self.d3 * t3 - self.d4 * t4;
            te += el.bstar * self.cc5 * (m.sin() - self.sinmao);
            tl = tl + self.t3 * t3 + t4 * (self.t4 + t * self.t5);
        }
        let mut n = self.no;
        let mut e = el.e;
        let mut inc = el.incl;
        if let Some(d) = &self.ds {
            let theta = rnd((self.gsto + t * RPTIM) % TAU);
            e += d.dedt * t;
            inc += d.didt * t;
            argp += d.domdt * t;
            node += d.dnodt * t;
            m += d.dmdt * t;
            match d.rez {
                Rez::None => {}
                Rez::HalfDay => {
                    let (nn, xl) = self.resonance(d, t);
                    m = rnd(xl - 2.0 * node + 2.0 * theta);
                    n = nn;
                }
                Rez::Day => {
                    let (nn, xl) = self.resonance(d, t);
                    m = rnd(xl - node - argp + theta);
                    n = nn;
                }
            }
        }
        if !(n > 0.0) {
            return Err(2);
        }
        let a = rnd((g.xke / n).powf(2.0 / 3.0) * ta * ta);
        let n = rnd(g.xke / a.powf(1.5));
        e = rnd(e - te);
        if e >= 1.0 || e < -0.001 {
            return Err(1);
        }
        if e < 1.0e-6 {
            e = 1.0e-6;
        }
        m = rnd(m + self.no * tl);
        let xlm = rnd((m + argp + node) % TAU);
        node %= TAU;
        argp %= TAU;
        m = rnd((xlm - argp - node) % TAU);

        let (mut aycof, mut xlcof) = (self.aycof, self.xlcof);
        let (mut con41, mut x1mth2, mut x7thm1) = (self.con41, self.x1mth2, self.x7thm1);
        let (mut ep, mut xinc, mut nodep, mut argpp, mut mp) = (e, inc, node, argp, m);
        if let Some(d) = &self.ds {
            (ep, xinc, nodep, argpp, mp) = self.periodics(d, t, ep, xinc, nodep, argpp, mp);
            if xinc < 0.0 {
                xinc = -xinc;
                nodep += PI;
                argpp -= PI;
            }
            if ep < 0.0 || ep > 1.0 {
                return Err(3);
            }
            let (si, ci) = (xinc.sin(), xinc.cos());
            (aycof, xlcof) = long_period(g.j3 / g.j2, si, ci);
            con41 = 3.0 * ci * ci - 1.0;
            x1mth2 = 1.0 - ci * ci;
            x7thm1 = 7.0 * ci * ci - 1.0;
        }
        let (si, ci) = (xinc.sin(), xinc.cos());
        let axn = rnd(ep * argpp.cos());
        let q = rnd(1.0 / (a * (1.0 - ep * ep)));
        let ayn = rnd(ep * argpp.sin() + q * aycof);
        let u = rnd((mp + argpp + q * xlcof * axn) % TAU);
        // The published code forms (mp+argpp+nodep+..)-nodep; equal up to rounding.
        let mut eo = u;
        let (mut s, mut c) = (0.0, 0.0);
        let mut step: f64 = 9999.9;
        let mut k = 1;
        while step.abs() >= 1.0e-12 && k <= 10 {
            s = rnd(eo.sin());
            c = rnd(eo.cos());
            step = (u - ayn * c + axn * s - eo) / (1.0 - c * axn - s * ayn);
            if step.abs() >= 0.95 {
                step = if step > 0.0 { 0.95 } else { -0.95 };
            }
            eo = rnd(eo + step);
            k += 1;
        }
        let ecose = rnd(axn * c + ayn * s);
        let esine = rnd(axn * s - ayn * c);
        let el2 = rnd(axn * axn + ayn * ayn);
        let p = rnd(a * (1.0 - el2));
        if p < 0.0 {
            return Err(4);
        }
        let r = rnd(a * (1.0 - ecose));
        let rdot = rnd(a.sqrt() * esine / r);
        let rvdot0 = rnd(p.sqrt() / r);
        let beta = rnd((1.0 - el2).sqrt());
        let w = rnd(esine / (1.0 + beta));
        let sinu = rnd(a / r * (s - ayn - axn * w));
        let cosu = rnd(a / r * (c - axn + ayn * w));
        let su0 = rnd(sinu.atan2(cosu));
        let sin2u = rnd(2.0 * cosu * sinu);
        let cos2u = rnd(1.0 - 2.0 * sinu * sinu);
        let k1 = rnd(0.5 * g.j2 / p);
        let k2 = rnd(k1 / p);
        let mrt = rnd(r * (1.0 - 1.5 * k2 * beta * con41) + 0.5 * k1 * x1mth2 * cos2u);
        let su = rnd(su0 - 0.25 * k2 * x7thm1 * sin2u);
        let om = rnd(nodep + 1.5 * k2 * ci * sin2u);
        let ii = rnd(xinc + 1.5 * k2 * ci * si * cos2u);
        let mvt = rnd(rdot - n * k1 * x1mth2 * sin2u / g.xke);
        let rv = rnd(rvdot0 + n * k1 * (x1mth2 * cos2u + 1.5 * con41) / g.xke);
        let (ssu, csu) = su.sin_cos();
        let (sn, cn) = om.sin_cos();
        let (sii, cii) = ii.sin_cos();
        let uu = [rnd(-sn * cii * ssu + cn * csu), rnd(cn * cii * ssu + sn * csu), rnd(sii * ssu)];
        let vv = [rnd(-sn * cii * csu - cn * ssu), rnd(cn * cii * csu - sn * ssu), rnd(sii * csu)];
        if mrt < 1.0 {
            return Err(6);
        }
        let vk = rnd(g.re * g.xke / 60.0);
        let mut st = State { r: [0.0; 3], v: [0.0; 3] };
        for k in 0..3 {
            st.r[k] = mrt * uu[k] * g.re;
            st.v[k] = (mvt * uu[k] + rv * vv[k]) * vk;
        }
        if st.r.iter().chain(st.v.iter()).any(|x| !x.is_finite()) {
            return Err(0);
        }
        Ok(st)
    }
}

fn long_period(j3oj2: f64, si: f64, ci: f64) -> (f64, f64) {
    // next to 180 degrees all of 1 + cos(i) is the rounding of the cosine
    let ci = rnd(ci);
    let den = if (ci + 1.0).abs() > 1.5e-12 { 1.0 + ci } else { 1.5e-12 };
    (rnd(-0.5 * j3oj2 * si), rnd(-0.25 * j3oj2 * si * (3.0 + 5.0 * ci) / den))
}
