//! C01-C04 and C20: conformance of predictions with the published model, outcome soundness,
//! velocity/position consistency.
use crate::common::*;
use crate::engine::*;
use crate::refsgp4::*;
use crate::tle::*;
use satellite::propogation::sgp4::sgp4;

/// Largest n8 in (lo, hi) with pred true, given pred(lo) true, pred(hi) false and pred monotone.
pub fn bisect(t: &Tle, mut lo: i64, mut hi: i64, pred: &dyn Fn(&Sat) -> bool) -> Option<i64> {
    let at = |n8: i64| {
        let mut x = t.clone();
        x.n8 = n8;
        pred(&Sat::new(Grav::wgs84(), x.elems(), false))
    };
    if !at(lo) || at(hi) {
        return None;
    }
    while hi - lo > 1 {
        let mid = lo + (hi - lo) / 2;
        if at(mid) { lo = mid } else { hi = mid }
    }
    Some(lo)
}
/// mean motion field whose reference perigee height is `km` to within `delta` km on the given side
pub fn n8_at_perigee(t: &Tle, km: f64) -> i64 {
    // perigee falls as n grows
    bisect(t, 1_000_000, 2_400_000_000, &|s| s.perigee_km >= km || s.perigee_km.is_nan()).unwrap_or_else(|| n8_for_perigee(km, t.ecc()))
}
pub fn n8_at_no(t: &Tle, no: f64) -> i64 {
    bisect(t, 1_000_000, 2_400_000_000, &|s| s.no < no).unwrap_or((no * XPDOTP * 1e8) as i64)
}

pub const Z: Exp = Exp::ZERO;
pub fn bst(neg: bool, mant: i64, exp: i64) -> Exp {
    Exp::new(neg, mant, exp)
}
pub fn orbit(n8: i64, ecc7: i64, incl4: i64, node4: i64, argp4: i64, m4: i64, bstar: Exp, ep: (i64, i64, i64)) -> Tle {
    Tle {
        satnum: "77777".into(), yy: ep.0, day: ep.1, dfrac: ep.2, ndot8: 123, nddot: Z, bstar,
        incl4, node4, argp4, m4, ecc7, n8,
    }
}
const EP: (i64, i64, i64) = (19, 85, 83761025);

pub fn c01(run: &mut Run) {
    run.require(&["near: perigee<98", "near: perigee 98-156", "near: perigee 156-220", "near: perigee>=220", "near: e<=1e-4",
        "retrograde", "inclination 180 deg", "outcome: state", "outcome: error 6 (decay)"]);
    // --- drag regimes: every combination of perigee height x eccentricity x inclination x drag x angles x time
    let per = [86.0, 97.998, 98.002, 110.0, 130.0, 155.998, 156.002, 180.0, 219.998, 220.002, 260.0, 400.0, 800.0, 1500.0, 3000.0, 6000.0];
    let ecc: &[i64] = &[0, 1, 500, 999, 1000, 1001, 20000, 300000, 1000000, 3000000, 5500000];
    let inc: &[i64] = run.pick(&[0, 284621, 634349, 900000, 980000, 1166000, 1799999, 1800000][..], &[0, 1, 284621, 516400, 634349, 899999, 900000, 900001, 980000, 1165651, 1400000, 1799999, 1800000][..]);
    let bs: &[Exp] = &[Z, bst(false, 10000, -3), bst(false, 66816, -4), bst(false, 50000, -1), bst(true, 28098, -4), bst(true, 90000, -2)];
    let argp: &[i64] = run.pick(&[0, 526988, 1800000, 3317664][..], &[0, 450000, 900000, 1317664, 2700000, 3599999][..]);
    let man: &[i64] = run.pick(&[0, 1105714, 2500000][..], &[0, 193264, 900000, 1800000, 2700001, 3599999][..]);
    let times: &[f64] = run.pick(
        &[0.0, 0.001, -0.5, 10.0, -45.0, 87.5, 360.0, -720.0, 1440.0, -4321.0, 20160.0, -100000.0][..],
        &[0.0, 0.001, -0.001, 1.0, -0.5, 10.0, -45.0, 87.5, 200.0, 360.0, -720.0, 720.0, 1440.0, -1440.0, -4321.0, 20160.0, 43200.0, -100000.0, 525600.0, -525600.0][..]);
    // mean motions are placed with the reference model at each (perigee, e, i) so that both sides of
    // every drag threshold are hit to within two metres
    let mut n8 = vec![];
    for &p in &per {
        for &e in ecc {
            for &i in inc {
                let t = orbit(1_500_000_000, e, i, 0, 0, 0, Z, EP);
                n8.push(n8_at_perigee(&t, p));
            }
        }
    }
    let (ne, ni) = (ecc.len(), inc.len());
    run.space("drag regimes", &[per.len(), ne, ni, bs.len(), argp.len(), man.len()], |ix, ctx| {
        let n = n8[(ix[0] * ne + ix[1]) * ni + ix[2]];
        let t = orbit(n, ecc[ix[1]], inc[ix[2]], 1159689, argp[ix[4]], man[ix[5]], bs[ix[3]], EP);
        near(&t, times, ctx)
    });
    // --- angles: node x argp x m x inclination on three shapes
    let ang: &[i64] = run.pick(&[0, 1, 450000, 900000, 1350001, 1799999, 2250000, 2700000, 3599999][..], &[0, 1, 300000, 450000, 899999, 900000, 1350001, 1799999, 1800000, 2250000, 2700000, 3150000, 3599999][..]);
    let inc2: &[i64] = &[0, 50000, 516446, 900000, 1350000, 1749999, 1800000];
    let shapes: &[(f64, i64)] = &[(420.0, 2332), (600.0, 1859667), (200.0, 5), (300.0, 5500000)];
    let shape_n: Vec<i64> = shapes.iter().map(|s| n8_at_perigee(&orbit(1_500_000_000, s.1, 500000, 0, 0, 0, Z, EP), s.0)).collect();
    run.space("angles", &[shapes.len(), inc2.len(), ang.len(), ang.len(), ang.len()], |ix, ctx| {
        let t = orbit(shape_n[ix[0]], shapes[ix[0]].1, inc2[ix[1]], ang[ix[2]], ang[ix[3]], ang[ix[4]], bst(false, 28282, -4), EP);
        near(&t, &[0.0, 33.3, -721.0, 2880.0], ctx)
    });
    // --- inclination sweep (including the critical inclination and the 180 degree guard)
    let steps = run.pick(721usize, 3601);
    run.space("inclination sweep", &[steps, shapes.len(), 3], |ix, ctx| {
        let i4 = (1800000 * ix[0] as i64) / (steps as i64 - 1);
        let t = orbit(shape_n[ix[1]], shapes[ix[1]].1, i4, 3487242, [0, 931234, 2700000][ix[2]], 193264, bst(false, 28098, -4), EP);
        near(&t, &[0.0, 61.0, -360.0, 1441.0], ctx)
    });
    // --- eccentricity and mean motion sweep: from grazing to the 225-minute boundary
    let (es, ns) = run.pick((60usize, 90usize), (240, 360));
    run.space("eccentricity x mean motion sweep", &[es, ns, 2], |ix, ctx| {
        let e = 9_000_000i64 * (ix[0] as i64) * (ix[0] as i64) / ((es * es) as i64);
        let n = 640_000_000 + 1_080_000_000i64 * ix[1] as i64 / ns as i64;
        let t = orbit(n, e, [516446, 1166000][ix[2]], 505941, 1170184, 3281109, bst(false, 28282, -4), EP);
        near(&t, &[0.0, 17.0, -95.0, 1000.0, -10080.0], ctx)
    });
    // --- the 225-minute boundary, from the near-Earth side
    run.space("225-minute boundary", &[6, 6, 4, 3], |ix, ctx| {
        let e = [0i64, 1000, 100000, 1000000, 3000000, 4500000][ix[0]];
        let i = [0i64, 284621, 634349, 900000, 1166000, 1800000][ix[1]];
        let mut t = orbit(640_000_000, e, i, 2001234, 1059876, 2101234, bst(false, 10000, -3), EP);
        let b = bisect(&t, 600_000_000, 700_000_000, &|s| s.deep).unwrap();
        t.n8 = b + [1i64, 2, 100, 100000][ix[2]];
        let at0: &[f64] = [&[0.0, 10.0, -100.0, 1440.0][..], &[10080.0, -10080.0][..], &[525600.0, -43200.0][..]][ix[3]];
        near(&t, at0, ctx)
    });
    // --- every minute over days, both directions
    let span = run.pick(2880usize, 20160);
    let named: Vec<Tle> = named_near();
    run.space("every minute", &[named.len(), 2 * span / 80], |ix, ctx| {
        let ts: Vec<f64> = (0..80).map(|k| (ix[1] * 80 + k) as f64 - span as f64).collect();
        near(&named[ix[0]], &ts, ctx)
    });
    // --- long times x strong drag
    run.space("long times and strong drag", &[named.len(), 9, 21], |ix, ctx| {
        let mut t = named[ix[0]].clone();
        t.bstar = [Z, bst(false, 1, -9), bst(false, 99999, -3), bst(false, 99999, 0), bst(false, 10000, 1), bst(true, 99999, -1), bst(true, 99999, 0), bst(false, 50000, -2), bst(true, 12345, -9)][ix[1]];
        let x = 10f64.powf(2.0 + (ix[2] / 2) as f64 * 0.45);
        near(&t, &[if ix[2] % 2 == 0 { x } else { -x }], ctx)
    });
    // --- epochs: a near-Earth prediction from the same elements is the same whatever the epoch
    let yrs: Vec<i64> = (0..100).collect();
    run.space("epochs", &[yrs.len(), 5, named.len()], |ix, ctx| {
        let mut t = named[ix[2]].clone();
        t.yy = yrs[ix[0]];
        t.day = [1, 59, 60, 213, 365][ix[1]];
        near(&t, &[0.0, 360.0, -1000.0], ctx)
    });
    // high ones at apogee and low ones all round
    let mut bases = named;
    bases.push(orbit(660_000_000, 4_500_000, 516446, 505941, 1170184, 1_800_000, bst(false, 28282, -6), EP));
    bases.push(orbit(900_000_000, 2_500_000, 1166000, 2505941, 2670184, 1_750_000, bst(false, 10000, -3), EP));
    whole_ranges(run, &bases, &[0.0, 3.3, 100.0, -721.0, 2880.0], near);
}
const AXES: usize = 10;
const AXIS: [&str; AXES] = ["eccentricity", "inclination", "node", "perigee", "anomaly", "mean motion", "drag", "year", "day", "fraction"];
/// values of one element: `k` times as dense
fn axis(a: usize, k: i64) -> Vec<i64> {
    let even = |lo: i64, hi: i64, n: i64| -> Vec<i64> { (0..=n).map(|j| lo + (hi - lo) * j / n).collect() };
    let scales = |lo: i32, hi: i32, per: i64| -> Vec<i64> { (lo as i64 * per..hi as i64 * per).map(|j| 10f64.powf((j as f64 + 0.29) / per as f64) as i64).collect() };
    let mut v = match a {
        0 => { let mut v = scales(0, 7, 4 * k); v.extend(even(0, 9_999_000, 100 * k)); v }
        1 => { let mut v = even(0, 1_800_000, 90 * k); v.extend(scales(0, 6, 2 * k)); v.extend(scales(0, 6, 2 * k).into_iter().map(|x| 1_800_000 - x)); v }
        2 | 3 | 4 => { let mut v = even(7, 3_599_993, 45 * k); v.extend(scales(0, 6, k)); v }
        5 => { let mut v = even(5_000_000, 1_750_000_000, 175 * k); v.extend(scales(6, 9, 4 * k)); v }
        // sign, exponent and mantissa in one number: index into scales from 1e-10 to 10
        6 => (-24 * k..=24 * k).collect(),
        7 => even(0, 99, (12 * k).min(99)),
        8 => even(1, 366, (30 * k).min(365)),
        _ => even(0, 99_999_999, 12 * k),
    };
    v.sort();
    v.dedup();
    v
}
fn with(t: &Tle, a: usize, x: i64, k: i64) -> Tle {
    let mut t = t.clone();
    match a {
        0 => t.ecc7 = x,
        1 => t.incl4 = x,
        2 => t.node4 = x,
        3 => t.argp4 = x,
        4 => t.m4 = x,
        5 => t.n8 = x,
        6 => {
            let y = 10f64.powf((x.abs() - 1) as f64 / (24 * k) as f64 * 9.5 - 9.5);
            let e = y.log10().floor() as i64 + 1;
            t.bstar = if x == 0 { Z } else { bst(x < 0, ((y / 10f64.powi(e as i32) * 1e5) as i64).clamp(10000, 99999), e) };
        }
        7 => t.yy = x,
        8 => t.day = if x == 366 && t.yy % 4 != 0 { 365 } else { x },
        _ => t.dfrac = x,
    }
    t
}
/// No threshold hidden between the values of the grids: each element alone, and the time alone, runs
/// through all it can be, then every two elements together.
pub fn whole_ranges(run: &mut Run, bases: &[Tle], times: &[f64], check: impl Fn(&Tle, &[f64], &mut Ctx) -> Check + Sync + Send + Copy) {
    let k = run.pick(4i64, 16);
    let nb = bases.len();
    let all: Vec<(usize, i64)> = (0..AXES).flat_map(|a| axis(a, k).into_iter().map(move |x| (a, x))).collect();
    run.space("one element through its whole range", &[all.len(), nb], |ix, ctx| {
        let (a, x) = all[ix[0]];
        check(&with(&bases[ix[1]], a, x, k), times, ctx).map_err(|e| format!("{}: {}", AXIS[a], e))
    });
    let per = 6 * k as i32;
    let ts: Vec<f64> = (-9 * per..7 * per).flat_map(|j| { let x = 10f64.powf((j as f64 + 0.37) / per as f64); [x, -x] }).collect();
    let chunks: Vec<&[f64]> = ts.chunks(12).collect();
    run.space("time through its whole range", &[nb, chunks.len(), 3], |ix, ctx| {
        let t = Tle { m4: (bases[ix[0]].m4 + 1_200_000 * ix[2] as i64) % 3_600_000, ..bases[ix[0]].clone() };
        check(&t, chunks[ix[1]], ctx)
    });
    let thin = run.pick(10usize, 24);
    let few: Vec<Vec<i64>> = (0..AXES).map(|a| { let v = axis(a, 1); (0..thin).map(|j| v[(j * v.len() + v.len() / 2) / thin]).collect() }).collect();
    let pairs: Vec<(usize, usize)> = (0..AXES).flat_map(|i| (i + 1..AXES).map(move |j| (i, j))).collect();
    run.space("two elements through their whole ranges", &[nb, pairs.len(), thin, thin], |ix, ctx| {
        let (i, j) = pairs[ix[1]];
        let t = with(&with(&bases[ix[0]], i, few[i][ix[2]], 1), j, few[j][ix[3]], 1);
        check(&t, times, ctx).map_err(|e| format!("{} and {}: {}", AXIS[i], AXIS[j], e))
    });
}
/// near-Earth orbits only: others belong to C02/C03
fn near(t: &Tle, times: &[f64], ctx: &mut Ctx) -> Check {
    let sat = Sat::new(Grav::wgs84(), t.elems(), false);
    if sat.deep {
        ctx.class("(skipped: deep space)");
        return Ok(());
    }
    conform_trace_lines(&sat, &t.line1(), &t.line2(), times, ctx)
}
fn tl(l1: &str, l2: &str) -> Tle {
    Tle::from_lines(l1, l2)
}
pub fn named_near() -> Vec<Tle> {
    vec![
        tl("1 25544U 98067A   19085.83761025  .00001292  00000-0  28282-4 0  9995", "2 25544  51.6446  50.5941 0002332 117.0184 328.1109 15.52438493162461"),
        tl("1 00005U 58002B   00179.78495062  .00000023  00000-0  28098-4 0  4753", "2 00005  34.2682 348.7242 1859667 331.7664  19.3264 10.82419157413667"),
        tl("1 28057U 03049A   06177.78615833  .00000060  00000-0  35940-4 0  1836", "2 28057  98.4283 247.6961 0000884  88.1964 271.9322 14.35478080140550"),
        tl("1 06251U 62025E   06176.82412014  .00008885  00000-0  12808-3 0  3985", "2 06251  58.0579  54.0425 0030035 139.1568 221.1854 15.56387291  6774"),
        Tle::base(),
        orbit(1_606_000_000, 100, 0, 0, 0, 0, bst(false, 10000, -3), EP),
        orbit(1_200_000_000, 1_500_000, 1_500_000, 3_000_000, 900_000, 2_700_000, bst(true, 10000, -4), EP),
    ]
}

/// deep-space orbits of the wanted resonance kind only
fn deep(t: &Tle, resonant: bool, times: &[f64], ctx: &mut Ctx) -> Check {
    let sat = Sat::new(Grav::wgs84(), t.elems(), false);
    if !sat.deep || (sat.rez() != Rez::None) != resonant {
        ctx.class("(skipped: other regime)");
        return Ok(());
    }
    conform_trace_lines(&sat, &t.line1(), &t.line2(), times, ctx)
}
const INC_DEEP: &[i64] = &[0, 1, 10000, 29999, 30000, 30001, 80000, 114000, 114591, 114592, 114600, 120000, 284621, 634349, 900000, 1200000, 1500000, 1769999, 1770000, 1770001, 1799999];
const EPOCHS: &[(i64, i64, i64)] = &[(19, 85, 83761025), (57, 274, 1), (80, 230, 29629788), (99, 365, 99999999), (0, 1, 0), (6, 176, 56157475), (28, 60, 50000000), (56, 366, 12345678)];

pub fn c02(run: &mut Run) {
    run.require(&["deep: no resonance", "deep: low inclination (Lyddane)", "deep: within 3 deg of equator", "retrograde", "outcome: state"]);
    let ecc: &[i64] = &[0, 10, 20000, 1500000, 3500000, 4999999, 6000000, 7200000, 8500000];
    let mms: &[i64] = run.pick(&[620_000_000, 400_000_000, 228_537_848, 200_000_000, 150_000_000, 125_000_000, 70_000_000, 20_000_000][..],
        &[639_000_000, 620_000_000, 520_000_000, 400_000_000, 300_000_000, 228_537_848, 215_000_000, 200_000_000, 185_000_000, 150_000_000, 125_000_000, 78_000_000, 50_000_000, 20_000_000, 3_000_000][..]);
    let ang: &[(i64, i64, i64)] = run.pick(&[(0, 0, 0), (2304354, 474722, 104117), (931234, 2654321, 3599999), (3500000, 1800001, 1799999)][..],
        &[(0, 0, 0), (2304354, 474722, 104117), (931234, 2654321, 3599999), (3500000, 1800001, 1799999), (1, 900000, 900000), (1800000, 3599999, 2700000), (1234567, 1, 1234567)][..]);
    let times: &[f64] = run.pick(&[0.0, 1.0, -360.0, 720.0, 1440.0, -2880.0, 10080.0, -43200.0, 525600.0, -1000000.0][..],
        &[0.0, 0.01, 1.0, -1.0, -360.0, 360.0, 719.0, 720.0, -720.0, 1440.0, -2880.0, 10080.0, -10080.0, 43200.0, -43200.0, 262800.0, 525600.0, -1000000.0, 5256000.0, -5256000.0][..]);
    run.space("orbits x epochs", &[mms.len(), ecc.len(), INC_DEEP.len(), ang.len(), EPOCHS.len()], |ix, ctx| {
        let a = ang[ix[3]];
        let t = orbit(mms[ix[0]], ecc[ix[1]], INC_DEEP[ix[2]], a.0, a.1, a.2, bst(false, 14311, -3), EPOCHS[ix[4]]);
        deep(&t, false, times, ctx)
    });
    // the long-period terms depend on where the sun and moon are: the lunar node cycle month by month
    let months = run.pick(240usize, 1190);
    run.space("lunar-solar cycle", &[months, 7, 2], |ix, ctx| {
        let i = [5000, 100000, 284621, 634349, 900000, 1166000, 1750000][ix[1]];
        let step = 1190 / months * ix[0];
        let y = 57 + (step / 12) as i64;
        let t = orbit([228_537_848, 140_000_000][ix[2]], 3000000, i, 2304354, 474722, 104117, bst(false, 14311, -1), (y % 100, 1 + 30 * (step % 12) as i64, 29629788));
        deep(&t, false, &[0.0, 360.0, -5000.0, 30000.0], ctx)
    });
    let steps = run.pick(361usize, 1801);
    run.space("inclination sweep", &[steps, 3, 2], |ix, ctx| {
        let i4 = (1799999 * ix[0] as i64) / (steps as i64 - 1);
        let (n, e) = [(228_537_848, 7318036), (150_000_000, 1000), (400_000_000, 1500000)][ix[1]];
        let t = orbit(n, e, i4, [2304354, 3550000][ix[2]], 474722, 104117, bst(false, 14311, -1), EPOCHS[2]);
        deep(&t, false, &[0.0, 360.0, -1440.0, 100000.0], ctx)
    });
    // the Lyddane switch uses the perturbed inclination: sweep finely around 0.2 rad
    run.space("Lyddane boundary", &[run.pick(120, 600), 9, 4], |ix, ctx| {
        let i4 = 114592 + (ix[0] as i64 - 60) * 25;
        let node = 400000 * ix[1] as i64;
        let t = orbit([150_000_000, 120_231_981, 228_537_848, 350_000_000][ix[2]], 1450506, i4, node, 2076000, 1439350, bst(false, 10000, -3), EPOCHS[5]);
        deep(&t, false, &[0.0, -5184.0, 20000.0, 300000.0], ctx)
    });
    run.space("low inclination nodes", &[8, 36, 6, 4], |ix, ctx| {
        let i4 = [0, 1, 500, 5000, 20000, 29999, 60000, 110000][ix[0]];
        let t = orbit([150_000_000, 228_537_848, 420_000_000, 70_000_000, 130_000_000, 200_000_000][ix[2]], [0, 100, 500000, 3000000][ix[3]], i4, 100000 * ix[1] as i64 + 1, 2076000, 1439350, bst(false, 10000, -3), EPOCHS[ix[1] % 8]);
        deep(&t, false, &[0.0, 1440.0, -20000.0, 300000.0, 2000000.0, -2000000.0], ctx)
    });
    run.space("225-minute boundary", &[5, 6, 4, 2], |ix, ctx| {
        let e = [0i64, 1000, 100000, 1000000, 4500000][ix[0]];
        let i = [0i64, 284621, 634349, 900000, 1166000, 1799999][ix[1]];
        let mut t = orbit(640_000_000, e, i, 2001234, 1059876, 2101234, bst(false, 10000, -3), EP);
        let b = bisect(&t, 600_000_000, 700_000_000, &|s| s.deep).unwrap();
        t.n8 = b - [0i64, 1, 100, 100000][ix[2]];
        deep(&t, false, [&[0.0, 10.0, -100.0, 1440.0][..], &[10080.0, -10080.0, 525600.0][..]][ix[3]], ctx)
    });
    resonance_edges(run, false);
    let span = run.pick(1440usize, 10080);
    run.space("every ten minutes", &[6, 2 * span / 80], |ix, ctx| {
        let (n, e, i) = [(228_537_848, 7318036, 467916), (120_231_981, 1450506, 114628), (400_000_000, 20000, 30000), (500_000_000, 3000000, 1000000), (78_000_000, 8000000, 200000), (215_000_000, 6900000, 634000)][ix[0]];
        let t = orbit(n, e, i, 2304354, 474722, 104117, bst(false, 14311, -1), EPOCHS[2]);
        let ts: Vec<f64> = (0..80).map(|k| ((ix[1] * 80 + k) as f64 - span as f64) * 10.0).collect();
        deep(&t, false, &ts, ctx)
    });
    let bases: Vec<Tle> = [(228_537_848, 7318036, 467916), (120_231_981, 1450506, 114628), (400_000_000, 20000, 30000), (500_000_000, 3000000, 1000000), (78_000_000, 8000000, 200000), (215_000_000, 6900000, 634000), (30_000_000, 1000, 1500000)].iter().map(|&(n, e, i)| orbit(n, e, i, 2304354, 474722, 1_804_117, bst(false, 14311, -3), EPOCHS[2])).collect();
    whole_ranges(run, &bases, &[0.0, 10.0, 1000.0, -2880.0, 60000.0], |t, ts, ctx| deep(t, false, ts, ctx));
}

/// both sides of every resonance band edge and of the e >= 0.5 condition
fn resonance_edges(run: &mut Run, resonant: bool) {
    let edges = [0.0034906585, 0.0052359877, 8.26e-3, 9.24e-3];
    let ecc: &[i64] = &[1000, 1500000, 4999999, 5000000, 5000001, 6500000, 7000000, 7150000];
    run.space(if resonant { "band edges (inside)" } else { "band edges (outside)" }, &[4, ecc.len(), 5, 8, 2], |ix, ctx| {
        let i = [5000i64, 284621, 634349, 900000, 1300000][ix[2]];
        let mut t = orbit(200_000_000, ecc[ix[1]], i, 2304354, 474722, 104117, bst(false, 14311, -4), EPOCHS[5]);
        let b = n8_at_no(&t, edges[ix[0]]);
        t.n8 = b + [-1000000, -1000, -10, -1, 2, 11, 1000, 1000000][ix[3]];
        deep(&t, resonant, [&[0.0, 719.0, -1441.0][..], &[30000.0, -30000.0][..]][ix[4]], ctx)
    });
}

pub fn c03(run: &mut Run) {
    run.require(&["deep: 24 h resonance", "deep: 12 h resonance", "12h: e<=0.65", "12h: 0.65<e<0.7", "12h: 0.7<=e<=0.715", "12h: e>0.715", "retrograde"]);
    let times: &[f64] = run.pick(&[0.0, 1.0, -1.0, 719.999, 720.0, 720.001, -719.999, -720.0, -720.001, 1440.0, -2160.5, 10080.0, -10000.0, 43200.0][..],
        &[0.0, 0.001, -0.001, 1.0, -1.0, 360.0, -360.0, 719.999, 720.0, 720.001, -719.999, -720.0, -720.001, 1439.999, 1440.0, -1440.0, 2160.5, -2160.5, 10080.0, -10000.0, 43200.0, -43200.0, 262800.0, -525600.0, 1051200.0][..]);
    let inc: &[i64] = run.pick(&[0, 5000, 29999, 114628, 284621, 634349, 900000, 1200000, 1769999, 1770001][..], INC_DEEP);
    let ang: &[(i64, i64, i64)] = run.pick(&[(0, 0, 0), (2790717, 2647651, 202257), (3493786, 2700229, 163320), (931234, 900001, 1800000)][..],
        &[(0, 0, 0), (2790717, 2647651, 202257), (3493786, 2700229, 163320), (931234, 900001, 1800000), (1800000, 1, 3599999), (450000, 1350000, 2250000), (3599999, 3599999, 1)][..]);
    let ecc12: &[i64] = &[5000000, 5000001, 5500000, 6000000, 6499999, 6500000, 6500001, 6700000, 6877146, 6999999, 7000000, 7000001, 7069051, 7149999, 7150000, 7150001, 7300000, 7450000, 8200000];
    let n12: &[i64] = run.pick(&[200_491_383, 190_000_000, 211_000_000][..], &[200_491_383, 190_000_000, 211_000_000, 200_813_614, 195_000_000, 206_000_000][..]);
    let ep: &[(i64, i64, i64)] = run.pick(&[(6, 176, 33215444), (88, 310, 5)][..], EPOCHS);
    run.space("12 h", &[n12.len(), ecc12.len(), inc.len(), ang.len(), ep.len()], |ix, ctx| {
        let a = ang[ix[3]];
        let t = orbit(n12[ix[0]], ecc12[ix[1]], inc[ix[2]], a.0, a.1, a.2, bst(false, 10000, -3), ep[ix[4]]);
        deep(&t, true, times, ctx)
    });
    let ecc24: &[i64] = run.pick(&[0, 1, 100, 11562, 300000, 2000000, 5000000, 7000000][..], &[0, 1, 100, 11562, 100000, 300000, 1000000, 2000000, 5000000, 6500000, 7000000, 7150000, 8000000][..]);
    let n24: &[i64] = run.pick(&[100_270_000, 98_870_114, 82_000_000, 118_000_000][..], &[100_270_000, 98_870_114, 82_000_000, 90_000_000, 95_000_000, 106_000_000, 118_000_000][..]);
    run.space("24 h", &[n24.len(), ecc24.len(), inc.len(), ang.len(), ep.len()], |ix, ctx| {
        let a = ang[ix[3]];
        let t = orbit(n24[ix[0]], ecc24[ix[1]], inc[ix[2]], a.0, a.1, a.2, bst(false, 10000, -3), ep[ix[4]]);
        deep(&t, true, times, ctx)
    });
    resonance_edges(run, true);
    // phase of the resonance: sub-satellite longitude all round, both kinds
    run.space("resonance phase", &[run.pick(72, 360), 6, 2], |ix, ctx| {
        let n = run_phase(ix[0], ix[1]);
        deep(&n, true, [&[0.0, 720.0, -1500.0, 20000.0][..], &[-20000.0, 131400.0, -131400.0][..]][ix[2]], ctx)
    });
    // eccentricity sweep through the coefficient tables
    let es = run.pick(120usize, 800);
    run.space("eccentricity tables", &[es, 4], |ix, ctx| {
        let e = 5_000_000 + 3_000_000 * ix[0] as i64 / es as i64;
        let t = orbit(200_491_383, e, [634349, 284621, 50000, 1166000][ix[1]], 2790717, 2647651, 202257, bst(false, 11873, -3), EPOCHS[5]);
        deep(&t, true, &[0.0, 700.0, 1500.0, -3000.0, 50000.0], ctx)
    });
    // dense times: every 15 minutes across many integrator steps, both directions
    let span = run.pick(480usize, 5760);
    run.space("dense times", &[5, 2 * span / 40], |ix, ctx| {
        let (n, e, i) = [(200_491_383, 6877146, 641586), (200_813_614, 7069051, 645968), (98_870_114, 11562, 114384), (100_270_000, 100, 500), (211_000_000, 5000000, 1166000)][ix[0]];
        let t = orbit(n, e, i, 2790717, 2647651, 202257, bst(false, 11873, -3), EPOCHS[5]);
        let ts: Vec<f64> = (0..40).map(|k| ((ix[1] * 40 + k) as f64 - span as f64) * 15.0).collect();
        deep(&t, true, &ts, ctx)
    });
    run.space("every step boundary", &[5, run.pick(60, 730), 6], |ix, ctx| {
        let (n, e, i) = [(200_491_383, 6877146, 641586), (200_813_614, 7069051, 645968), (98_870_114, 11562, 114384), (100_270_000, 100, 500), (211_000_000, 5000000, 1166000)][ix[0]];
        let t = orbit(n, e, i, 2790717, 2647651, 202257, bst(false, 11873, -3), EPOCHS[5]);
        let b = 720.0 * (ix[1] + 1) as f64 + [-0.001, 0.0, 0.001][ix[2] % 3];
        deep(&t, true, &[if ix[2] < 3 { b } else { -b }], ctx)
    });
    // decades: thousands of integration steps in one call
    let years: &[f64] = run.pick(&[2.5, 3.6, -2.8, 12.0, -20.0, 50.0][..], &[1.9, 2.5, 2.74, 3.6, 5.5, 8.0, 12.0, 22.5, 50.0, 75.0, 100.0, -1.9, -2.74, -2.8, -5.5, -12.0, -20.0, -50.0, -100.0][..]);
    run.space("decades", &[run.pick(6, 24), 6, years.len()], |ix, ctx| {
        let t = run_phase(ix[0] * 12 / if years.len() > 10 { 4 } else { 1 }, ix[1]);
        deep(&t, true, &[years[ix[2]] * 525960.0 + 0.25], ctx)
    });
    let bases: Vec<Tle> = (0..6).map(|k| Tle { bstar: bst(false, 14311, -3), m4: 1_800_117, ..run_phase(7, k) }).collect();
    whole_ranges(run, &bases, &[0.0, 10.0, 1000.0, -2880.0, 60000.0], |t, ts, ctx| deep(t, true, ts, ctx));
}
fn run_phase(k: usize, shape: usize) -> Tle {
    let (n, e, i) = [(200_491_383, 6877146, 641586), (200_000_000, 5500000, 284621), (205_000_000, 7200000, 1000000), (98_870_114, 11562, 114384), (100_270_000, 100, 500), (110_000_000, 2500000, 634349)][shape];
    orbit(n, e, i, 2790717, 2647651, (50_000 * k as i64) % 3_600_000, bst(false, 11873, -3), EPOCHS[5])
}

pub fn c04(run: &mut Run) {
    run.require(&["outcome: state", "outcome: error 1 (mean eccentricity)", "outcome: error 2 (mean motion)", "outcome: error 3 (perturbed eccentricity)", "outcome: error 6 (decay)", "error then success"]);
    let n: &[i64] = run.pick(&[0, 1, 1000, 1_000_000, 50_000_000, 100_270_000, 200_491_383, 400_000_000, 640_000_000, 1_000_000_000, 1_500_000_000, 1_640_000_000, 1_700_000_000, 1_800_000_000, 2_500_000_000, 9_999_999_999][..],
        &[0, 1, 100, 1000, 100_000, 1_000_000, 10_000_000, 50_000_000, 82_000_000, 100_270_000, 118_000_000, 150_000_000, 190_000_000, 200_491_383, 211_000_000, 300_000_000, 400_000_000, 640_000_000, 800_000_000, 1_000_000_000, 1_300_000_000, 1_500_000_000, 1_600_000_000, 1_640_000_000, 1_670_000_000, 1_700_000_000, 1_720_000_000, 1_800_000_000, 2_500_000_000, 5_000_000_000, 9_999_999_999][..]);
    let ecc: &[i64] = run.pick(&[0, 1, 1000, 1000000, 5000000, 7000000, 9000000, 9900000, 9999999][..], &[0, 1, 10, 1000, 1001, 100000, 1000000, 3000000, 5000000, 6500000, 7000000, 8000000, 9000000, 9500000, 9900000, 9990000, 9999000, 9999999][..]);
    let inc: &[i64] = run.pick(&[0, 300000, 634349, 900000, 1800000][..], &[0, 1, 50000, 300000, 634349, 900000, 1200000, 1700000, 1799999, 1800000][..]);
    let bs: &[Exp] = &[Z, bst(false, 10000, -3), bst(false, 99999, 0), bst(true, 99999, 0), bst(false, 99999, 9), bst(true, 99999, 9), bst(true, 50000, -2)];
    let times: &[f64] = run.pick(&[0.0, 10.0, -10.0, 1000.0, -1000.0, 20000.0, -20000.0, 1.0e6, -1.0e6][..], &[0.0, 1e-300, 10.0, -10.0, 60.0, 360.0, 1000.0, -1000.0, 20000.0, -20000.0, 100000.0, -100000.0, 1.0e6, -1.0e6, 1.0e7, -1.0e7][..]);
    run.space("extreme elements", &[n.len(), ecc.len(), inc.len(), bs.len(), 3], |ix, ctx| {
        let a = [(0, 0, 0), (900000, 2700000, 1800000), (3000000, 450000, 2000000)][ix[4]];
        outcome(&orbit(n[ix[0]], ecc[ix[1]], inc[ix[2]], a.0, a.1, a.2, bs[ix[3]], EP), times, ctx)
    });
    // decay boundary: grazing perigee, all anomalies, both directions in time
    run.space("grazing orbits", &[run.pick(40, 120), 6, 12, 4], |ix, ctx| {
        let e = [1000i64, 50000, 500000, 2000000, 5000000, 8000000][ix[1]];
        let mut t = orbit(1_500_000_000, e, [284621, 634349, 980000, 0][ix[3]], 1000000, 2000000, 300000 * ix[2] as i64, bst(false, 20000, -3), EP);
        t.n8 = n8_at_perigee(&t, -60.0 + 3.0 * ix[0] as f64);
        outcome(&t, &[0.0, 5.0, -11.0, 45.0, 90.0, 1440.0, -1440.0, 10080.0, -10080.0], ctx)
    });
    // mean eccentricity driven out of range by drag in either direction
    run.space("drag-driven eccentricity", &[8, 7, 26], |ix, ctx| {
        let e = [0i64, 100, 999, 1001, 20000, 100000, 500000, 2000000][ix[0]];
        let b = [bst(false, 10000, -2), bst(false, 50000, -1), bst(false, 99999, 0), bst(false, 10000, 2), bst(true, 10000, -2), bst(true, 50000, -1), bst(true, 99999, 0)][ix[1]];
        let mut t = orbit(1_500_000_000, e, 516446, 1000000, 2000000, 300000, b, EP);
        t.n8 = n8_at_perigee(&t, 350.0);
        let x = 10f64.powf(0.5 + (ix[2] / 2) as f64 * 0.5);
        outcome(&t, &[if ix[2] % 2 == 0 { x } else { -x }], ctx)
    });
    // perturbed eccentricity out of range: nearly circular and nearly parabolic deep-space orbits
    run.space("perturbed eccentricity", &[8, 12, 8, 6], |ix, ctx| {
        let e = [0i64, 1, 10, 100, 1000, 9000000, 9900000, 9990000][ix[0]];
        let n = [640_000_000 - 2_000_000, 300_000_000, 200_000_000, 100_270_000, 50_000_000, 10_000_000, 3_000_000, 1_000_000][ix[2]];
        let t = orbit(n, e, [100i64, 100000, 284621, 634349, 900000, 1500000][ix[3]], 300000 * ix[1] as i64, 474722, 104117, bst(false, 10000, -3), EPOCHS[ix[1] % 8]);
        outcome(&t, &[0.0, 1440.0, -7200.0, 20000.0, -100000.0, 300000.0, -1000000.0], ctx)
    });
    // explicit initialisation reaches elements that no text can express
    let nn = [-0.05, -1e-9, 0.0, 1e-12, 0.0044, 0.0087, 0.03, 0.065, 0.0743, 0.1, 1.0, 1e3];
    let ee = [-0.5, -0.0011, -0.0009, 0.0, 1e-7, 0.1, 0.7, 0.9999999999, 1.0, 1.5];
    run.space("explicit initialisation", &[nn.len(), ee.len(), 6, 4], |ix, ctx| {
        let el = Elems {
            epoch50: 25000.25, bstar: [0.0, 1e-3, -1e-3, 5.0][ix[3]], e: ee[ix[1]], argp: 1.0,
            incl: [0.0, 0.5, 1.5707963267948966, 2.5, std::f64::consts::PI, -0.3][ix[2]], m: 2.0, n_kozai: nn[ix[0]], node: 0.5,
        };
        let mut rec = satellite::io::Satrec::zero();
        ctx.step();
        let r = init_elems(&mut rec, &el, false);
        sound(&r, &rec)?;
        let sat = Sat::new(Grav::wgs84(), el, false);
        // outside 0 <= e < 1, n > 0 the model itself is undefined: any outcome that is sound will do
        let defined = el.e >= 0.0 && el.e < 1.0 && el.n_kozai > 0.0;
        if defined {
            conforms(&sat, 0.0, &simplify(&r)).map_err(|m| format!("{:?}: {}", el, m))?;
        } else if r.is_ok() && !(el.n_kozai > 0.0) {
            return Err(format!("{:?}: accepted without a mean motion", el));
        }
        ctx.state((ix.to_vec(), 0));
        for &t in &[0.0, 10.0, -1000.0, 100000.0, -1.0e7] {
            ctx.step();
            let o = sgp4(&mut rec, t);
            sound(&o, &rec).map_err(|m| format!("{:?} t={}: {}", el, t, m))?;
            ctx.class(out_class(&simplify(&o)));
            if defined {
                conforms(&sat, t, &simplify(&o)).map_err(|m| format!("{:?}: {}", el, m))?;
            }
        }
        ctx.trace();
        Ok(())
    });
    // the model's switches on the elements themselves, from below, exactly at, and from above
    run.space("exact thresholds", &[8, 5, 3, 5, 4], |ix, ctx| {
        let step = |x: f64, k: usize| match k { 0 => x * (1.0 - 2.0 * f64::EPSILON), 1 => x, _ => x * (1.0 + 2.0 * f64::EPSILON) };
        let pi = std::f64::consts::PI;
        let e = step([1.0e-4, 0.5, 0.65, 0.7, 0.715, 0.3, 0.72, 0.0][ix[0]], ix[2]);
        let incl = step([1.1, 5.2359877e-2, pi - 5.2359877e-2, 0.2, 0.0][ix[1]], ix[2]);
        let el = Elems { epoch50: 25000.25, bstar: 1e-3, e, argp: 4.7, incl, m: 0.5, n_kozai: [0.0087, 0.00437, 0.0065, 0.02][ix[4]], node: 3.5 };
        let mut rec = satellite::io::Satrec::zero();
        ctx.step();
        let r = init_elems(&mut rec, &el, ix[3] == 4);
        let sat = Sat::new(Grav::wgs84(), el, ix[3] == 4);
        ctx.state(ix.to_vec());
        conforms(&sat, 0.0, &simplify(&r)).map_err(|m| format!("{:?}: {}", el, m))?;
        if r.is_err() { return Ok(()); }
        let t = [100.0, -1500.0, 43200.0, 525600.0, -7000.0][ix[3]];
        ctx.step();
        let o = sgp4(&mut rec, t);
        sound(&o, &rec).map_err(|m| format!("{:?} t={}: {}", el, t, m))?;
        conforms(&sat, t, &simplify(&o)).map_err(|m| format!("{:?}: {}", el, m))?;
        ctx.trace();
        Ok(())
    });
    // centuries away: the resonance integrator must come back, and the answer stays sound
    run.space("centuries", &[7, 8], |ix, ctx| {
        let t = [orbit(200_491_383, 6877146, 641586, 2790717, 2647651, 202257, Z, EP), orbit(100_270_000, 100, 500, 0, 0, 0, Z, EP), orbit(228_537_848, 7318036, 467916, 2304354, 474722, 104117, Z, EP), orbit(1_552_438_493, 2332, 516446, 505941, 1170184, 3281109, Z, EP),
            orbit(1_552_438_493, 2332, 516446, 505941, 1170184, 3281109, bst(true, 10000, -4), EP), orbit(98_870_114, 11562, 114384, 352134, 264582, 3335652, bst(false, 10000, -3), EP), orbit(205_000_000, 7200000, 1000000, 0, 900000, 0, Z, EP)][ix[0]].clone();
        let y = 525960.0 * [10.0, -10.0, 100.0, -100.0, 400.0, -400.0, 999.0, -999.0][ix[1]];
        outcome(&t, &[y], ctx)
    });
    let bases = [orbit(1_552_438_493, 2332, 516446, 505941, 1170184, 3281109, bst(false, 28282, -4), EP), orbit(1_500_000_000, 500000, 980000, 1000000, 2000000, 300000, bst(false, 50000, -1), EP), orbit(200_491_383, 6877146, 641586, 2790717, 2647651, 202257, Z, EP), orbit(100_270_000, 100, 500, 0, 0, 0, bst(false, 10000, -3), EP), orbit(20_000_000, 9000000, 284621, 900000, 474722, 104117, bst(false, 10000, -3), EP)];
    whole_ranges(run, &bases, &[0.0, 100.0, -1440.0, 20000.0, -300000.0], outcome);
}
pub fn init_elems(rec: &mut satellite::io::Satrec, el: &Elems, afspc: bool) -> ImplOut {
    use satellite::propogation::dpper::DpperOpsMode;
    use satellite::propogation::sgp4init::*;
    sgp4init(rec, SGP4InitOptions {
        opsmode: if afspc { DpperOpsMode::A } else { DpperOpsMode::I }, satn: "00001".into(), epoch: el.epoch50, xbstar: el.bstar,
        xecco: el.e, xargpo: el.argp, xinclo: el.incl, xmo: el.m, xno: el.n_kozai, xnodeo: el.node,
    })
}
/// finite state outside the Earth, or an error with the same code in the record
fn sound(o: &ImplOut, rec: &satellite::io::Satrec) -> Check {
    match o {
        Ok(r) => {
            let s = st(r);
            if s.r.iter().chain(s.v.iter()).any(|x| !x.is_finite()) {
                return Err(format!("success with non-finite components: {:?}", s));
            }
            if norm(&s.r) < 6378.137 * (1.0 - 1e-12) {
                return Err(format!("success {} km from the Earth's centre", norm(&s.r)));
            }
            if rec.error != 0 {
                return Err(format!("success, but the record's error field is {}", rec.error));
            }
        }
        Err(e) => {
            if rec.error != e.code() as u32 {
                return Err(format!("error {:?} (code {}), but the record's error field is {}", e, e.code(), rec.error));
            }
        }
    }
    Ok(())
}
fn outcome(t: &Tle, times: &[f64], ctx: &mut Ctx) -> Check {
    let sat = Sat::new(Grav::wgs84(), t.elems(), false);
    let (l1, l2) = (t.line1(), t.line2());
    let tag = |e: String| format!("{} | {}\n{}", e, l1, l2);
    let mut rec = match satellite::io::parse_satrec(&l1, &l2) {
        Ok(r) => r,
        Err(e) => return Err(tag(format!("well-formed set refused: {:?}", e))),
    };
    let el = t.elems();
    ctx.step();
    let r = init_elems(&mut rec, &el, false);
    sound(&r, &rec).map_err(tag)?;
    conforms(&sat, 0.0, &simplify(&r)).map_err(|e| tag(format!("at initialisation: {}", e)))?;
    let mut prev = simplify(&r);
    ctx.class(out_class(&prev));
    for &tt in times {
        ctx.step();
        let o = sgp4(&mut rec, tt);
        sound(&o, &rec).map_err(|e| tag(format!("t={}: {}", tt, e)))?;
        let got = simplify(&o);
        conforms(&sat, tt, &got).map_err(tag)?;
        ctx.class(out_class(&got));
        if prev.is_err() && got.is_ok() {
            ctx.class("error then success");
        }
        ctx.state((&l1, &l2, tt.to_bits()));
        ctx.outcome(hash_out(&got));
        prev = got;
    }
    ctx.trace();
    ctx.sample(|| format!("{} / {} at {:?}", l1, l2, times));
    Ok(())
}

pub fn c20(run: &mut Run) {
    run.require(&["near: perigee>=220", "deep: no resonance", "deep: 24 h resonance", "deep: 12 h resonance", "step boundary", "epoch", "contiguous arcs"]);
    let mut orbs: Vec<Tle> = named_near();
    for (n, e, i) in [(200_491_383, 6877146, 641586), (200_813_614, 7069051, 645968), (98_870_114, 11562, 114384), (100_270_000, 100, 500), (228_537_848, 7318036, 467916), (120_231_981, 1450506, 114628), (400_000_000, 20000, 30000), (500_000_000, 3000000, 1000000), (211_000_000, 5000000, 1166000), (78_000_000, 8000000, 200000), (150_000_000, 1000, 1750000)] {
        orbs.push(orbit(n, e, i, 2790717, 2647651, 202257, bst(false, 11873, -4), EPOCHS[5]));
        orbs.push(orbit(n, e, i, 100, 3599000, 3590000, Z, EPOCHS[2]));
    }
    // --- every orbit, times through whole revolutions and days, both directions
    let nt = run.pick(1200usize, 12000);
    run.space("velocity is the derivative", &[orbs.len(), nt, 2], |ix, ctx| {
        let x = 3.7 * ix[1] as f64;
        deriv(&orbs[ix[0]], if ix[2] == 0 { x } else { -x - 0.3 }, 0.01, ctx)
    });
    // --- boundaries where a piecewise model could jump: epoch, multiples of 720 min, day/turn wraps
    run.space("step boundaries", &[orbs.len(), run.pick(41, 401), 4], |ix, ctx| {
        let c = 720.0 * (ix[1] as i64 - 20) as f64;
        ctx.class(if c == 0.0 { "epoch" } else { "step boundary" });
        deriv(&orbs[ix[0]], c + [0.0, 0.004, -0.004, 1e-7][ix[2]], 0.01, ctx)
    });
    // --- shapes: eccentricity x inclination x anomaly
    run.space("shapes", &[7, 9, 24, 4], |ix, ctx| {
        let e = [0i64, 1000, 100000, 1000000, 3000000, 6000000, 7500000][ix[0]];
        let i = [0i64, 1000, 284621, 634349, 900000, 1166000, 1500000, 1790000, 1800000][ix[1]];
        let mut t = orbit(1_500_000_000, e, i, 2001234, 1059876, 150000 * ix[2] as i64, bst(false, 10000, -4), EP);
        t.n8 = n8_at_perigee(&t, [300.0, 1000.0, 6000.0, 20000.0][ix[3]]);
        if Sat::new(Grav::wgs84(), t.elems(), false).prop(0.0).is_err() {
            return Ok(());
        }
        deriv(&t, 0.0, 0.01, ctx)?;
        deriv(&t, 47.0, 0.01, ctx)
    });
    // --- no jumps: contiguous arcs covering a whole span, so that a discontinuity at any instant of
    // it lies inside an arc
    for i in [0i64, 20, 300, 5000, 114000, 114800, 116500, 1799900] {
        for (n, e) in [(150_000_000, 2000000), (100_270_000, 100), (200_491_383, 6877146), (400_000_000, 1000000)] {
            orbs.push(orbit(n, e, i, 2816931, 3000000, 600000, Z, EPOCHS[3]));
        }
    }
    let segs = run.pick(40usize, 320);
    let sats: Vec<Sat> = orbs.iter().map(|t| Sat::new(Grav::wgs84(), t.elems(), false)).collect();
    run.space("no jumps", &[orbs.len(), segs, 2], |ix, ctx| {
        let t = &orbs[ix[0]];
        // arcs of a fiftieth of a revolution, 200 to a segment
        let step = 1440.0 / (t.n8 as f64 / 1e8) / 50.0 * if ix[2] == 0 { 1.0 } else { -1.0 };
        arcs(&sats[ix[0]], t, ix[1] as f64 * 200.0 * step, step, 200, ctx)
    });
    let mut bases: Vec<Tle> = [(200_491_383, 6877146, 641586), (98_870_114, 11562, 114384), (228_537_848, 7318036, 467916), (500_000_000, 3000000, 1000000), (150_000_000, 1000, 1750000), (700_000_000, 3_500_000, 516446), (900_000_000, 100, 1166000)].iter().map(|&(n, e, i)| orbit(n, e, i, 2790717, 2647651, 1_802_257, bst(false, 11873, -4), EPOCHS[5])).collect();
    bases.extend(named_near().into_iter().take(2));
    whole_ranges(run, &bases, &[0.0, 33.3, -721.0, 2880.0], |t, ts, ctx| ts.iter().try_for_each(|&x| deriv(t, x, 0.01, ctx)));
}
/// Two states are joined by a smooth arc if chord, velocities and the central acceleration fit each
/// other; what the reference model's trajectory shows over the same arc is allowed.
fn arc_defect(a: &([f64; 3], [f64; 3]), b: &([f64; 3], [f64; 3]), s: f64) -> f64 {
    let mut d = [0.0; 3];
    let (ra, rb) = (norm(&a.0).powi(3), norm(&b.0).powi(3));
    for k in 0..3 {
        d[k] = b.0[k] - a.0[k] - 0.5 * s * (a.1[k] + b.1[k]) + s * s / 12.0 * 398600.5 * (a.0[k] / ra - b.0[k] / rb);
    }
    norm(&d)
}
fn arcs(sat: &Sat, t: &Tle, from: f64, step: f64, n: usize, ctx: &mut Ctx) -> Check {
    let (l1, l2) = (t.line1(), t.line2());
    let mut rec = match satellite::io::twoline2satrec(&l1, &l2) {
        Ok(r) => r,
        Err(e) => return Err(format!("refused: {:?} {}\n{}", e, l1, l2)),
    };
    let mut last: Option<(([f64; 3], [f64; 3]), ([f64; 3], [f64; 3]))> = None;
    for k in 0..=n {
        let tm = from + step * k as f64;
        ctx.step();
        let got = sgp4(&mut rec, tm);
        let (w, g) = match (sat.prop(tm), got) {
            (Ok(w), Ok(g)) => { let g = st(&g); ((w.r, w.v), (g.r, g.v)) }
            (Err(_), _) => { ctx.class("(skipped: model reports an error here)"); last = None; continue; }
            (Ok(_), Err(e)) => {
                conforms(sat, tm, &Err(e.code())).map_err(|m| format!("error {:?} where the model has a state: {} | {}\n{}", e, m, l1, l2))?;
                last = None;
                continue;
            }
        };
        if let Some(p) = last {
            let (dw, dg) = (arc_defect(&p.0, &w, step * 60.0), arc_defect(&p.1, &g, step * 60.0));
            if !(dg <= 1.05 * dw + 0.05) && !(dg <= 1.05 * rounded_defect(sat, dw, |s| { let (a, b) = (s.prop(tm - step).ok()?, s.prop(tm).ok()?); Some(arc_defect(&(a.r, a.v), &(b.r, b.v), step * 60.0)) }) + 0.05) {
                return Err(format!("between t={} and t={} the trajectory jumps: its ends miss a smooth arc by {:.4} km (the model's own: {:.4} km) | {}\n{}", tm - step, tm, dg, dw, l1, l2));
            }
        }
        last = Some((w, g));
    }
    ctx.class("contiguous arcs");
    ctx.state((&l1, &l2, from.to_bits()));
    ctx.trace();
    Ok(())
}
/// The model's own defect, as far as other roundings of the same arithmetic may move it (next to
/// 180 degrees of inclination they decide where the node is); infinite where they decide everything.
fn rounded_defect(sat: &Sat, plain: f64, f: impl Fn(&Sat) -> Option<f64>) -> f64 {
    let all: Vec<f64> = (1..=24).map(|k| with_roundings(k, || f(&Sat::new(sat.g, sat.el, sat.afspc))).unwrap_or(f64::INFINITY)).collect();
    let (lo, hi) = all.iter().fold((plain, plain), |(a, b), &x| (a.min(x), b.max(x)));
    hi + 20.0 * (hi - lo)
}
/// central difference of predicted positions against predicted velocity; the reference model's own
/// defect (its velocity omits small rates) bounds what is allowed, plus a margin for rounding
fn deriv(t: &Tle, tm: f64, h: f64, ctx: &mut Ctx) -> Check {
    let sat = Sat::new(Grav::wgs84(), t.elems(), false);
    let (l1, l2) = (t.line1(), t.line2());
    let mut rec = match satellite::io::twoline2satrec(&l1, &l2) {
        Ok(r) => r,
        Err(e) => {
            let code = match e { satellite::io::SatrecParseError::Sgp4InitError(ref c) => c.code(), _ => 200 };
            ctx.class("(skipped: model reports an error here)");
            return conforms(&sat, 0.0, &Err(code)).map_err(|m| format!("refused: {:?}: {} | {}\n{}", e, m, l1, l2));
        }
    };
    let (a, b, c) = (sat.prop(tm - h), sat.prop(tm), sat.prop(tm + h));
    let (a, b, c) = match (a, b, c) {
        (Ok(a), Ok(b), Ok(c)) => (a, b, c),
        _ => {
            ctx.class("(skipped: model reports an error here)");
            return Ok(());
        }
    };
    classify(&sat, ctx);
    let d = |x: &State, y: &State| [0, 1, 2].map(|k| (y.r[k] - x.r[k]) / (2.0 * h * 60.0));
    let defect_ref = dist(&d(&a, &c), &b.v);
    let mut got = vec![];
    for tt in [tm - h, tm, tm + h] {
        ctx.step();
        match sgp4(&mut rec, tt) {
            Ok(r) => got.push(st(&r)),
            Err(e) => {
                ctx.trace();
                return conforms(&sat, tt, &Err(e.code())).map_err(|m| format!("error {:?} where the model has a state: {} | {}\n{}", e, m, l1, l2));
            }
        }
    }
    let defect = dist(&d(&got[0], &got[2]), &got[1].v);
    ctx.state((&l1, &l2, tm.to_bits()));
    ctx.outcome(bits(defect));
    ctx.trace();
    ctx.sample(|| format!("t={} defect {:.2e} km/s (model's own {:.2e}) {} / {}", tm, defect, defect_ref, l1, l2));
    // an order of magnitude more than the model's own defect would not be explained by rounding
    let allowed = 1.02 * defect_ref + 2.0e-6 * (1.0 + norm(&b.r) / 40000.0);
    let rounded = || rounded_defect(&sat, defect_ref, |s| { let (a, b, c) = (s.prop(tm - h).ok()?, s.prop(tm).ok()?, s.prop(tm + h).ok()?); Some(dist(&d(&a, &c), &b.v)) });
    if !(defect <= allowed) && !(defect <= allowed + 1.02 * (rounded() - defect_ref)) {
        return Err(format!("t={}: velocity differs from the rate of change of position by {:.3e} km/s (the model's own approximation: {:.3e}) | {}\n{}", tm, defect, defect_ref, l1, l2));
    }
    Ok(())
}
