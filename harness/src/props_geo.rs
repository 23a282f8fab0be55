//! C14-C18: frames, geodesy, look angles, Doppler, angle units. Exhaustive grids with the seams
//! (poles, date line, whole turns, zenith, range ends and their floating-point neighbours).
use crate::common::*;
use crate::engine::*;
use crate::refgeo::*;
use satellite::doppler_factor::doppler_factor;
use satellite::transforms::*;
use satellite::{Bearing, Geodedic, TopoCentric, Vec3};
use std::f64::consts::{FRAC_PI_2, PI, TAU};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn v3(a: &[f64; 3]) -> Vec3 {
    Vec3 { x: a[0], y: a[1], z: a[2] }
}
fn arr(v: &Vec3) -> [f64; 3] {
    [v.x, v.y, v.z]
}
fn up(x: f64) -> f64 {
    if x == 0.0 { f64::from_bits(1) } else if x > 0.0 { f64::from_bits(x.to_bits() + 1) } else { f64::from_bits(x.to_bits() - 1) }
}
fn down(x: f64) -> f64 {
    -up(-x)
}
/// sidereal angles: every degree (or finer) over several turns both ways, seams and neighbours
fn gmsts(n: usize) -> Vec<f64> {
    let mut v: Vec<f64> = vec![0.0];
    for k in 1..=16 {
        let s = k as f64 * PI / 4.0;
        v.extend_from_slice(&[s, -s, up(s), down(s)]);
    }
    for k in 0..n {
        v.push(TAU * (k as f64 + 0.37) / n as f64);
    }
    v.extend_from_slice(&[1e-12, -1e-12, 1e-6, -1e-6, 100.0, -100.0, 63.1, -44.2]);
    v
}

/// Purity: calls whose arguments differ in one component only, alternating. A result remembered under
/// fewer arguments than it depends on comes back for the wrong call.
fn one_argument_apart(run: &mut Run, alts: &[&[f64]], point: impl Fn(&[f64], &mut Ctx) -> Check + Sync + Send) {
    let k = alts.len();
    let most = alts.iter().map(|a| a.len()).max().unwrap();
    run.space("calls one argument apart", &[1 << k, k, most, 8], |ix, ctx| {
        let (arg, alt) = (ix[1], ix[2]);
        if alt >= alts[arg].len() { return Ok(()); }
        let a: Vec<f64> = (0..k).map(|j| alts[j][(ix[0] >> j) & 1]).collect();
        let mut b = a.clone();
        b[arg] = alts[arg][alt];
        // every order of three calls
        for c in 0..3 {
            let call = if (ix[3] >> c) & 1 == 0 { &a } else { &b };
            point(call, ctx).map_err(|e| format!("call {} of {:?} and {:?} in the order {:03b} (lowest first): {}", c + 1, a, b, ix[3], e))?;
        }
        Ok(())
    });
}
/// both signs of every scale from 10^lo to 10^hi, `per` values to the decade, and zero
fn ladder(lo: i32, hi: i32, per: i32) -> Vec<f64> {
    let mut v = vec![0.0];
    for k in lo * per..=hi * per {
        let x = 10f64.powf((k as f64 + 0.31) / per as f64);
        v.push(x);
        v.push(-x);
    }
    v
}
fn spread(a: f64, b: f64, n: usize) -> Vec<f64> {
    (0..=n).map(|k| a + (b - a) * k as f64 / n as f64).collect()
}
/// No threshold hidden between the grid values: each argument alone runs through all scales and values
/// it can have, the others taking all combinations of a few; then every two arguments together.
fn whole_ranges(run: &mut Run, of: &str, fine: &[Vec<f64>], coarse: &[Vec<f64>], bases: &[&[f64]], point: impl Fn(&[f64], &mut Ctx) -> Check + Sync + Send) {
    let k = fine.len();
    let nb: usize = bases.iter().map(|b| b.len()).product();
    let base = |mut i: usize| -> Vec<f64> { bases.iter().map(|b| { let x = b[i % b.len()]; i /= b.len(); x }).collect() };
    let len: Vec<usize> = fine.iter().map(|a| a.len()).collect();
    let starts: Vec<usize> = (0..=k).map(|j| len[..j].iter().sum()).collect();
    run.space(&format!("{}: one argument through its whole range", of), &[starts[k], nb], |ix, ctx| {
        let j = (0..k).rfind(|&j| starts[j] <= ix[0]).unwrap();
        let mut a = base(ix[1]);
        a[j] = fine[j][ix[0] - starts[j]];
        point(&a, ctx)
    });
    let pairs: Vec<(usize, usize)> = (0..k).flat_map(|i| (i + 1..k).map(move |j| (i, j))).collect();
    let most = coarse.iter().map(|a| a.len()).max().unwrap();
    // every base value of each argument occurs, in step
    let nd = bases.iter().map(|b| b.len()).max().unwrap();
    run.space(&format!("{}: two arguments through their whole ranges", of), &[pairs.len(), nd, most, most], |ix, ctx| {
        let (i, j) = pairs[ix[0]];
        if ix[2] >= coarse[i].len() || ix[3] >= coarse[j].len() { return Ok(()); }
        let mut a: Vec<f64> = bases.iter().map(|b| b[ix[1] % b.len()]).collect();
        a[i] = coarse[i][ix[2]];
        a[j] = coarse[j][ix[3]];
        point(&a, ctx)
    });
}
pub fn c14(run: &mut Run) {
    run.require(&["negative angle", "several turns"]);
    let c: Vec<f64> = run.pick(vec![0.0, 1e-9, -1.0, 6378.137, -7000.123, 42164.17, -384400.0], vec![0.0, -0.0, 1e-300, 1e-9, -1e-3, 1.0, -1.0, 6378.137, -6356.75, 7000.123, -20000.5, 42164.17, 384400.0, -1.5e8]);
    let g = gmsts(run.pick(360, 3600));
    run.space("vectors x angles", &[c.len(), c.len(), c.len(), g.len()], |ix, ctx| {
        let v = [c[ix[0]], c[ix[1]], c[ix[2]]];
        c14_point(&v, g[ix[3]], ctx)
    });
    // unit circle of directions: every degree x every degree
    let n = run.pick(360usize, 1440);
    run.space("directions x angles", &[n, n, 3], |ix, ctx| {
        let a = TAU * ix[0] as f64 / n as f64;
        let v = [7000.0 * a.cos(), 7000.0 * a.sin(), [0.0, 1234.5, -6800.0][ix[2]]];
        c14_point(&v, TAU * ix[1] as f64 / n as f64, ctx)
    });
    let xs: &[f64] = &[7000.0, -1234.5, 7000.001, -7000.0, 0.0, 42164.0];
    one_argument_apart(run, &[xs, xs, xs, &[0.7, -2.0, 0.7000001, 0.7 + TAU, -0.7, 0.0, PI]], |v, ctx| c14_point(&[v[0], v[1], v[2]], v[3], ctx));
    let per = run.pick(1, 4);
    let (f, c) = (ladder(-12, 12, 16 * per), ladder(-10, 10, 3 * per));
    let (mut g, mut gc) = (ladder(-12, 5, 16 * per), ladder(-9, 4, 3 * per));
    g.extend(spread(-20.0, 20.0, 4000));
    gc.extend(spread(-7.0, 7.0, 60));
    whole_ranges(run, "vector and angle", &[f.clone(), f.clone(), f, g], &[c.clone(), c.clone(), c, gc], &[&[7000.0, 0.0, -42164.0, 0.01], &[-1234.5, 7000.0, 0.0, 1e-3], &[0.0, 6800.0, -20000.0], &[0.7, -2.0, 40.0]], |v, ctx| c14_point(&[v[0], v[1], v[2]], v[3], ctx));
}
fn c14_point(v: &[f64; 3], g: f64, ctx: &mut Ctx) -> Check {
    ctx.step();
    ctx.step();
    let f = arr(&eci_to_ecf(&v3(v), g));
    let i = arr(&ecf_to_eci(&v3(v), g));
    let n = norm(v);
    let tol = n * (1e-13 + 1e-15 * g.abs());
    let tag = |e: &str| Err(format!("vector {:?}, sidereal angle {:?}: {} (to Earth-fixed {:?}, to inertial {:?})", v, g, e, f, i));
    ctx.state((v.map(bits), bits(g)));
    ctx.outcome(f.map(bits));
    if g < 0.0 { ctx.class("negative angle"); }
    if g.abs() > TAU { ctx.class("several turns"); }
    if !(dist(&f, &rot(v, -g)) <= tol) { return tag(&format!("to Earth-fixed should be {:?}", rot(v, -g))); }
    if !(dist(&i, &rot(v, g)) <= tol) { return tag(&format!("to inertial should be {:?}", rot(v, g))); }
    if !((norm(&f) - n).abs() <= tol && (norm(&i) - n).abs() <= tol) { return tag("length changed"); }
    if f[2] != v[2] || i[2] != v[2] { return tag("polar component changed"); }
    let a = arr(&ecf_to_eci(&v3(&f), g));
    let b = arr(&eci_to_ecf(&v3(&i), g));
    if !(dist(&a, v) <= tol && dist(&b, v) <= tol) { return tag(&format!("there and back gives {:?} and {:?}", a, b)); }
    ctx.trace();
    Ok(())
}

const D: f64 = PI / 180.0;
fn lats(n: usize) -> Vec<f64> {
    let mut v: Vec<f64> = vec![FRAC_PI_2, -FRAC_PI_2, down(FRAC_PI_2), up(-FRAC_PI_2), 0.0, 1e-12, -1e-12, 1e-6, -1e-6];
    for k in 1..9 {
        v.push(FRAC_PI_2 - 10f64.powi(-k));
        v.push(-FRAC_PI_2 + 10f64.powi(-k));
    }
    for k in 0..=n {
        v.push(-FRAC_PI_2 + PI * k as f64 / n as f64);
    }
    v.into_iter().filter(|x| x.abs() <= FRAC_PI_2).collect()
}
fn lons(n: usize) -> Vec<f64> {
    let mut v = vec![0.0, PI, -PI, down(PI), up(-PI), FRAC_PI_2, -FRAC_PI_2, 1e-12, -1e-12];
    for k in 0..n {
        v.push(-PI + TAU * (k as f64 + 0.5) / n as f64);
    }
    v
}
pub fn c15(run: &mut Run) {
    run.require(&["pole", "near pole", "date line", "below sea level", "beyond geostationary", "several turns", "on the axis", "close to the axis"]);
    let la = lats(run.pick(90, 360));
    let lo = lons(run.pick(24, 72));
    let hs: &[f64] = run.pick(&[0.0, -0.4, -10.9, 0.37, 420.0, 20200.0, 35786.0, 384400.0][..], &[0.0, -0.001, -0.4, -10.9, 0.37, 8.848, 100.0, 420.0, 2000.0, 20200.0, 35786.0, 60000.0, 384400.0][..]);
    let g: Vec<f64> = run.pick(vec![0.0, 1.0, PI, 4.5, TAU, -2.0, 15.7, -31.0], vec![0.0, 1e-9, 1.0, FRAC_PI_2, PI, up(PI), 4.5, 6.2831853, TAU, -1e-9, -2.0, -PI, -TAU, 9.42477796076938, 15.7, -31.0, 100.0]);
    run.space("latitude x longitude x height x angle", &[la.len(), lo.len(), hs.len(), g.len()], |ix, ctx| c15_point(la[ix[0]], lo[ix[1]], hs[ix[2]], g[ix[3]], ctx));
    // every tenth of a degree of latitude, finely in height
    let nh = run.pick(60usize, 400);
    let nl = run.pick(1800usize, 18000);
    run.space("fine latitude x height", &[nl + 1, nh], |ix, ctx| {
        let h = -11.0 + 50.0 * ((ix[1] as f64 / nh as f64 * 9.0).exp() - 1.0);
        c15_point(-FRAC_PI_2 + PI * ix[0] as f64 / nl as f64, 2.5, h, 0.7, ctx)
    });
    // Cartesian points on and around the axis, and a grid of them
    let small = [0.0, 1e-320, 1e-300, 1e-160, 1e-100, 1e-20, 1e-16, 1e-14, 1e-12, 1e-10, 1e-9, 1e-8, 1e-7, 1e-6, 1e-5, 1e-4, 1e-3, 1e-2, 0.1, 1.0, 10.0];
    run.space("around the axis", &[2 * small.len(), 2 * small.len(), 2, hs.len(), g.len()], |ix, ctx| {
        let s = |i: usize| if i % 2 == 1 { -small[i / 2] } else { small[i / 2] };
        let z = 6356.7523142 + hs[ix[3]];
        c15_back(&[s(ix[0]), s(ix[1]), if ix[2] == 0 { z } else { -z }], g[ix[4]], ctx)
    });
    let cs: Vec<f64> = { let n = run.pick(8i32, 20); let mut v = vec![0.0, -0.0, 1e-7, -1e-7]; for k in 1..=n { let x = 300.0 * (42164.0f64 / 300.0).powf(k as f64 / n as f64); v.push(x); v.push(-x); } v };
    run.space("Cartesian grid", &[cs.len(), cs.len(), cs.len(), g.len()], |ix, ctx| c15_back(&[cs[ix[0]], cs[ix[1]], cs[ix[2]]], g[ix[3]], ctx));
    one_argument_apart(run, &[&[0.64, -1.2, 0.6400001, -0.64, 0.0, FRAC_PI_2], &[-2.1, 2.6, -2.1000001, 2.1, 0.0, PI], &[0.37, 420.0, 0.371, -0.37, 0.0, 35786.0], &[0.7, 4.5, 0.7000001, -0.7, 0.0, 20.0]], |v, ctx| c15_point(v[0], v[1], v[2], v[3], ctx));
    let per = run.pick(1, 4);
    let angles = |n: usize, per: i32, top: i32| { let mut v = spread(-3.0 * PI, 3.0 * PI, n); v.extend(ladder(-10, top, per)); v };
    let lat = |n: usize, per: i32| { let mut v = spread(-FRAC_PI_2, FRAC_PI_2, n); v.extend(ladder(-10, 0, per).into_iter().filter(|x| x.abs() <= FRAC_PI_2)); v };
    let height = |n: usize, per: i32| { let mut v = spread(-11.0, 100.0, n); v.extend(ladder(-9, 6, per).into_iter().filter(|x| *x >= -11.0)); v };
    whole_ranges(run, "latitude, longitude, height, angle", &[lat(3600, 16 * per), angles(4320, 16 * per, 2), height(1110, 24 * per), angles(4320, 16 * per, 4)], &[lat(36, 2), angles(108, 2, 1), height(24, 3 * per), angles(108, 2, 3)],
        &[&[0.64, -1.2, 0.0, FRAC_PI_2], &[-2.1, 2.6, 0.0], &[0.37, 420.0, 35786.0], &[0.7, -4.5, 0.0]], |v, ctx| c15_point(v[0], v[1], v[2], v[3], ctx));
    let (f, c) = (ladder(-9, 6, 16 * per), ladder(-8, 5, 3 * per));
    whole_ranges(run, "Cartesian", &[f.clone(), f.clone(), f, angles(4320, 16 * per, 4)], &[c.clone(), c.clone(), c, angles(54, 2, 3)], &[&[7000.0, 0.0, -42164.0, 1e-3], &[-1234.5, 7000.0, 0.0], &[0.0, 6800.0, -20000.0], &[0.7, -4.5, 0.0]], |v, ctx| c15_back(&[v[0], v[1], v[2]], v[3], ctx));
    // longitude seams: every longitude x every sidereal angle, degree by degree
    let nd = run.pick(360usize, 1440);
    run.space("longitude x sidereal angle", &[nd, nd, 2], |ix, ctx| c15_point([0.9, -1.2][ix[2]], -PI + TAU * ix[0] as f64 / nd as f64, 500.0, TAU * ix[1] as f64 / nd as f64, ctx));
}
/// a Cartesian point: its geodetic coordinates must lead back to it
fn c15_back(v: &[f64; 3], g: f64, ctx: &mut Ctx) -> Check {
    let r = norm(v);
    if r < 6300.0 { return Ok(()); }
    ctx.step();
    let b = eci_to_geodedic(&v3(v), g);
    ctx.state((v.map(bits), bits(g)));
    ctx.outcome((bits(b.latitude), bits(b.longitude), bits(b.height)));
    let tag = |e: &str| Err(format!("inertial {:?} at sidereal angle {:?} becomes {:?}: {}", v, g, b, e));
    if !(b.longitude.abs() <= PI + 1e-12 && b.latitude.abs() <= FRAC_PI_2 + 1e-12) { return tag("out of range"); }
    let w = to_ecf(b.latitude, b.longitude, b.height);
    let e = rot(v, -g);
    if !(dist(&w, &e) <= 1e-6 + (1e-11 + 2e-15 * g.abs() + 2e-17 * g * g) * r) { return tag(&format!("that is the point {:?}, not {:?}", w, e)); }
    let p = v[0].hypot(v[1]);
    if p == 0.0 { ctx.class("on the axis"); } else if p < 1e-3 { ctx.class("close to the axis"); }
    ctx.trace();
    Ok(())
}
fn c15_point(lat: f64, lon: f64, h: f64, g: f64, ctx: &mut Ctx) -> Check {
    ctx.step();
    let gd = Geodedic { latitude: lat, longitude: lon, height: h };
    let e = arr(&geodedic_to_ecf(&gd));
    let w = to_ecf(lat, lon, h);
    let r = norm(&w);
    ctx.state((bits(lat), bits(lon), bits(h), bits(g)));
    if !(dist(&e, &w) <= 1e-9 + 1e-12 * r) {
        return Err(format!("geodedic_to_ecf({:?}) = {:?}, WGS-84 gives {:?}", gd, e, w));
    }
    let eci = rot(&w, g);
    ctx.step();
    let b = eci_to_geodedic(&v3(&eci), g);
    ctx.outcome((bits(b.latitude), bits(b.longitude)));
    let tag = |e: &str| Err(format!("{:?} seen at sidereal angle {:?} (inertial {:?}) comes back as {:?}: {}", gd, g, eci, b, e));
    if !(b.longitude.abs() <= PI + 1e-12 && b.latitude.abs() <= FRAC_PI_2 + 1e-12) { return tag("out of range"); }
    if !((b.latitude - lat).abs() <= 1e-10) { return tag("latitude"); }
    if !((b.height - h).abs() <= 1e-6 + 1e-11 * r) { return tag("height"); }
    // longitude, as displacement: meaningless at the pole itself
    let p = w[0].hypot(w[1]);
    if p > 1e-6 && !(angle_diff(b.longitude, lon) <= 1e-11 + 2e-15 * g.abs() + 2e-17 * g * g + 1e-11 / p) { return tag("longitude"); }
    if p < 1e-6 { ctx.class("pole"); } else if p < 10.0 { ctx.class("near pole"); }
    if lon.abs() > PI - 1e-9 { ctx.class("date line"); }
    if h < 0.0 { ctx.class("below sea level"); }
    if h > 36000.0 { ctx.class("beyond geostationary"); }
    if g.abs() > TAU { ctx.class("several turns"); }
    ctx.trace();
    Ok(())
}

pub fn c16(run: &mut Run) {
    run.require(&["zenith", "nadir", "horizon", "observer at pole", "due north", "below horizon"]);
    let la: Vec<f64> = run.pick(vec![90.0, 89.9999, 60.0, 36.9613422, 0.0, -1e-7, -33.9, -90.0], vec![90.0, 89.9999, 75.0, 60.0, 45.0, 36.9613422, 23.4, 1e-9, 0.0, -1e-7, -15.0, -33.9, -66.6, -89.0, -90.0]);
    let lo: Vec<f64> = run.pick(vec![0.0, 180.0, -180.0, 90.0, -90.0, -122.0308, 151.2, 359.0], vec![0.0, 1e-9, 180.0, -180.0, 179.9999999, 90.0, -90.0, 45.0, -135.0, -122.0308, 151.2, 77.7, 359.0]);
    let hs = [0.0, 0.37, -0.4, 8.8, 400.0];
    // satellites by direction and distance from the observer
    let az: Vec<f64> = { let n = run.pick(24, 72); let mut v: Vec<f64> = (0..n).map(|k| TAU * k as f64 / n as f64).collect(); v.extend_from_slice(&[1e-9, TAU - 1e-9, PI - 1e-9, PI + 1e-9]); v };
    let el: Vec<f64> = vec![90.0, 89.999999, 89.0, 60.0, 45.0, 30.0, 5.0, 0.001, 0.0, -0.001, -10.0, -45.0, -89.9, -90.0];
    let rg: &[f64] = run.pick(&[1e-3, 1.0, 800.0, 36000.0, 400000.0][..], &[1e-6, 1e-3, 1.0, 50.0, 800.0, 5703.24, 36000.0, 400000.0, 1.5e8][..]);
    run.space("observers x directions", &[la.len(), lo.len(), hs.len(), az.len(), el.len(), rg.len()], |ix, ctx| {
        let (a, e, r) = (az[ix[3]], el[ix[4]] * D, rg[ix[5]]);
        let (lat, lon, h) = (la[ix[0]] * D, lo[ix[1]] * D, hs[ix[2]]);
        let o = to_ecf(lat, lon, h);
        let f = sez(lat, lon);
        let (s, ee, u) = (-r * e.cos() * a.cos(), r * e.cos() * a.sin(), r * e.sin());
        let mut sat = [0.0; 3];
        for k in 0..3 { sat[k] = o[k] + s * f[0][k] + ee * f[1][k] + u * f[2][k]; }
        c16_point(lat, lon, h, &sat, ctx)
    });
    // satellites on an absolute grid, including through the Earth
    let c: Vec<f64> = run.pick(vec![0.0, 3000.0, -5995.2, 7000.0, -42164.0], vec![0.0, -0.0, 1.0, 3000.0, -3000.0, 5995.2, -5995.2, 7000.0, -26000.0, 42164.0, -42164.0]);
    run.space("observers x positions", &[la.len(), lo.len(), hs.len(), c.len(), c.len(), c.len()], |ix, ctx| {
        c16_point(la[ix[0]] * D, lo[ix[1]] * D, hs[ix[2]], &[c[ix[3]], c[ix[4]], c[ix[5]]], ctx)
    });
    // every degree of azimuth and elevation
    let n = run.pick(1usize, 4);
    run.space("every degree of the sky", &[360 * n, 180 * n + 1, 3], |ix, ctx| {
        let (a, e, r) = (ix[0] as f64 / n as f64 * D, (ix[1] as f64 / n as f64 - 90.0) * D, 1234.5);
        let (lat, lon, h) = [(0.64, -2.1, 0.37), (-0.7, 2.6, 0.1), (0.0, 0.0, 0.0)][ix[2]];
        let o = to_ecf(lat, lon, h);
        let f = sez(lat, lon);
        let (s, ee, u) = (-r * e.cos() * a.cos(), r * e.cos() * a.sin(), r * e.sin());
        let mut sat = [0.0; 3];
        for k in 0..3 { sat[k] = o[k] + s * f[0][k] + ee * f[1][k] + u * f[2][k]; }
        c16_point(lat, lon, h, &sat, ctx)
    });
    let xs: &[f64] = &[-5995.2, 7000.0, -5995.201, 5995.2, 0.0, 42164.0];
    one_argument_apart(run, &[&[0.64, -1.2, 0.6400001, -0.64, 0.0, FRAC_PI_2], &[-2.1, 2.6, -2.1000001, 2.1, 0.0, PI], &[0.37, 0.0, 0.371, -0.37, 400.0], xs, xs, xs], |v, ctx| c16_point(v[0], v[1], v[2], &[v[3], v[4], v[5]], ctx));
    let per = run.pick(1, 4);
    let angles = |n: usize, per: i32| { let mut v = spread(-1.5 * TAU, 1.5 * TAU, n); v.extend(ladder(-10, 0, per)); v };
    let lat = |n: usize, per: i32| { let mut v = spread(-FRAC_PI_2, FRAC_PI_2, n); v.extend(ladder(-10, 0, per).into_iter().filter(|x| x.abs() <= FRAC_PI_2)); v };
    let height = |n: usize, per: i32| { let mut v = spread(-1.0, 10.0, n); v.extend(ladder(-9, 6, per).into_iter().filter(|x| *x >= -11.0)); v };
    let (f, c) = (ladder(-9, 8, 16 * per), ladder(-3, 6, 2 * per));
    whole_ranges(run, "observer and position", &[lat(3600, 16 * per), angles(5760, 16 * per), height(1100, 24 * per), f.clone(), f.clone(), f], &[lat(36, 1), angles(72, 1), height(22, 2 * per), c.clone(), c.clone(), c],
        &[&[0.64, -1.2, 0.0, FRAC_PI_2], &[-2.1, 2.6, 0.0], &[0.37, 0.0, 420.0], &[-5995.2, 7000.0, 0.0], &[7000.0, 1.0, -2300.0], &[2300.0, -42164.0, 0.0]], |v, ctx| c16_point(v[0], v[1], v[2], &[v[3], v[4], v[5]], ctx));
    // the same with the satellite given by its south, east and up components, or by direction and distance
    let local = |lat: f64, lon: f64, h: f64, w: [f64; 3], ctx: &mut Ctx| -> Check {
        let (o, f) = (to_ecf(lat, lon, h), sez(lat, lon));
        let mut sat = [0.0; 3];
        for k in 0..3 { sat[k] = o[k] + w[0] * f[0][k] + w[1] * f[1][k] + w[2] * f[2][k]; }
        c16_point(lat, lon, h, &sat, ctx)
    };
    let (f, c) = (ladder(-6, 7, 16 * per), ladder(-3, 6, 3 * per));
    let who: &[[f64; 3]] = &[[0.64, -2.1, 0.37], [-1.2, 2.6, 0.0], [0.0, 0.0, 2.5]];
    whole_ranges(run, "south, east, up", &[vec![0.0, 1.0, 2.0], f.clone(), f.clone(), f.clone()], &[vec![0.0, 1.0, 2.0], c.clone(), c.clone(), c], &[&[0.0, 1.0, 2.0], &[900.0, 0.0, -3.0], &[-1.0, 5000.0, 0.0], &[400.0, -3.0, 20000.0]], |v, ctx| { let o = who[v[0] as usize]; local(o[0], o[1], o[2], [v[1], v[2], v[3]], ctx) });
    whole_ranges(run, "direction and distance", &[vec![0.0, 1.0, 2.0], spread(0.0, TAU, 3600), spread(-FRAC_PI_2, FRAC_PI_2, 3600), f], &[vec![0.0, 1.0, 2.0], spread(0.0, TAU, 180), spread(-FRAC_PI_2, FRAC_PI_2, 90), ladder(-3, 6, 8 * per)], &[&[0.0, 1.0, 2.0], &[0.7, 2.0, 4.0, 5.5], &[0.1, 1.5, -0.3], &[1234.5, 36000.0, 3.0]], |v, ctx| {
        let (o, r) = (who[v[0] as usize], v[3].abs());
        local(o[0], o[1], o[2], [-r * v[2].cos() * v[1].cos(), r * v[2].cos() * v[1].sin(), r * v[2].sin()], ctx)
    });
    // the angle step alone
    let f = ladder(-10, 8, 16 * per);
    whole_ranges(run, "components", &[f.clone(), f.clone(), f], &[ladder(-10, 7, 4 * per), ladder(-10, 7, 4 * per), ladder(-10, 7, 4 * per)], &[&[900.0, 0.0, -3.0], &[-1.0, 5000.0, 0.0], &[400.0, -3.0, 20000.0]], |v, ctx| {
        let v = [v[0], v[1], v[2]];
        if norm(&v) == 0.0 { return Ok(()); }
        ctx.step();
        let b = topocentric_to_look_angles(&TopoCentric { top_s: v[0], top_e: v[1], top_z: v[2] });
        ctx.state(v.map(bits));
        angles_of(&v, 0.0, &b).map_err(|e| format!("topocentric {:?}: {} ({:?})", v, e, b))
    });
    let t = [0.0, -0.0, 1e-12, -1e-12, 1.0, -1.0, 918.4, -5154.1, 42000.0, -42000.0, 3e5];
    run.space("topocentric components", &[t.len(), t.len(), t.len()], |ix, ctx| {
        let v = [t[ix[0]], t[ix[1]], t[ix[2]]];
        if norm(&v) == 0.0 { return Ok(()); }
        ctx.step();
        let b = topocentric_to_look_angles(&TopoCentric { top_s: v[0], top_e: v[1], top_z: v[2] });
        ctx.state(v.map(bits));
        angles_of(&v, 0.0, &b).map_err(|e| format!("topocentric {:?}: {} ({:?})", v, e, b))
    });
}
/// `err` bounds the rounding already in the components (km)
fn angles_of(v: &[f64; 3], err: f64, b: &Bearing) -> Check {
    let r = norm(v);
    let hor = v[0].hypot(v[1]);
    if !((b.range - r).abs() <= err + 1e-13 * r) { return Err(format!("range should be {}", r)); }
    let e = v[2].atan2(hor);
    // near the zenith an arcsine loses half the digits
    let slack = err / r + (1e-15 / (hor / r).max(3e-8)).max(1e-13) * 4.0;
    if !((b.elevation - e).abs() <= slack) { return Err(format!("elevation should be {}", e)); }
    if !(b.elevation.abs() <= FRAC_PI_2 + 1e-12) { return Err("elevation out of range".into()); }
    if !(b.azimuth >= -1e-12 && b.azimuth <= TAU + 1e-12) { return Err("azimuth out of range".into()); }
    if hor > 2.0 * err && hor > 0.0 {
        let a = v[1].atan2(-v[0]);
        if !(angle_diff(b.azimuth, a) <= 1e-12 + 2.0 * err / hor) { return Err(format!("azimuth should be {}", a.rem_euclid(TAU))); }
    }
    // reconstruction
    let (sa, ca) = b.azimuth.sin_cos();
    let (se, ce) = b.elevation.sin_cos();
    let g = [-b.range * ce * ca, b.range * ce * sa, b.range * se];
    if !(dist(&g, v) <= 3.0 * err + 1e-7 * r) { return Err(format!("angles reconstruct to {:?}, should be {:?}", g, v)); }
    Ok(())
}
fn c16_point(lat: f64, lon: f64, h: f64, sat: &[f64; 3], ctx: &mut Ctx) -> Check {
    let og = Geodedic { latitude: lat, longitude: lon, height: h };
    let off = sub(sat, &to_ecf(lat, lon, h));
    let f = sez(lat, lon);
    let w = [dot(&off, &f[0]), dot(&off, &f[1]), dot(&off, &f[2])];
    // rounding of positions of that size
    let err = 2e-15 * (norm(sat) + 6400.0) * 4.0;
    if norm(&w) < 100.0 * err { return Ok(()); }
    ctx.step();
    ctx.step();
    let t = topocentric(&og, &v3(sat));
    let b = ecf_to_look_angles(&og, &v3(sat));
    ctx.state((bits(lat), bits(lon), bits(h), sat.map(bits)));
    ctx.outcome((bits(b.azimuth), bits(b.elevation)));
    let got = [t.top_s, t.top_e, t.top_z];
    let tag = |e: String| format!("observer {:?}, satellite {:?}: {} (topocentric {:?}, {:?})", og, sat, e, t, b);
    if !(dist(&got, &w) <= err + 1e-12 * norm(&w)) {
        return Err(tag(format!("south, east, up should be {:?}", w)));
    }
    angles_of(&w, err * 2.0 + 1e-12 * norm(&w), &b).map_err(tag)?;
    let hor = w[0].hypot(w[1]);
    if hor < 1e-6 * norm(&w) { ctx.class(if w[2] > 0.0 { "zenith" } else { "nadir" }); }
    if w[2].abs() < 1e-4 * norm(&w) { ctx.class("horizon"); }
    if w[2] < 0.0 { ctx.class("below horizon"); }
    if lat.abs() > FRAC_PI_2 - 1e-9 { ctx.class("observer at pole"); }
    if w[1].abs() < 1e-9 * hor && w[0] < 0.0 { ctx.class("due north"); }
    ctx.trace();
    Ok(())
}

pub fn c17(run: &mut Run) {
    run.require(&["approaching", "receding", "crossing"]);
    let loc: Vec<[f64; 3]> = vec![[0.0, 0.0, 0.0], [6378.137, 0.0, 0.0], [-2700.0, -4290.0, 3855.0], [0.0, 0.0, -6356.75], [1234.5, -6000.0, 2000.0], [-4646.0, 2553.0, -3534.0]];
    let c: Vec<f64> = run.pick(vec![0.0, 2328.957, -5995.219, 7000.0, -42164.0], vec![0.0, 1.0, 2328.957, 1720.0, -5995.219, 6378.137, 7000.0, -7000.0, 20000.0, -42164.0, 384400.0]);
    let v: Vec<f64> = run.pick(vec![0.0, 7.5, -7.5, 1e-3, -3.07, 11.0], vec![0.0, 1e-9, -1e-9, 1e-3, -1e-3, 1.0, -3.07, 7.5, -7.5, 11.0, -11.0]);
    run.space("observers x positions x velocities", &[loc.len(), c.len(), c.len(), c.len(), v.len(), v.len(), v.len()], |ix, ctx| {
        let p = [c[ix[1]], c[ix[2]], c[ix[3]]];
        let w = [v[ix[4]], v[ix[5]], v[ix[6]]];
        doppler(&loc[ix[0]], &p, &w, ctx)
    });
    // along the line of sight and across it, every degree
    run.space("velocity directions", &[loc.len(), 360, 181, 3], |ix, ctx| {
        let (a, e) = (ix[1] as f64 * D, (ix[2] as f64 - 90.0) * D);
        let s = [7.7, 3.07, 0.05][ix[3]];
        doppler(&loc[ix[0]], &[-5995.2, 2328.9, 1720.0], &[s * e.cos() * a.cos(), s * e.cos() * a.sin(), s * e.sin()], ctx)
    });
    let xs: &[f64] = &[-5995.2, 2328.9, -5995.201, 5995.2, 0.0];
    let vs: &[f64] = &[7.5, -3.07, 7.501, -7.5, 0.0];
    one_argument_apart(run, &[xs, xs, xs, xs, xs, xs, vs, vs, vs], |v, ctx| doppler(&[v[0], v[1], v[2]], &[v[3], v[4], v[5]], &[v[6], v[7], v[8]], ctx));
    let per = run.pick(1, 4);
    let (x, w) = (ladder(-9, 7, 16 * per), ladder(-9, 3, 16 * per));
    let (xc, wc) = (ladder(-3, 6, 2 * per), ladder(-6, 2, 2 * per));
    let at: &[f64] = &[-5995.2, 2328.9, 0.0];
    let of: &[f64] = &[-2700.0, 6378.137, 0.0];
    let ws: &[f64] = &[7.5, -0.4, 0.0];
    let bs: [&[f64]; 9] = [&[-2700.0], &of[1..2], of, at, &at[..2], at, &ws[..2], ws, ws];
    whole_ranges(run, "observer, position, velocity", &[x.clone(), x.clone(), x.clone(), x.clone(), x.clone(), x, w.clone(), w.clone(), w], &[xc.clone(), xc.clone(), xc.clone(), xc.clone(), xc.clone(), xc, wc.clone(), wc.clone(), wc], &bs, |v, ctx| doppler(&[v[0], v[1], v[2]], &[v[3], v[4], v[5]], &[v[6], v[7], v[8]], ctx));
    // by distance, speed and the angle between them
    let (r, sp) = (ladder(-6, 7, 16 * per), ladder(-9, 3, 16 * per));
    whole_ranges(run, "distance, speed, angle", &[vec![0.0, 1.0, 2.0], r.clone(), sp.clone(), spread(0.0, TAU, 3600)], &[vec![0.0, 1.0, 2.0], ladder(-4, 6, 8 * per), ladder(-6, 3, 8 * per), spread(0.0, TAU, 180)], &[&[0.0, 1.0, 2.0], &[1234.5, 3.0, 36000.0], &[7.5, 0.01, 60.0], &[0.0, 0.5, 1.57, 3.0, 4.5]], |v, ctx| {
        let l = loc[1 + v[0] as usize];
        // two directions at right angles
        let (d, q) = ([0.6, 0.0, 0.8], [0.0, -1.0, 0.0]);
        let (s, c) = v[3].sin_cos();
        let (mut p, mut w) = ([0.0; 3], [0.0; 3]);
        for k in 0..3 { p[k] = l[k] + v[1] * d[k]; w[k] = v[2] * (c * d[k] + s * q[k]); }
        doppler(&l, &p, &w, ctx)
    });
    // vector operations
    let q: Vec<f64> = vec![0.0, -0.0, 1e-9, 1.0, -1.0, 3.5, -6378.137, 42164.17, 1e8, -1e-3];
    let n = q.len();
    run.space("vector operations", &[n, n, n, n, n, n], |ix, ctx| {
        let a = [q[ix[0]], q[ix[1]], q[ix[2]]];
        let b = [q[ix[3]], q[ix[4]], q[ix[5]]];
        ctx.step();
        let (s, d) = (arr(&v3(&a).add(&v3(&b))), arr(&v3(&a).subtract(&v3(&b))));
        for k in 0..3 {
            if s[k] != a[k] + b[k] || d[k] != a[k] - b[k] {
                return Err(format!("{:?} and {:?}: sum {:?}, difference {:?}", a, b, s, d));
            }
        }
        let (r1, r2) = (v3(&a).range(&v3(&b)), v3(&b).range(&v3(&a)));
        let w = dist(&a, &b);
        if !((r1 - w).abs() <= 1e-14 * w && (r2 - w).abs() <= 1e-14 * w) {
            return Err(format!("range between {:?} and {:?}: {} and {}, should be {}", a, b, r1, r2, w));
        }
        if ix[0] == ix[3] { ctx.state((a.map(bits), b.map(bits))); }
        ctx.trace();
        Ok(())
    });
}
fn doppler(l: &[f64; 3], p: &[f64; 3], v: &[f64; 3], ctx: &mut Ctx) -> Check {
    ctx.step();
    let f = doppler_factor(v3(l), v3(p), v3(v));
    let next = [p[0] + v[0], p[1] + v[1], p[2] + v[2]];
    let (r0, r1) = (dist(p, l), dist(&next, l));
    let w = 1.0 - (r1 - r0) / 299792.458;
    ctx.state((l.map(bits), p.map(bits), v.map(bits)));
    ctx.outcome(bits(f));
    // rounding of the two distances
    let tol = 1e-15 + 4e-15 * (1.0 + r0) / 299792.458 + 4e-16;
    if !((f - w).abs() <= tol) {
        return Err(format!("observer {:?}, satellite {:?}, velocity {:?}: factor {:?}, should be {:?}", l, p, v, f, w));
    }
    let d = r1 - r0;
    ctx.class(if d < -1e-6 { "approaching" } else if d > 1e-6 { "receding" } else { "crossing" });
    if (d < -1e-6 && f <= 1.0) || (d > 1e-6 && f >= 1.0) {
        return Err(format!("observer {:?}, satellite {:?}, velocity {:?}: distance changes by {} km but factor is {:?}", l, p, v, d, f));
    }
    ctx.trace();
    Ok(())
}

type Conv = fn(f64) -> f64;
/// Some(value) or None when refused (panic, or not a number)
fn call(f: Conv, x: f64) -> Option<f64> {
    catch_unwind(AssertUnwindSafe(|| f(x))).ok().filter(|y| !y.is_nan())
}
pub fn c18(run: &mut Run) {
    run.require(&["endpoint", "accepted", "refused", "just outside"]);
    // --- linear, inverse
    let n = run.pick(2_000_001usize, 20_000_001);
    run.space("plain conversions, dense", &[n], |ix, ctx| {
        plain((ix[0] as f64 - (n / 2) as f64) * (2000.0 / n as f64), ctx)
    });
    run.space("plain conversions, every binary scale", &[2, 2046, 16], |ix, ctx| {
        let x = f64::from_bits(((ix[1] as u64 + 1) << 52) | ((ix[2] as u64) << 48) | ix[2] as u64);
        let x = if ix[0] == 0 { x } else { -x };
        if x.abs() > 1e300 || x.abs() < 1e-290 { return Ok(()); }
        plain(x, ctx)
    });
    // --- ranges
    let fns: &[(&str, Conv, f64, f64)] = &[
        ("degrees_lat", degrees_lat, FRAC_PI_2, 180.0 / PI), ("degrees_long", degrees_long, PI, 180.0 / PI),
        ("radians_lat", radians_lat, 90.0, PI / 180.0), ("radians_long", radians_long, 180.0, PI / 180.0),
    ];
    run.space("range ends and neighbours", &[4, 2, 2001], |ix, ctx| {
        let (n, f, lim, k) = fns[ix[0]];
        let mut x = lim;
        let s = ix[2] as i64 - 1000;
        x = f64::from_bits((x.to_bits() as i64 + s) as u64);
        if ix[1] == 1 { x = -x; }
        if s == 0 { ctx.class("endpoint"); }
        if s == 1 { ctx.class("just outside"); }
        ranged(n, f, lim, k, x, ctx)
    });
    let m = run.pick(200_000usize, 2_000_000);
    run.space("whole range", &[4, m + 1], |ix, ctx| {
        let (n, f, lim, k) = fns[ix[0]];
        ranged(n, f, lim, k, lim * (2.0 * ix[1] as f64 / m as f64 - 1.0), ctx)
    });
    run.space("outside", &[4, 2, 2000], |ix, ctx| {
        let (n, f, lim, k) = fns[ix[0]];
        // every scale from just outside to infinity
        let x = if ix[2] == 1999 { f64::INFINITY } else { lim * (1.0 + 1e-15 * 1.4f64.powi(ix[2] as i32)) };
        ranged(n, f, lim, k, if ix[1] == 1 { -x } else { x }, ctx)
    });
    run.space("typical values", &[4, 2, 1000], |ix, ctx| {
        let (n, f, lim, k) = fns[ix[0]];
        let x = ix[2] as f64 * 0.5;
        ranged(n, f, lim, k, if ix[1] == 1 { -x } else { x }, ctx)
    });
    run.space("tiny values", &[4, 2, 300], |ix, ctx| {
        let (n, f, lim, k) = fns[ix[0]];
        let x = 10f64.powi(-(ix[2] as i32));
        ranged(n, f, lim, k, if ix[1] == 1 { -x } else { x }, ctx)
    });
}
fn plain(x: f64, ctx: &mut Ctx) -> Check {
    ctx.step();
    ctx.step();
    let (d, r) = (radians_to_degrees(x), degrees_to_radians(x));
    let tol = 2e-15;
    let near = |a: f64, b: f64| (a - b).abs() <= tol * b.abs();
    ctx.state(bits(x));
    if !near(d, x * (180.0 / PI)) || !near(r, x * (PI / 180.0)) {
        return Err(format!("{:?}: to degrees {:?}, to radians {:?}", x, d, r));
    }
    if !near(degrees_to_radians(d), x) || !near(radians_to_degrees(r), x) {
        return Err(format!("{:?}: there and back {:?}, {:?}", x, degrees_to_radians(d), radians_to_degrees(r)));
    }
    ctx.trace();
    Ok(())
}
fn ranged(n: &str, f: Conv, lim: f64, k: f64, x: f64, ctx: &mut Ctx) -> Check {
    ctx.step();
    let got = call(f, x);
    ctx.state((n, bits(x)));
    ctx.outcome((n, got.map(bits)));
    if x.abs() <= lim {
        ctx.class("accepted");
        match got {
            Some(y) if (y - x * k).abs() <= 2e-15 * (x * k).abs() => {}
            _ => return Err(format!("{}({:?}) = {:?}, should be {:?}", n, x, got, x * k)),
        }
    } else {
        ctx.class("refused");
        if let Some(y) = got {
            return Err(format!("{}({:?}) = {:?} although the value lies outside the documented range", n, x, y));
        }
    }
    ctx.trace();
    Ok(())
}
