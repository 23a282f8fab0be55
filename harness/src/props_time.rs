//! C07, C12, C13, C22: instants. Exhaustive sweeps of calendar and clock against integer arithmetic.
use crate::common::*;
use crate::engine::*;
use crate::props_hist::{kinds, load};
use crate::props_sgp::*;
use crate::refgeo;
use crate::refsgp4::*;
use crate::reftime::*;
use crate::tle::*;
use chrono::{DateTime, TimeZone, Utc};
use satellite::ext::{days2mdhms, jday, jday_datetime};
use satellite::propogation::gstime::{gstime, gstime_datetime};
use satellite::propogation::propogate_datetime;
use satellite::propogation::sgp4::sgp4;
use std::f64::consts::TAU;

/// an instant: whole days since 1970-01-01 and nanoseconds of the day
#[derive(Clone, Copy, Debug, Hash, PartialEq)]
pub struct Inst {
    pub day: i64,
    pub ns: i64,
}
const NSD: i64 = 86_400_000_000_000;
impl Inst {
    pub fn civil(y: i64, mo: i64, d: i64, h: i64, mi: i64, s: i64, ns: i64) -> Inst {
        Inst { day: days_from_civil(y, mo, d), ns: ((h * 60 + mi) * 60 + s) * 1_000_000_000 + ns }
    }
    pub fn plus_ns(self, ns: i128) -> Inst {
        let t = self.day as i128 * NSD as i128 + self.ns as i128 + ns;
        Inst { day: t.div_euclid(NSD as i128) as i64, ns: t.rem_euclid(NSD as i128) as i64 }
    }
    pub fn utc(self) -> DateTime<Utc> {
        Utc.timestamp_opt(self.day * 86400 + self.ns / 1_000_000_000, (self.ns % 1_000_000_000) as u32).unwrap()
    }
    pub fn jd(self) -> f64 {
        2440587.5 + self.day as f64 + self.ns as f64 / NSD as f64
    }
    /// exact minutes from the epoch of an element set
    pub fn minutes_since(self, t: &Tle) -> f64 {
        let e_day = days_from_civil(t.year(), 1, 1) + t.day - 1;
        // 1e-8 day = 864000 ns
        let ns = (self.day - e_day) as i128 * NSD as i128 + self.ns as i128 - t.dfrac as i128 * 864_000;
        // exact split into whole minutes and remainder
        let m = ns.div_euclid(60_000_000_000);
        let r = ns.rem_euclid(60_000_000_000);
        m as f64 + r as f64 / 6e10
    }
    pub fn epoch_of(t: &Tle) -> Inst {
        Inst { day: days_from_civil(t.year(), 1, 1) + t.day - 1, ns: t.dfrac * 864_000 }
    }
    /// the calendar range in which the library's Julian date formula is documented to hold
    pub fn in_range(self) -> bool {
        self.day >= days_from_civil(1900, 3, 1) && self.day <= days_from_civil(2100, 2, 28)
    }
}

/// Julian dates near 2.4 million carry 40 microseconds per unit in the last place
const JD_TOL: f64 = 1.5e-9;

thread_local! { static LEAP: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
/// the date-time of an instant; the first second of a day may be written as the 60th of the day before
fn written(at: Inst, ctx: &mut Ctx) -> DateTime<Utc> {
    if LEAP.with(|l| l.get()) && at.ns < 1_000_000_000 {
        ctx.class("leap second");
        return Utc.timestamp_opt(at.day * 86400 - 1, (at.ns + 1_000_000_000) as u32).unwrap();
    }
    at.utc()
}
fn leaping<T>(f: impl FnOnce() -> T) -> T {
    LEAP.with(|l| l.set(true));
    let r = f();
    LEAP.with(|l| l.set(false));
    r
}
/// days that began with a leap second just before them
fn after_leap_seconds() -> Vec<i64> {
    let mut v: Vec<i64> = [1972, 1981, 1982, 1983, 1985, 1992, 1993, 1994, 1997, 2012, 2015].iter().map(|&y| days_from_civil(y, 7, 1)).collect();
    v.extend([1973, 1974, 1975, 1976, 1977, 1978, 1979, 1980, 1988, 1990, 1991, 1996, 1999, 2006, 2009, 2017].iter().map(|&y| days_from_civil(y, 1, 1)));
    v
}

fn c07_point(t: &Tle, rec: &satellite::io::Satrec, at: Inst, ctx: &mut Ctx) -> Check {
    if !at.in_range() {
        ctx.class("(skipped: outside the calendar range)");
        return Ok(());
    }
    let dt = written(at, ctx);
    let min = at.minutes_since(t);
    let h = rec_hash(rec);
    ctx.step();
    let got = simplify(&propogate_datetime(rec, dt));
    let tag = |e: String| format!("{} / {} at {}: {}", t.line1(), t.line2(), dt.format("%Y-%m-%dT%H:%M:%S%.9f"), e);
    if rec_hash(rec) != h {
        return Err(tag("the record changed".into()));
    }
    let want = simplify(&sgp4(&mut rec.clone(), min));
    ctx.state((hash((t.line1(), t.line2())), at));
    ctx.outcome(hash_out(&got));
    let s = 1.5e-4; // seconds: two Julian dates rounded, well below a millisecond
    let ok = match (&want, &got) {
        (Ok(a), Ok(b)) => {
            let (tr, tv) = base_tol(min, norm(&a.r));
            // acceleration of a Keplerian orbit bounds the change of velocity
            let acc = 398600.5 / norm(&a.r).powi(2) * 1.1;
            let (dr, dv) = (dist(&a.r, &b.r), dist(&a.v, &b.v));
            let (mut ar, mut av) = (norm(&a.v) * s + tr, acc * s + tv);
            if !(dr <= ar && dv <= av) {
                // nearly parabolic orbits: the model itself moves much further in that time
                for d in [-s / 60.0, -s / 180.0, s / 180.0, s / 60.0] {
                    if let Ok(c) = simplify(&sgp4(&mut rec.clone(), min + d)) {
                        ar = ar.max(3.0 * dist(&a.r, &c.r));
                        av = av.max(3.0 * dist(&a.v, &c.v));
                    }
                }
            }
            if dr <= ar && dv <= av {
                Ok(())
            } else {
                Err(format!("off by {:.6} km = {:.3e} s along track; {} min after epoch; model time gives {:?}, date-time gives {:?}", dr, dr / norm(&a.v), min, a, b))
            }
        }
        (Err(a), Err(b)) if a == b => Ok(()),
        (w, g) => {
            // within the timing tolerance of a change of outcome either side counts
            let near = [-s / 60.0, s / 60.0].iter().any(|d| match (simplify(&sgp4(&mut rec.clone(), min + d)), g) { (Ok(_), Ok(_)) => true, (Err(x), Err(y)) => x == *y, _ => false });
            if near { Ok(()) } else { Err(format!("{} min after epoch: by minutes {:?}, by date-time {:?}", min, w, g)) }
        }
    };
    ok.map_err(tag)?;
    let j = jday_datetime(dt);
    if !((j - at.jd()).abs() <= JD_TOL) {
        return Err(tag(format!("Julian date {} instead of {}", j, at.jd())));
    }
    ctx.trace();
    Ok(())
}

pub fn c07(run: &mut Run) {
    run.require(&["sub-second", "before epoch", "leap day", "year change", "leap second"]);
    let ks = kinds();
    let pick: Vec<usize> = vec![0, 1, 6, 8, 10];
    let at_epoch = |k: usize, yy: i64, day: i64, dfrac: i64| Tle { yy, day, dfrac, ..ks[k].1.clone() };
    // --- every millisecond around chosen instants
    let anchors: Vec<(i64, Inst)> = vec![
        (19, Inst::civil(2019, 3, 27, 0, 0, 0, 0)), (80, Inst::civil(1980, 2, 29, 12, 0, 0, 0)), (99, Inst::civil(2000, 1, 1, 0, 0, 0, 0)),
        (57, Inst::civil(1957, 10, 4, 19, 28, 34, 0)), (56, Inst::civil(2056, 12, 31, 23, 59, 59, 0)), (69, Inst::civil(1969, 12, 31, 23, 59, 59, 0)), (0, Inst::civil(2000, 2, 29, 23, 59, 59, 500_000_000)),
    ];
    let span = run.pick(2000usize, 60_000);
    let ms_recs: Vec<(Tle, satellite::io::Satrec)> = anchors.iter().flat_map(|a| pick.iter().map(move |&k| (a, k))).filter_map(|(a, k)| { let t = at_epoch(k, a.0, 100, 12345678); load(&t.line1(), &t.line2(), false).ok().map(|r| (t, r)) }).collect();
    let nk = pick.len();
    run.space("every millisecond", &[anchors.len(), nk, span], |ix, ctx| {
        let (t, r) = &ms_recs[ix[0] * nk + ix[1]];
        let at = anchors[ix[0]].1.plus_ns((ix[2] as i128 - span as i128 / 2) * 1_000_000);
        if at.ns % 1_000_000_000 != 0 { ctx.class("sub-second"); }
        c07_point(t, r, at, ctx)
    });
    // --- nanosecond parts
    let nss = [0i64, 1, 999, 1000, 499_999, 500_000, 999_999, 1_000_000, 1_500_000, 499_999_999, 500_000_000, 500_500_000, 900_000_000, 998_999_999, 999_000_000, 999_499_999, 999_500_000, 999_999_999];
    run.space("sub-second parts", &[anchors.len(), nk, nss.len(), 60], |ix, ctx| {
        let (t, r) = &ms_recs[ix[0] * nk + ix[1]];
        let a = anchors[ix[0]].1;
        c07_point(t, r, Inst { day: a.day, ns: (ix[3] as i64 * 1439 + 59) * 1_000_000_000 + nss[ix[2]] }, ctx)
    });
    // --- leap seconds: 23:59:60 is a date-time, sixty seconds after 23:59:00
    let leaps = after_leap_seconds();
    run.space("leap seconds", &[leaps.len(), anchors.len(), nk, nss.len()], |ix, ctx| {
        let (t, r) = &ms_recs[ix[1] * nk + ix[2]];
        leaping(|| c07_point(t, r, Inst { day: leaps[ix[0]], ns: nss[ix[3]] }, ctx))
    });
    // --- every second of a day
    run.space("every second of a day", &[run.pick(2, nk), 86400], |ix, ctx| {
        let (t, r) = &ms_recs[ix[0]];
        c07_point(t, r, Inst { day: days_from_civil(2019, 12, 31), ns: ix[1] as i64 * 1_000_000_000 + 250_000_000 }, ctx)
    });
    // --- every day of two centuries
    let d0 = days_from_civil(1900, 3, 1);
    let nd = (days_from_civil(2100, 2, 28) - d0 + 1) as usize;
    let tod = [0i64, 43_200_000_000_000, 86_399_999_000_000, 3_661_001_000_000];
    let long: Vec<(Tle, satellite::io::Satrec)> = [(0usize, 57i64, 1i64), (0, 56, 366), (8, 0, 60), (1, 99, 365)].iter().filter_map(|&(k, y, d)| { let t = Tle { bstar: Z, ..at_epoch(k, y, d, 99999999) }; load(&t.line1(), &t.line2(), false).ok().map(|r| (t, r)) }).collect();
    run.space("every day 1900-2100", &[nd, tod.len(), run.pick(2, long.len())], |ix, ctx| {
        let (t, r) = &long[ix[2]];
        let at = Inst { day: d0 + ix[0] as i64, ns: tod[ix[1]] };
        if at.minutes_since(t) < 0.0 { ctx.class("before epoch"); }
        c07_point(t, r, at, ctx)
    });
    // --- every epoch year x calendar seams
    let seams = [(1, 1, 0, 0, 0, 0), (12, 31, 23, 59, 59, 999_000_000), (2, 28, 23, 59, 59, 999_000_000), (3, 1, 0, 0, 0, 1_000_000), (2, 29, 12, 34, 56, 789_000_000), (6, 30, 23, 59, 59, 500_000_000), (10, 31, 23, 0, 0, 0), (9, 30, 0, 59, 0, 0), (8, 31, 11, 59, 59, 999_999_000)];
    let eps = [(1i64, 0i64), (31, 99999999), (59, 50000000), (60, 1), (61, 99999999), (182, 33333333), (365, 99999999)];
    run.space("epochs x calendar seams", &[100, eps.len(), seams.len(), 5, nk], |ix, ctx| {
        let t = at_epoch(pick[ix[4]], ix[0] as i64, eps[ix[1]].0, eps[ix[1]].1);
        let s = seams[ix[2]];
        let y = t.year() + ix[3] as i64 - 2;
        if s.0 == 2 && s.1 == 29 && !is_leap(y) { return Ok(()); }
        if s.1 == 29 { ctx.class("leap day"); }
        if s.0 == 12 { ctx.class("year change"); }
        match load(&t.line1(), &t.line2(), false) {
            Ok(r) => c07_point(&t, &r, Inst::civil(y, s.0, s.1, s.2, s.3, s.4, s.5), ctx),
            Err(_) => Ok(()),
        }
    });
    // --- the epoch itself and its neighbourhood, all orbit kinds
    let near: Vec<i128> = { let mut v: Vec<i128> = vec![0]; for e in 0..15 { let x = 10i128.pow(e); v.push(x * 864_000); v.push(-x * 864_000 / 2); } v.into_iter().filter(|x| x.abs() < 4_000_000_000_000_000_000).collect() };
    run.space("around epoch", &[ks.len(), near.len(), 6], |ix, ctx| {
        let (yy, day, f) = [(19, 85, 83761025), (57, 274, 1), (80, 366, 99999999), (0, 1, 0), (56, 60, 50000000), (99, 365, 12345678)][ix[2]];
        let t = at_epoch(ix[0], yy, day, f);
        match load(&t.line1(), &t.line2(), false) {
            Ok(r) => c07_point(&t, &r, Inst::epoch_of(&t).plus_ns(near[ix[1]]), ctx),
            Err(_) => Ok(()),
        }
    });
    // --- calls one field apart: nothing may be remembered under part of a date or of a record
    let fields: [&[i64]; 7] = [&[2018, 1918, 2017, 2019, 2068], &[5, 2, 12], &[17, 1, 18], &[3, 15, 0], &[4, 0, 59], &[5, 0, 59], &[6_000_000, 0, 999_000_000, 7_000_000]];
    let far: Vec<usize> = fields.iter().map(|f| f.len()).collect();
    let slots: Vec<(Tle, satellite::io::Satrec)> = [(0usize, 19i64, 85i64, 83761025i64), (0, 18, 85, 83761025), (0, 19, 84, 83761025), (0, 19, 85, 13761025), (8, 19, 85, 83761025), (1, 19, 85, 83761025)].iter().filter_map(|&(k, y, d, f)| { let t = Tle { bstar: Z, ..at_epoch(k, y, d, f) }; load(&t.line1(), &t.line2(), false).ok().map(|r| (t, r)) }).collect();
    let ns = slots.len();
    let thorough = run.thorough;
    run.space("calls one field apart", &[far[0], far[1], far[2], far[3], far[4], far[5], far[6]], |ix, ctx| {
        // a third of the dates in the quick tier: those whose time of day has at most one unusual part
        let date = |ix: &[usize]| Inst::civil(fields[0][ix[0]], fields[1][ix[1]], fields[2][ix[2]], fields[3][ix[3]], fields[4][ix[4]], fields[5][ix[5]], fields[6][ix[6]]);
        if ix[3..].iter().filter(|&&i| i > 0).count() > if thorough { 4 } else { 1 } { return Ok(()); }
        // in one place of memory, the way a loop over a catalogue keeps its current record
        let mut slot = Box::new(slots[0].1.clone());
        let mut one = |s: usize, d: &[usize], ctx: &mut Ctx| -> Check { *slot = slots[s].1.clone(); c07_point(&slots[s].0, &slot, date(d), ctx) };
        for f in 0..7 {
            for v in 0..far[f] {
                let mut other = ix.to_vec();
                other[f] = v;
                if other == ix { continue; }
                one(0, &other, ctx)?;
                one(0, ix, ctx)?;
            }
        }
        for s in 1..ns {
            one(s, ix, ctx)?;
            one(0, ix, ctx)?;
        }
        Ok(())
    });
}

pub fn c12(run: &mut Run) {
    run.require(&["leap year", "leap day", "century year", "December 31"]);
    let d0 = days_from_civil(1900, 3, 1);
    let nd = (days_from_civil(2100, 2, 28) - d0 + 1) as usize;
    let fine = run.thorough;
    // every day x every minute (quick) or every minute with several second/millisecond parts (thorough)
    let parts: &[(i64, i64)] = run.pick(&[(0, 0), (59, 999)][..], &[(0, 0), (0, 1), (1, 0), (29, 500), (30, 0), (59, 0), (59, 999)][..]);
    run.space("Julian date: every day, every minute", &[nd], |ix, ctx| {
        let day = d0 + ix[0] as i64;
        let (y, m, d) = civil(day);
        if is_leap(y) { ctx.class("leap year"); }
        if m == 2 && d == 29 { ctx.class("leap day"); }
        if y % 100 == 0 { ctx.class("century year"); }
        if m == 12 && d == 31 { ctx.class("December 31"); }
        for mi in 0..1440i64 {
            for &(s, ms) in parts {
                let j = jday(y as f64, m as f64, d as f64, (mi / 60) as f64, (mi % 60) as f64, s as f64, ms as f64);
                let want = 2440587.5 + day as f64 + ((mi * 60 + s) * 1000 + ms) as f64 / 86_400_000.0;
                if !((j - want).abs() <= JD_TOL) {
                    return Err(format!("jday({}, {}, {}, {}, {}, {}, {}) = {} instead of {}", y, m, d, mi / 60, mi % 60, s, ms, j, want));
                }
            }
        }
        ctx.transitions += 1440 * parts.len() as u64;
        ctx.state(day);
        ctx.outcome(day);
        ctx.trace();
        Ok(())
    });
    run.space("Julian date of a date-time: every day", &[nd], |ix, ctx| {
        let day = d0 + ix[0] as i64;
        for k in 0..(if fine { 1440i64 } else { 96 }) {
            let a = Inst { day, ns: (k * if fine { 60 } else { 900 } + k % 60) * 1_000_000_000 + (k * 11_111_111) % 1_000_000_000 };
            let j = jday_datetime(a.utc());
            ctx.step();
            if !((j - a.jd()).abs() <= JD_TOL) {
                return Err(format!("jday_datetime({}) = {} instead of {}", a.utc(), j, a.jd()));
            }
        }
        ctx.state((day, 1));
        ctx.trace();
        Ok(())
    });
    run.space("Julian date: every millisecond of a minute", &[60_000, 12], |ix, ctx| {
        let (y, m, d, h, mi) = [(1900, 3, 1, 0, 0), (1957, 10, 4, 19, 28), (1969, 12, 31, 23, 59), (1970, 1, 1, 0, 0), (1999, 12, 31, 23, 59), (2000, 1, 1, 12, 0), (2000, 2, 29, 23, 59), (2019, 3, 26, 6, 1), (2024, 2, 29, 0, 0), (2038, 1, 19, 3, 14), (2099, 12, 31, 23, 59), (2100, 2, 28, 23, 59)][ix[1]];
        let (s, ms) = (ix[0] as i64 / 1000, ix[0] as i64 % 1000);
        ctx.step();
        let j = jday(y as f64, m as f64, d as f64, h as f64, mi as f64, s as f64, ms as f64);
        let a = Inst::civil(y, m, d, h, mi, s, ms * 1_000_000);
        ctx.state((ix[0], ix[1], 2));
        if !((j - a.jd()).abs() <= JD_TOL) {
            return Err(format!("jday({}, {}, {}, {}, {}, {}, {}) = {} instead of {}", y, m, d, h, mi, s, ms, j, a.jd()));
        }
        let j2 = jday_datetime(a.utc());
        if !((j2 - a.jd()).abs() <= JD_TOL) {
            return Err(format!("jday_datetime({}) = {} instead of {}", a.utc(), j2, a.jd()));
        }
        ctx.trace();
        Ok(())
    });
    let leaps = after_leap_seconds();
    run.space("Julian date: leap seconds", &[leaps.len(), 1000], |ix, ctx| {
        let a = Inst { day: leaps[ix[0]], ns: ix[1] as i64 * 1_000_000 };
        let t = leaping(|| written(a, ctx));
        ctx.step();
        let j = jday_datetime(t);
        ctx.state((a, 3));
        if !((j - a.jd()).abs() <= JD_TOL) {
            return Err(format!("jday_datetime({}) = {} instead of {}", t, j, a.jd()));
        }
        ctx.trace();
        Ok(())
    });
    // --- day of year: every day of every year x every minute and the neighbours of every hour
    let step = run.pick(3usize, 1);
    run.space("day of year: every day, minutes", &[199, 366], |ix, ctx| {
        let (y, doy) = (1901 + ix[0] as i64, 1 + ix[1] as i64);
        if doy == 366 && !is_leap(y) { return Ok(()); }
        for k in (0..1440).step_by(step) {
            let x = doy as f64 + k as f64 / 1440.0;
            mdhms(y, doy, x, ctx)?;
            if k % 60 == 0 {
                mdhms(y, doy, next_up(x), ctx)?;
                if k > 0 { mdhms(y, doy, next_down(x), ctx)?; }
            }
        }
        mdhms(y, doy, next_down(doy as f64 + 1.0), ctx)?;
        mdhms(y, doy, doy as f64 + 0.99999999, ctx)?;
        mdhms(y, doy, doy as f64 + 0.00000001, ctx)?;
        ctx.state((y, doy, 3));
        ctx.outcome((y, doy));
        ctx.trace();
        Ok(())
    });
    run.space("day of year: every second", &[run.pick(2, 4), 366, 24], |ix, ctx| {
        let (y, doy) = ([2000, 2019, 1901, 2099][ix[0]], 1 + ix[1] as i64);
        if doy == 366 && !is_leap(y) { return Ok(()); }
        for k in 0..3600 {
            let s = ix[2] * 3600 + k;
            mdhms(y, doy, doy as f64 + s as f64 / 86400.0, ctx)?;
        }
        ctx.state((y, doy, ix[2], 4));
        ctx.trace();
        Ok(())
    });
    // the 1e-8 day grid of element sets, densely around hour and minute seams
    run.space("day of year: element-set grid", &[10, run.pick(24, 1440), 401], |ix, ctx| {
        let (y, doy) = [(1957, 274), (1957, 1), (1980, 60), (1999, 365), (2000, 366), (2000, 60), (2019, 85), (2056, 366), (2024, 61), (2001, 59)][ix[0]];
        let den = run_den(ix[1], fine);
        let g = (den * 1e8).round() as i64 + ix[2] as i64 - 200;
        if !(0..100_000_000).contains(&g) { return Ok(()); }
        let x: f64 = format!("{}.{:08}", doy, g).parse().unwrap();
        ctx.state((ix[0], g, 5));
        mdhms(y, doy, x, ctx)
    });
    // --- calls one argument apart: nothing may be remembered under part of the arguments
    let years = [2019i64, 2020, 1919, 1920, 2000, 1957, 1901, 2099];
    let (doys, fr) = ([60i64, 59, 61, 1, 365, 91], [0.5f64, 0.0, 0.25, 0.99999999, 0.7654321]);
    run.space("day of year: calls one argument apart", &[years.len(), doys.len(), fr.len(), 3, 8], |ix, ctx| {
        let mut o = [ix[0], ix[1], ix[2]];
        if ix[4] >= [years.len(), doys.len(), fr.len()][ix[3]] || o[ix[3]] == ix[4] { return Ok(()); }
        o[ix[3]] = ix[4];
        ctx.state((&ix, 6));
        for k in [[ix[0], ix[1], ix[2]], o, [ix[0], ix[1], ix[2]]] {
            mdhms(years[k[0]], doys[k[1]], doys[k[1]] as f64 + fr[k[2]], ctx)?;
        }
        ctx.trace();
        Ok(())
    });
    let args: [&[i64]; 7] = [&[2019, 2020, 1919, 2000], &[3, 1, 2, 12], &[26, 1, 27], &[6, 0, 23], &[7, 0, 59], &[8, 0, 59], &[9, 0, 999]];
    run.space("Julian date: calls one argument apart", &[4, 4, 3, 3, 3, 3, 3], |ix, ctx| {
        let one = |k: &[usize], form: usize, ctx: &mut Ctx| -> Check {
            let v: Vec<i64> = (0..7).map(|f| args[f][k[f]]).collect();
            let a = Inst::civil(v[0], v[1], v[2], v[3], v[4], v[5], v[6] * 1_000_000);
            ctx.step();
            let j = if form == 0 { jday(v[0] as f64, v[1] as f64, v[2] as f64, v[3] as f64, v[4] as f64, v[5] as f64, v[6] as f64) } else { jday_datetime(a.utc()) };
            if !((j - a.jd()).abs() <= JD_TOL) { return Err(format!("the Julian date of {} is {} instead of {}{}", a.utc(), j, a.jd(), if form == 0 { "" } else { " (date-time form)" })); }
            Ok(())
        };
        ctx.state((&ix, 7));
        for form in 0..2 {
            for f in 0..7 {
                for v in 0..args[f].len() {
                    if v == ix[f] { continue; }
                    let mut o = ix.to_vec();
                    o[f] = v;
                    one(&o, form, ctx)?;
                    one(ix, form, ctx)?;
                }
            }
        }
        ctx.trace();
        Ok(())
    });
}
fn run_den(k: usize, fine: bool) -> f64 {
    if fine { k as f64 / 1440.0 } else { k as f64 / 24.0 }
}
fn next_up(x: f64) -> f64 { f64::from_bits(x.to_bits() + 1) }
fn next_down(x: f64) -> f64 { f64::from_bits(x.to_bits() - 1) }
/// civil date of a day number, by counting (independent of the inverse used elsewhere)
pub fn civil(day: i64) -> (i64, i64, i64) {
    let mut y = 1970 + day.div_euclid(366);
    while days_from_civil(y + 1, 1, 1) <= day { y += 1; }
    while days_from_civil(y, 1, 1) > day { y -= 1; }
    let mut rest = day - days_from_civil(y, 1, 1);
    let mut m = 1;
    while rest >= month_len(y, m) { rest -= month_len(y, m); m += 1; }
    (y, m, rest + 1)
}
fn mdhms(y: i64, doy: i64, x: f64, ctx: &mut Ctx) -> Check {
    ctx.step();
    let r = days2mdhms(y as u64, x);
    let (mut m, mut rest) = (1, doy);
    while rest > month_len(y, m) { rest -= month_len(y, m); m += 1; }
    let tag = |e: &str| format!("days2mdhms({}, {:?}) = {}/{} {}:{}:{}: {}", y, x, r.month, r.day, r.hour, r.minute, r.second, e);
    if r.month != m as f64 || r.day != rest as f64 {
        return Err(tag(&format!("date should be {}/{}", m, rest)));
    }
    if !(r.hour >= 0.0 && r.hour <= 23.0 && r.hour.fract() == 0.0 && r.minute >= 0.0 && r.minute <= 59.0 && r.minute.fract() == 0.0 && r.second >= 0.0 && r.second < 60.0) {
        return Err(tag("component out of range"));
    }
    let sec = r.hour * 3600.0 + r.minute * 60.0 + r.second;
    if !((sec - (x - doy as f64) * 86400.0).abs() <= 1e-4) {
        return Err(tag(&format!("time of day should be {} s", (x - doy as f64) * 86400.0)));
    }
    let j = jday(y as f64, r.month, r.day, r.hour, r.minute, r.second, 0.0);
    let want = jd_midnight(y, 1, 1) - 1.0 + x;
    if !((j - want).abs() <= JD_TOL) {
        return Err(tag(&format!("recombined to {} instead of {}", j, want)));
    }
    Ok(())
}

/// IAU-1982 GMST with the whole turns taken out before any rounding can hurt; radians, and the
/// size of the unreduced angle (which bounds the rounding of a direct evaluation)
fn gmst_split(jd: f64) -> (f64, f64) {
    let days = jd - 2451545.0; // exact for the magnitudes used
    let t = days / 36525.0;
    let frac = days - days.floor();
    // 876600 h per century is one turn per day
    let sec = 67310.54841 + 86400.0 * frac + (8640184.812866 * t + (0.093104 - 6.2e-6 * t) * t * t);
    let turns = sec / 86400.0;
    ((turns - turns.floor()) * TAU, (days.abs() + turns.abs() + 1.0) * TAU)
}
fn gst_point(jd: f64, ctx: &mut Ctx) -> Check {
    ctx.step();
    let g = gstime(jd);
    let (w, size) = gmst_split(jd);
    ctx.state(bits(jd));
    ctx.outcome(bits(g));
    if !(g >= 0.0 && g <= TAU) {
        return Err(format!("gstime({:?}) = {:?} is outside one turn", jd, g));
    }
    // Julian date resolution (40 us of rotation) or rounding of the unreduced angle
    let tol = 1e-10 + 4e-15 * size;
    if !(refgeo::angle_diff(g, w) <= tol) {
        return Err(format!("gstime({:?}) = {:?}, IAU-1982 gives {:?} (allowed {:.1e})", jd, g, w, tol));
    }
    ctx.class(if jd < 2451545.0 { "before J2000" } else { "after J2000" });
    ctx.trace();
    Ok(())
}
pub fn c13(run: &mut Run) {
    run.require(&["before J2000", "after J2000"]);
    let steps = run.pick(96usize, 1440);
    run.space("every day 1900-2100", &[73_050, steps / 24], |ix, ctx| {
        for k in 0..24 {
            let jd = 2415079.5 + ix[0] as f64 + (ix[1] * 24 + k) as f64 / steps as f64;
            gst_point(jd, ctx)?;
        }
        Ok(())
    });
    run.space("every second of a day", &[5, 86400], |ix, ctx| {
        gst_point([2433281.5, 2440587.5, 2451544.5, 2458569.5, 2488069.5][ix[0]] + ix[1] as f64 / 86400.0, ctx)
    });
    let n = run.pick(200_000usize, 3_000_000);
    run.space("seven millennia", &[n], |ix, ctx| {
        gst_point(ix[0] as f64 * (6_000_000.0 / n as f64) - 1_000_000.0 + 0.123, ctx)
    });
    run.space("reduction seams", &[800, 41], |ix, ctx| {
        // dates at which the angle passes a whole turn, and their neighbours in floating point
        let mut jd = 2451545.0 + (ix[0] as f64 - 400.0) * 91.0;
        for _ in 0..6 {
            let (w, _) = gmst_split(jd);
            let d = if w > TAU / 2.0 { w - TAU } else { w };
            jd -= d / TAU / 1.00273790935;
        }
        for _ in 0..(ix[1] as i32 - 20).abs() { jd = if ix[1] < 20 { next_down(jd) } else { next_up(jd) }; }
        gst_point(jd, ctx)
    });
    run.space("powers of ten", &[2, 40, 10], |ix, ctx| {
        let x = (1.0 + ix[2] as f64 * 0.9) * 10f64.powi(ix[1] as i32 / 4 - 2) * [1.0, 1.77, 3.16, 5.6][ix[1] % 4];
        gst_point(2451545.0 + if ix[0] == 0 { x } else { -x }, ctx)
    });
    let (dsteps, dstep) = run.pick((24, 3_599_777_777_777i64), (288, 299_777_777_777));
    run.space("date-time form: every day", &[73_049, dsteps], |ix, ctx| {
        let a = Inst { day: days_from_civil(1900, 3, 1) + ix[0] as i64, ns: ix[1] as i64 * dstep };
        ctx.step();
        let dt = a.utc();
        let g = gstime_datetime(dt);
        let (w, _) = gmst_split(a.jd());
        if !(g >= 0.0 && g <= TAU && refgeo::angle_diff(g, w) <= 2e-8) {
            return Err(format!("gstime_datetime({}) = {}, expected {}", dt, g, w));
        }
        ctx.state(a);
        ctx.trace();
        Ok(())
    });
    run.space("date-time form: every millisecond", &[6, 10_000], |ix, ctx| {
        let (y, m, d) = [(1957, 10, 4), (1969, 12, 31), (2000, 1, 1), (2000, 2, 29), (2019, 12, 31), (2056, 12, 31)][ix[0]];
        let a = Inst::civil(y, m, d, 23, 59, 55, 0).plus_ns(ix[1] as i128 * 1_000_000);
        ctx.step();
        let g = gstime_datetime(a.utc());
        let (w, _) = gmst_split(a.jd());
        let direct = gstime(a.jd());
        if !(g >= 0.0 && g <= TAU && refgeo::angle_diff(g, w) <= 2e-8 && refgeo::angle_diff(g, direct) <= 2e-8) {
            return Err(format!("gstime_datetime({}) = {}, expected {}, by Julian date {}", a.utc(), g, w, direct));
        }
        ctx.state((a, 1));
        ctx.trace();
        Ok(())
    });
    let leaps = after_leap_seconds();
    run.space("date-time form: leap seconds", &[leaps.len(), 1000], |ix, ctx| {
        let a = Inst { day: leaps[ix[0]], ns: ix[1] as i64 * 1_000_000 };
        let t = leaping(|| written(a, ctx));
        ctx.step();
        let (g, (w, _)) = (gstime_datetime(t), gmst_split(a.jd()));
        if !(g >= 0.0 && g <= TAU && refgeo::angle_diff(g, w) <= 2e-8) {
            return Err(format!("gstime_datetime({}) = {}, expected {}", t, g, w));
        }
        ctx.state((a, 2));
        ctx.trace();
        Ok(())
    });
    // --- dates that share their day, their time of day or nearly everything, one after the other
    let days: Vec<f64> = vec![0.0, 1.0, 365.0, 366.0, 36525.0, -36524.0, 365250.0, 7.0, -1.0];
    let fracs: Vec<f64> = vec![0.0, 0.5, 1.0 / 1440.0, 1.0 / 86400.0, 1e-8, 0.25, 0.999999];
    run.space("dates one part apart", &[days.len(), fracs.len(), days.len() + fracs.len(), 4], |ix, ctx| {
        let jd = |d: usize, f: usize| [2458568.5, 2451544.5, 2451545.0, 2433281.5][ix[3]] + days[d] + fracs[f];
        let (a, b) = (jd(ix[0], ix[1]), if ix[2] < days.len() { jd(ix[2], ix[1]) } else { jd(ix[0], ix[2] - days.len()) });
        for x in [a, b, a] { gst_point(x, ctx)?; }
        Ok(())
    });
}

pub fn c22(run: &mut Run) {
    run.require(&["below horizon", "above horizon", "deep", "near", "southern observer", "pole"]);
    let ks = kinds();
    let obs: Vec<(f64, f64, f64)> = {
        let lats: &[f64] = run.pick(&[90.0, 51.5, 0.0, -33.9, -89.99][..], &[90.0, 89.999, 70.0, 51.5, 36.9613422, 0.0, -0.001, -33.9, -66.6, -90.0][..]);
        let lons: &[f64] = run.pick(&[0.0, -122.0308, 151.2, 180.0][..], &[0.0, -0.12, -122.0308, -180.0, 90.0, 151.2, 179.999, 180.0][..]);
        lats.iter().flat_map(|&a| lons.iter().flat_map(move |&o| [0.37, -0.4].into_iter().map(move |h| (a * D2R, o * D2R, h)))).collect()
    };
    let epochs: Vec<(i64, i64, i64)> = vec![(19, 85, 83761025), (57, 274, 1), (99, 365, 99999999), (0, 1, 0), (24, 60, 50000000), (56, 366, 12345678), (70, 1, 5000)];
    // offsets from epoch in milliseconds
    let offs: Vec<i64> = run.pick(vec![0, 1, 61_234, -3_600_000, 5_400_123, 43_200_500, 86_400_000, -86_399_999, 172_800_001, 604_800_000, -2_592_000_000, 31_536_000_250],
        (-40..=40).map(|i| i * 7_777_777 + 13).chain(vec![0, 1, -1, 604_800_000, -2_592_000_000, 31_536_000_250, -31_536_000_250]).collect());
    let nod: &[i64] = run.pick(&[505941, 2304354][..], &[505941, 1404354, 2304354, 3204354][..]);
    run.space("pipeline", &[ks.len(), epochs.len(), nod.len(), offs.len()], |ix, ctx| {
        let mut t = ks[ix[0]].1.clone();
        (t.yy, t.day, t.dfrac) = epochs[ix[1]];
        t.node4 = nod[ix[2]];
        let at = Inst::epoch_of(&t).plus_ns(offs[ix[3]] as i128 * 1_000_000);
        if !at.in_range() { return Ok(()); }
        c22_point(&t, at, &obs, ctx)
    });
    // every element, the time and the observer through all they can be
    let few: &[(f64, f64, f64)] = &[(51.5 * D2R, -0.12 * D2R, 0.1), (-33.9 * D2R, 151.2 * D2R, 0.4)];
    let bases: Vec<Tle> = (0..ks.len().min(8)).map(|k| Tle { m4: (ks[k].1.m4 + 1_000_017) % 3_600_000, ..ks[k].1.clone() }).collect();
    crate::props_sgp::whole_ranges(run, &bases, &[0.0, 33.3, -721.0, 20000.0], |t, ts, ctx| {
        ts.iter().try_for_each(|&x| {
            let at = Inst::epoch_of(t).plus_ns((x * 60_000.0).round().clamp(-1e15, 1e15) as i128 * 1_000_000);
            if at.in_range() { c22_point(t, at, few, ctx) } else { Ok(()) }
        })
    });
    let k = run.pick(1, 8);
    let seen: Vec<(f64, f64, f64)> = (0..=180 * k).map(|i| (i as f64 / k as f64 - 90.0, 17.3, 0.2))
        .chain((0..=360 * k).map(|i| (47.1, i as f64 / k as f64 - 180.0, 0.2)))
        .chain((0..100 * k).map(|i| (-12.7, 88.8, 10f64.powf(i as f64 / (100 * k) as f64 * 9.0 - 4.0))))
        .chain((0..40 * k).map(|i| (61.3, -71.9, -0.45 + i as f64 / (40 * k) as f64)))
        .map(|(a, o, h)| (a * D2R, o * D2R, h)).collect();
    run.space("observer through the whole range", &[bases.len(), 4, seen.len()], |ix, ctx| {
        let t = &bases[ix[0]];
        let at = Inst::epoch_of(t).plus_ns([61_234i128, 5_400_123, 43_200_500, -86_399_999][ix[1]] * 1_000_000);
        if !at.in_range() { return Ok(()); }
        c22_point(t, at, &seen[ix[2]..ix[2] + 1], ctx)
    });
}
fn c22_point(t: &Tle, at: Inst, obs: &[(f64, f64, f64)], ctx: &mut Ctx) -> Check {
    use satellite::transforms::*;
    use satellite::{Geodedic, Vec3};
    let sat = Sat::new(Grav::wgs84(), t.elems(), false);
    if sat.prop(0.0).is_err() { return Ok(()); }
    let dt = at.utc();
    let min = at.minutes_since(&t);
    let text = format!("0 OBJECT\n{}\n{}\n", t.line1(), t.line2());
    let tag = |e: String| format!("{} at {}: {}", text.trim(), dt.format("%Y-%m-%dT%H:%M:%S%.6f"), e);
    ctx.step();
    let rec = match satellite::io::parse(&text) { Ok(r) => r, Err(e) => return Err(tag(format!("{:?}", e))) };
    let got = propogate_datetime(&rec, dt);
    let want = sat.prop(min);
    let (s, w) = match (got, want) {
        (Ok(s), Ok(w)) => (s, w),
        (Err(_), Err(_)) => { ctx.trace(); return Ok(()); }
        (g, w) => {
            // which side of an error threshold may depend on microseconds
            let d = 1.5e-4 / 60.0;
            if [-d, d].iter().any(|x| sat.prop(min + x).is_ok() == g.is_ok()) { return Ok(()); }
            if envelope(&sat, min).any(|o| o.is_ok() == g.is_ok()) { return Ok(()); }
            return Err(tag(format!("model {:?}, library {:?}", w, simplify(&g))));
        }
    };
    ctx.class(if sat.deep { "deep" } else { "near" });
    let gm = gstime_datetime(dt);
    let ecf = eci_to_ecf(&s.position, gm);
    let (gw, _) = gmst_split(at.jd());
    let wecf = refgeo::rot(&w.r, -gw);
    // a few metres, plus what 150 us of motion allow
    let mut tol = 0.004 + norm(&w.v) * 1.5e-4 + 1e-10 * norm(&w.r);
    let pos = [s.position.x, s.position.y, s.position.z];
    if dist(&pos, &w.r) > 0.3 * tol {
        // nearly parabolic orbits: the model itself moves much further in that time
        for d in [-1.5e-4 / 60.0, -5e-5 / 60.0, 5e-5 / 60.0, 1.5e-4 / 60.0] {
            if let Ok(c) = sat.prop(min + d) {
                tol = tol.max(3.0 * dist(&w.r, &c.r));
            }
        }
        for c in envelope(&sat, min).flatten() {
            tol = tol.max(20.0 * dist(&w.r, &c.r));
        }
    }
    let d = dist(&wecf, &[ecf.x, ecf.y, ecf.z]);
    if !(d <= tol) {
        return Err(tag(format!("Earth-fixed position off by {:.6} km: {:?} instead of {:?}", d, ecf, wecf)));
    }
    // sub-point
    ctx.step();
    let gd = eci_to_geodedic(&s.position, gm);
    let (la, lo, h) = refgeo::from_ecf(&wecf);
    let r = norm(&wecf);
    let ground = ((gd.latitude - la) * r).hypot(refgeo::angle_diff(gd.longitude, lo) * r * la.cos());
    if !(ground <= tol && (gd.height - h).abs() <= tol) {
        return Err(tag(format!("sub-point {:?}, expected lat {} lon {} height {}", gd, la, lo, h)));
    }
    if !(gd.longitude.abs() <= std::f64::consts::PI + 1e-12 && gd.latitude.abs() <= std::f64::consts::FRAC_PI_2 + 1e-12) {
        return Err(tag(format!("sub-point out of range {:?}", gd)));
    }
    for o in obs {
        ctx.step();
        let og = Geodedic { latitude: o.0, longitude: o.1, height: o.2 };
        let b = ecf_to_look_angles(&og, &Vec3 { x: ecf.x, y: ecf.y, z: ecf.z });
        let off = refgeo::sub(&wecf, &refgeo::to_ecf(o.0, o.1, o.2));
        let f = refgeo::sez(o.0, o.1);
        let (ws, we, wu) = (refgeo::dot(&off, &f[0]), refgeo::dot(&off, &f[1]), refgeo::dot(&off, &f[2]));
        let (sa, ca) = b.azimuth.sin_cos();
        let (sel, cel) = b.elevation.sin_cos();
        let g = [-b.range * cel * ca, b.range * cel * sa, b.range * sel];
        let dd = dist(&g, &[ws, we, wu]);
        if !(dd <= tol + 1e-7 * b.range) {
            return Err(tag(format!("observer {:?}: look angles {:?} point {:.6} km off; expected azimuth {} elevation {} range {}", og, b, dd, we.atan2(-ws), (wu / norm(&off)).asin(), norm(&off))));
        }
        ctx.class(if wu < 0.0 { "below horizon" } else { "above horizon" });
        if o.0 < 0.0 { ctx.class("southern observer"); }
        if o.0.abs() > 1.5707 { ctx.class("pole"); }
    }
    ctx.state((text.clone(), at));
    ctx.outcome(bits(gd.latitude));
    ctx.sample(|| format!("{} at {}", text.trim(), dt));
    ctx.trace();
    Ok(())
}
