//! C08-C11: text. Exhaustive sweeps of column contents, mutations, truncations, layouts and
//! catalogue compositions against an independent reading of the columns.
use crate::common::*;
use crate::engine::*;
use crate::props_hist::kinds;
use crate::props_sgp::*;
use crate::tle::*;
use satellite::io::{parse, parse_multiple, parse_satrec, twoline2satrec, Satrec, SatrecParseError};

const TUMIN: f64 = 1.0 / 0.074_366_853_168_713_85; // 1 / xke (minutes), WGS-84

fn near(a: f64, b: f64, rel: f64) -> bool {
    a == b || (a - b).abs() <= rel * b.abs()
}
fn check_fields(t: &Tle, l1: &str, l2: &str, r: &Satrec, before_init: bool) -> Check {
    let bad = |f: &str, g: String, w: String| Err(format!("{} / {}: {} is {}, the columns say {}", l1, l2, f, g, w));
    if r.satnum != t.satnum.trim() { return bad("satnum", format!("{:?}", r.satnum), format!("{:?}", t.satnum)); }
    if r.epochyr != t.yy { return bad("epochyr", r.epochyr.to_string(), t.yy.to_string()); }
    let mut fs: Vec<(&str, f64, f64, f64)> = vec![
        ("epochdays", r.epochdays, t.epochdays(), 4e-15), ("ndot", r.ndot, t.ndot(), 4e-15), ("nddot", r.nddot, t.nddot_val(), 4e-15),
        ("bstar", r.bstar, t.bstar.value(), 4e-15), ("inclo", r.inclo, t.incl(), 4e-15), ("nodeo", r.nodeo, t.node(), 4e-15),
        ("ecco", r.ecco, t.ecc(), 4e-15), ("argpo", r.argpo, t.argp(), 4e-15), ("mo", r.mo, t.m(), 4e-15),
    ];
    if before_init {
        fs.push(("no", r.no, t.n_radmin(), 4e-15));
    }
    if t.n8 > 0 {
        let a = (t.n_radmin() * TUMIN).powf(-2.0 / 3.0);
        fs.push(("a", r.a, a, 1e-13));
        for (n, g, w) in [("alta", r.alta, a * (1.0 + t.ecc()) - 1.0), ("altp", r.altp, a * (1.0 - t.ecc()) - 1.0)] {
            if !((g - w).abs() <= 1e-13 * (a + 1.0)) { return bad(n, format!("{:?}", g), format!("{:?}", w)); }
        }
    }
    for (n, g, w, rel) in fs {
        if !near(g, w, rel) { return bad(n, format!("{:?}", g), format!("{:?}", w)); }
    }
    if !((r.jdsatepoch - t.epoch_jd()).abs() <= 1.5e-9) {
        return bad("jdsatepoch", format!("{:?}", r.jdsatepoch), format!("{:?}", t.epoch_jd()));
    }
    Ok(())
}
fn decode(t: &Tle, l1: &str, l2: &str, ctx: &mut Ctx) -> Check {
    ctx.step();
    let r = parse_satrec(l1, l2).map_err(|e| format!("{} / {}: well-formed lines rejected: {:?}", l1, l2, e))?;
    ctx.state((l1, l2));
    ctx.outcome(rec_hash(&r));
    check_fields(t, l1, l2, &r, true)?;
    ctx.step();
    match twoline2satrec(l1, l2) {
        Ok(r) => check_fields(t, l1, l2, &r, false)?,
        Err(SatrecParseError::Sgp4InitError(_)) => ctx.class("columns read, orbit refused"),
        Err(e) => return Err(format!("{} / {}: well-formed lines rejected: {:?}", l1, l2, e)),
    }
    ctx.sample(|| format!("{} / {}", l1, l2));
    ctx.trace();
    Ok(())
}
fn plain(t: &Tle, ctx: &mut Ctx) -> Check {
    decode(t, &t.line1(), &t.line2(), ctx)
}
/// replace columns lo.. of a line and restore its checksum
fn put(line: &str, lo: usize, text: &str) -> String {
    let mut b: Vec<u8> = line.as_bytes().to_vec();
    b[lo..lo + text.len()].copy_from_slice(text.as_bytes());
    fix_sum(&String::from_utf8(b).unwrap())
}
fn fix_sum(line: &str) -> String {
    let s: u32 = line.bytes().take(68).map(|b| match b { b'0'..=b'9' => (b - b'0') as u32, b'-' => 1, _ => 0 }).sum();
    format!("{}{}", &line[..68], s % 10)
}
fn leo() -> Tle {
    Tle { satnum: "25544".into(), yy: 19, day: 85, dfrac: 83761025, ndot8: 1292, nddot: Z, bstar: bst(false, 28282, -4), incl4: 516446, node4: 505941, argp4: 1170184, m4: 3281109, ecc7: 2332, n8: 1552438493 }
}

pub fn c08(run: &mut Run) {
    run.require(&["negative bstar", "leading zero mantissa", "positive exponent", "19xx", "20xx", "leap day", "blank padded", "negative ndot", "columns read, orbit refused"]);
    let b = leo();
    let th = run.thorough;
    let p = move |q: usize, t: usize| run_pick(th, q, t);
    // --- drag term and second derivative: every mantissa x exponent x signs
    let step = p(7, 1);
    run.space("bstar mantissa x exponent", &[100_000 / step, 2], |ix, ctx| {
        for e in -9i64..=9 {
            for zplus in [false, true] {
                if zplus && e != 0 { continue; }
                let ex = Exp { neg: ix[1] == 1, mant: (ix[0] * step) as i64, exp: e, zplus };
                let t = Tle { bstar: ex, nddot: Exp { neg: ix[1] == 0, mant: 99_999 - ex.mant, exp: -e, zplus }, ..b.clone() };
                if ex.neg { ctx.class("negative bstar"); }
                if ex.mant < 10000 { ctx.class("leading zero mantissa"); }
                if e > 0 { ctx.class("positive exponent"); }
                let (l1, l2) = (t.line1(), t.line2());
                ctx.step();
                let r = parse_satrec(&l1, &l2).map_err(|e| format!("{} / {}: well-formed lines rejected: {:?}", l1, l2, e))?;
                ctx.state(&l1);
                check_fields(&t, &l1, &l2, &r, true)?;
            }
        }
        ctx.trace();
        Ok(())
    });
    // blank-padded mantissas, explicit plus signs
    run.space("blank-padded implied decimals", &[5, 10, 3, 19], |ix, ctx| {
        let digits = ix[0] + 1; // significant digits kept at the right
        let m = [1i64, 2, 5, 7, 9, 12, 345, 6789, 98765, 10101][ix[1]] % 10i64.pow(digits as u32);
        if m == 0 && ix[1] != 0 { return Ok(()); }
        let sign = [" ", "-", "+"][ix[2]];
        let e = ix[3] as i64 - 9;
        let mant = format!("{:>5}", format!("{:0w$}", m, w = digits));
        let t = Tle { bstar: bst(sign == "-", m, e), nddot: bst(sign == "-", m, e), ..b.clone() };
        let f = format!("{}{}{}{}", sign, mant, if e > 0 { "+" } else { "-" }, e.abs());
        let l1 = put(&put(&t.line1(), 44, &f), 53, &f);
        ctx.class("blank padded");
        decode(&t, &l1, &t.line2(), ctx)
    });
    // --- eccentricity: all seven digits, with zero and blank padding
    let es = p(23, 1);
    run.space("eccentricity", &[10_000_000 / es / 100], |ix, ctx| {
        for k in 0..100 {
            let t = Tle { ecc7: ((ix[0] * 100 + k) * es) as i64, ..b.clone() };
            let (l1, l2) = (t.line1(), t.line2());
            ctx.step();
            let r = parse_satrec(&l1, &l2).map_err(|e| format!("{} / {}: {:?}", l1, l2, e))?;
            check_fields(&t, &l1, &l2, &r, true)?;
            if t.ecc7 < 1_000_000 && k % 10 == 0 {
                let l2 = put(&l2, 26, &format!("{:>7}", t.ecc7));
                ctx.class("blank padded");
                let r = parse_satrec(&l1, &l2).map_err(|e| format!("{} / {}: {:?}", l1, l2, e))?;
                check_fields(&t, &l1, &l2, &r, true)?;
            }
            if t.ecc7 % 10 == 0 && t.ecc7 > 0 {
                // trailing zeros left blank
                let f = format!("{:07}", t.ecc7);
                let l2 = put(&l2, 26, &format!("{:<7}", f.trim_end_matches('0')));
                let r = parse_satrec(&l1, &l2).map_err(|e| format!("{} / {}: {:?}", l1, l2, e))?;
                check_fields(&t, &l1, &l2, &r, true)?;
            }
            ctx.state((1, t.ecc7));
        }
        ctx.trace();
        Ok(())
    });
    // --- angles: each of the four fields over its whole range, blank and zero padded
    let step = p(97, 3);
    run.space("angles", &[4, 3_600_000 / step / 100 + 1, 2], |ix, ctx| {
        for k in 0..100 {
            let v = ((ix[1] * 100 + k) * step) as i64;
            let max = if ix[0] == 0 { 1_800_000 } else { 3_599_999 };
            if v > max { break; }
            let mut t = b.clone();
            *[&mut t.incl4, &mut t.node4, &mut t.argp4, &mut t.m4][ix[0]] = v;
            let l1 = t.line1();
            let mut l2 = t.line2();
            if ix[2] == 1 {
                l2 = put(&l2, [8, 17, 34, 43][ix[0]], &format!("{:03}.{:04}", v / 10000, v % 10000));
            }
            ctx.step();
            let r = parse_satrec(&l1, &l2).map_err(|e| format!("{} / {}: {:?}", l1, l2, e))?;
            check_fields(&t, &l1, &l2, &r, true)?;
            ctx.state((2, ix[0], ix[2], v));
        }
        ctx.trace();
        Ok(())
    });
    // --- mean motion
    let ns = p(200_003, 4001);
    run.space("mean motion", &[1_800_000_000 / ns / 10, 2], |ix, ctx| {
        for k in 0..10 {
            let t = Tle { n8: ((ix[0] * 10 + k) * ns + 1) as i64, ..b.clone() };
            let mut l2 = t.line2();
            if ix[1] == 1 { l2 = put(&l2, 52, &format!("{:02}.{:08}", t.n8 / 100_000_000, t.n8 % 100_000_000)); }
            if k == 0 { decode(&t, &t.line1(), &l2, ctx)?; } else {
                let l1 = t.line1();
                ctx.step();
                let r = parse_satrec(&l1, &l2).map_err(|e| format!("{} / {}: {:?}", l1, l2, e))?;
                check_fields(&t, &l1, &l2, &r, true)?;
                ctx.state((3, t.n8));
            }
        }
        Ok(())
    });
    // --- first derivative
    let small = p(10_000, 100_000);
    run.space("first derivative", &[p(20_000, 500_000) + 2 * small, 2, 3], |ix, ctx| {
        // every small value, the middle ones by hundreds, the rest by thousands
        let k = ix[0] as i64 - 2 * small as i64;
        let v = (if k >= 0 { k * 4999 } else if k + small as i64 >= 0 { (k + small as i64) * 97 } else { k + 2 * small as i64 } + [0i64, 1, 99][ix[2]]).min(99_999_999);
        let t = Tle { ndot8: if ix[1] == 1 { -v } else { v }, ..b.clone() };
        if t.ndot8 < 0 { ctx.class("negative ndot"); }
        let mut l1 = t.line1();
        if ix[1] == 0 && ix[2] == 1 { l1 = put(&l1, 33, "+"); }
        let l2 = t.line2();
        ctx.step();
        let r = parse_satrec(&l1, &l2).map_err(|e| format!("{} / {}: {:?}", l1, l2, e))?;
        check_fields(&t, &l1, &l2, &r, true)?;
        ctx.state((4, t.ndot8));
        ctx.trace();
        Ok(())
    });
    // --- epoch: every year x every day x fractions
    run.space("epoch year x day", &[100, 366, 7], |ix, ctx| {
        let t = Tle { yy: ix[0] as i64, day: 1 + ix[1] as i64, dfrac: [0, 1, 50_000_000, 99_999_999, 83_761_025, 4_166_667, 95_833_333][ix[2]], ..b.clone() };
        let y = t.year();
        let leap = crate::reftime::is_leap(y);
        if t.day == 366 && !leap { return Ok(()); }
        if leap && t.day == 60 { ctx.class("leap day"); }
        ctx.class(if y < 2000 { "19xx" } else { "20xx" });
        if ix[2] == 0 { return plain(&t, ctx); }
        let (l1, l2) = (t.line1(), t.line2());
        ctx.step();
        let r = parse_satrec(&l1, &l2).map_err(|e| format!("{} / {}: {:?}", l1, l2, e))?;
        check_fields(&t, &l1, &l2, &r, true)?;
        if t.day < 100 {
            // blank-padded day of year
            let l1b = put(&l1, 20, &format!("{:>3}", t.day));
            let r = parse_satrec(&l1b, &l2).map_err(|e| format!("{} / {}: {:?}", l1b, l2, e))?;
            check_fields(&t, &l1b, &l2, &r, true)?;
            ctx.class("blank padded");
        }
        if t.yy < 10 {
            let l1b = put(&l1, 18, &format!("{:>2}", t.yy));
            let r = parse_satrec(&l1b, &l2).map_err(|e| format!("{} / {}: {:?}", l1b, l2, e))?;
            check_fields(&t, &l1b, &l2, &r, true)?;
        }
        ctx.state((5, t.yy, t.day, t.dfrac));
        ctx.trace();
        Ok(())
    });
    run.space("epoch fraction", &[p(50_000, 2_000_000), 4], |ix, ctx| {
        let n = p(50_000, 2_000_000) as i64;
        let t = Tle { dfrac: (ix[0] as i64 * (100_000_000 / n) + ix[1] as i64 * 7) % 100_000_000, yy: [19, 80, 0, 56][ix[1]], day: [85, 60, 366, 1][ix[1]], ..b.clone() };
        let (l1, l2) = (t.line1(), t.line2());
        ctx.step();
        let r = parse_satrec(&l1, &l2).map_err(|e| format!("{} / {}: {:?}", l1, l2, e))?;
        ctx.state((6, ix[1], t.dfrac));
        check_fields(&t, &l1, &l2, &r, true)
    });
    // --- catalogue numbers and the columns that carry no element
    let nums = ["00005", "5    ", "    5", "25544", "99999", "00000", "T0001", "B1234", "Z9999", "  900", "88888"];
    run.space("catalogue numbers", &[nums.len(), kinds().len()], |ix, ctx| {
        let t = Tle { satnum: nums[ix[0]].into(), ..kinds()[ix[1]].1.clone() };
        plain(&t, ctx)
    });
    let chars: Vec<char> = (32u8..127).map(|c| c as char).collect();
    let free: Vec<(usize, usize)> = (7..17).map(|c| (0, c)).chain((62..68).map(|c| (0, c))).chain((63..68).map(|c| (1, c))).collect();
    run.space("columns without elements", &[free.len(), chars.len(), 3], |ix, ctx| {
        let t = [b.clone(), Tle::base(), kinds()[10].1.clone()][ix[2]].clone();
        let (l, c) = free[ix[0]];
        // column 8 separates the number from the classification; columns 63 and 64.. carry type and counter
        let (mut l1, mut l2) = (t.line1(), t.line2());
        let s = chars[ix[1]].to_string();
        if l == 0 { l1 = put(&l1, c, &s); } else { l2 = put(&l2, c, &s); }
        decode(&t, &l1, &l2, ctx)
    });
    // --- lines without checksum or rest, and with trailing padding
    run.space("line lengths", &[kinds().len(), 12, 12], |ix, ctx| {
        let t = kinds()[ix[0]].1.clone();
        let cut = |l: String, k: usize, min: usize| -> String {
            match k { 0 => l, 1 => l[..68].into(), 2 => l[..min].into(), 3 => l[..min + 1].into(), 4 => format!("{} ", l), 5 => format!("{}\r", l), 6 => format!("{}                ", l), 7 => format!("{}\t", l), 8 => format!("{} comment", l), 9 => format!("{}{}", l, "9".repeat(100)), 10 => format!("{}é", l), _ => l[..67].into() }
        };
        decode(&t, &cut(t.line1(), ix[1], 61), &cut(t.line2(), ix[2], 63), ctx)
    });
    // --- all fields together at their extremes
    let x = |k: usize, v: [i64; 3]| v[k];
    run.space("field extremes together", &[3, 3, 3, 3, 3, 3, 3, 3, 3], |ix, ctx| {
        let t = Tle {
            satnum: "12345".into(), yy: x(ix[0], [0, 56, 57]), day: x(ix[1], [1, 60, 365]), dfrac: x(ix[1], [0, 99_999_999, 12_345_678]), ndot8: x(ix[2], [0, -99_999_999, 99_999_999]),
            nddot: [Z, bst(true, 99999, -9), bst(false, 1, 9)][ix[2]], bstar: [Z, bst(true, 99999, 0), bst(false, 123, -5)][ix[3]],
            incl4: x(ix[4], [0, 1, 1_799_999]), node4: x(ix[5], [0, 1, 3_599_999]), ecc7: x(ix[6], [0, 1, 9_999_999]), argp4: x(ix[7], [0, 9, 3_599_999]), m4: x(ix[8], [0, 99, 3_599_999]), n8: x(ix[4], [1_500_000_000, 100_270_000, 1_699_999_999]),
        };
        plain(&t, ctx)
    });
}
fn run_pick(thorough: bool, q: usize, t: usize) -> usize {
    if thorough { t } else { q }
}

// ---------------------------------------------------------------- C09

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind { Float, Year, Sign, Mant, Exp, Ecc }
struct Field { line: usize, lo: usize, hi: usize, kind: Kind, get: Option<fn(&Satrec) -> f64>, scale: f64 }
fn fields() -> Vec<Field> {
    let f = |line, lo, hi, kind, get: Option<fn(&Satrec) -> f64>, scale| Field { line, lo, hi, kind, get, scale };
    vec![
        f(0, 18, 20, Kind::Year, Some(|r| r.epochyr as f64), 1.0),
        f(0, 20, 32, Kind::Float, Some(|r| r.epochdays), 1.0),
        f(0, 33, 43, Kind::Float, Some(|r| r.ndot), 1.0 / (XPDOTP * 1440.0)),
        f(0, 44, 45, Kind::Sign, None, 1.0), f(0, 45, 50, Kind::Mant, None, 1.0), f(0, 50, 52, Kind::Exp, None, 1.0),
        f(0, 53, 54, Kind::Sign, None, 1.0), f(0, 54, 59, Kind::Mant, None, 1.0), f(0, 59, 61, Kind::Exp, None, 1.0),
        f(1, 8, 16, Kind::Float, Some(|r| r.inclo), D2R), f(1, 17, 25, Kind::Float, Some(|r| r.nodeo), D2R),
        f(1, 26, 33, Kind::Ecc, Some(|r| r.ecco), 1.0),
        f(1, 34, 42, Kind::Float, Some(|r| r.argpo), D2R), f(1, 43, 51, Kind::Float, Some(|r| r.mo), D2R),
        f(1, 52, 63, Kind::Float, Some(|r| r.no), 1.0 / XPDOTP),
    ]
}
#[derive(Debug)]
enum Reading {
    /// cannot be read as a number by any convention
    Bad,
    /// a number; if accepted, this value
    Num(f64),
    /// unusual notation: acceptance and value are left open
    Open,
}
fn digits(s: &str) -> bool { !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit()) }
fn read(kind: Kind, text: &str) -> Reading {
    let t = text.trim_matches(|c| c == ' ');
    match kind {
        Kind::Float => {
            let u = t.strip_prefix(|c| c == '-' || c == '+').unwrap_or(t);
            let (m, e) = match u.find(|c| c == 'e' || c == 'E') { Some(i) => (&u[..i], Some(&u[i + 1..])), None => (u, None) };
            let (a, b) = match m.split_once('.') { Some((a, b)) => (a, b), None => (m, "") };
            let ok = (digits(a) || a.is_empty()) && (digits(b) || b.is_empty()) && !(a.is_empty() && b.is_empty())
                && e.map(|e| digits(e.strip_prefix(|c| c == '-' || c == '+').unwrap_or(e))).unwrap_or(true);
            if !ok { return Reading::Bad; }
            match t.parse::<f64>() { Ok(v) if v.is_finite() => Reading::Num(v), Ok(_) => Reading::Bad, Err(_) => Reading::Open }
        }
        Kind::Year => {
            if digits(t) && t.len() == 2 { Reading::Num(t.parse().unwrap()) }
            else if digits(t) { Reading::Open }
            else if digits(t.strip_prefix(|c| c == '-' || c == '+').unwrap_or(t)) { Reading::Open }
            else { Reading::Bad }
        }
        Kind::Sign => match text { " " | "+" | "-" => Reading::Num(0.0), s if digits(s) || s == "." => Reading::Open, _ => Reading::Bad },
        Kind::Mant | Kind::Ecc => {
            if digits(text) {
                // digits after an implied decimal point
                Reading::Num(format!("0.{}", text).parse().unwrap())
            } else if t.is_empty() { Reading::Open } else if digits(t) {
                if text.ends_with(' ') { Reading::Open } else { Reading::Num(format!("0.{}", text.replace(' ', "0")).parse().unwrap()) }
            } else { Reading::Bad }
        }
        Kind::Exp => {
            let u = t.strip_prefix(|c| c == '-' || c == '+').unwrap_or(t);
            if text.len() == 2 && (text.starts_with('-') || text.starts_with('+')) && digits(u) { Reading::Num(t.parse().unwrap()) }
            else if t.is_empty() || digits(u) { Reading::Open }
            else { Reading::Bad }
        }
    }
}
fn payload(e: &SatrecParseError) -> String {
    match e {
        SatrecParseError::FloatParseError(_, _, _, s) | SatrecParseError::IntParseError(_, _, _, s) | SatrecParseError::CompoundError(_, s) => s.clone(),
        SatrecParseError::SatrecMultiError(_, b) => payload(b),
        _ => String::new(),
    }
}
/// numbers an accepted record takes from the text
fn finite(r: &Satrec) -> Check {
    for (n, v) in [("epochdays", r.epochdays), ("ndot", r.ndot), ("nddot", r.nddot), ("bstar", r.bstar), ("inclo", r.inclo), ("nodeo", r.nodeo), ("ecco", r.ecco), ("argpo", r.argpo), ("mo", r.mo)] {
        if !v.is_finite() { return Err(format!("accepted with {} = {}", n, v)); }
    }
    Ok(())
}
/// judges one pair of lines (both ASCII) through all four entry points
fn judge(l1: &str, l2: &str, base: &Tle, ctx: &mut Ctx) -> Check {
    let fs = fields();
    let tag = |e: String| format!("lines {:?} / {:?}: {}", l1, l2, e);
    let mut bad: Vec<String> = vec![];
    let mut odd: Vec<String> = vec![];
    let mut missing = false;
    let mut vals: Vec<Option<f64>> = vec![];
    for f in &fs {
        let line = if f.line == 0 { l1 } else { l2 };
        let text = if line.len() >= f.hi { &line[f.lo..f.hi] } else if line.len() > f.lo { &line[f.lo..] } else { "" };
        if line.len() <= f.lo { missing = true; vals.push(None); continue; }
        if line.len() < f.hi {
            // cut inside the field: what is left may or may not be a number
            if let (Reading::Bad, true) = (read(f.kind, text), f.kind != Kind::Exp) { bad.push(text.trim().to_string()); }
            if f.kind == Kind::Exp { bad.push(text.trim().to_string()); }
            vals.push(None);
            continue;
        }
        match read(f.kind, text) {
            Reading::Bad => { bad.push(text.trim().to_string()); vals.push(None); }
            Reading::Num(v) => vals.push(Some(v)),
            Reading::Open => { odd.push(text.to_string()); vals.push(None); }
        }
    }
    ctx.step();
    let p = parse_satrec(l1, l2);
    ctx.step();
    let t = twoline2satrec(l1, l2);
    ctx.state((l1, l2));
    let text = format!("{}\n{}", l1, l2);
    ctx.step();
    let s = parse(&text);
    ctx.step();
    let (recs, errs) = parse_multiple(&text);
    if let Ok(r) = &p {
        finite(r).map_err(|e| tag(e))?;
        if !r.no.is_finite() { return Err(tag(format!("accepted with no = {}", r.no))); }
    }
    for r in t.iter().chain(s.iter()).chain(recs.iter()) {
        finite(r).map_err(|e| tag(e))?;
    }
    if !bad.is_empty() || missing {
        ctx.class(if missing { "missing field" } else { "bad field" });
        if p.is_ok() { return Err(tag(format!("accepted although {} not a number", if missing { "a missing field is".to_string() } else { format!("{:?} is", bad) }))); }
        if t.is_ok() || s.is_ok() || !recs.is_empty() { return Err(tag(format!("accepted by a higher entry point although {:?} (or a missing field) is not a number", bad))); }
        if errs.is_empty() && !text.trim().is_empty() { return Err(tag("the catalogue parser reports no error".into())); }
        if !missing {
            let e = p.err().unwrap();
            let pl = payload(&e);
            if !bad.iter().any(|b| pl.contains(b.as_str())) && !odd.iter().any(|o| pl.trim() == o.trim() || pl.contains(o.as_str())) {
                return Err(tag(format!("error {:?} does not carry any of the offending texts {:?}", e, bad)));
            }
        }
    } else if let Ok(r) = &p {
        ctx.class("accepted");
        for (f, v) in fs.iter().zip(vals.iter()) {
            if let (Some(g), Some(v)) = (f.get, v) {
                let w = v * f.scale;
                if !near(g(r), w, 4e-15) { return Err(tag(format!("columns {}-{} of line {} read as {:?}, they say {:?}", f.lo + 1, f.hi, f.line + 1, g(r), w))); }
            }
        }
        for (k, g, sc, lo) in [(3usize, r.nddot, 1.0 / (XPDOTP * 1440.0 * 1440.0), 44usize), (6, r.bstar, 1.0, 53)] {
            if let (Some(_), Some(_), Some(_)) = (vals[k], vals[k + 1], vals[k + 2]) {
                let f = &l1[lo..lo + 8];
                let m: f64 = format!("{}0.{}e{}", f[..1].trim(), f[1..6].replace(' ', "0"), &f[6..]).parse().unwrap();
                if !near(g, m * sc, 4e-15) { return Err(tag(format!("{:?} read as {:?}, says {:?}", f, g, m * sc))); }
            }
        }
    } else {
        // rejected although every field reads as a number by some convention: only the strict
        // notation must be accepted, and that is the base line itself
        if l1 == base.line1() && l2 == base.line2() { return Err(tag(format!("rejected: {:?}", p.err()))); }
        ctx.class("rejected, unusual notation");
    }
    ctx.outcome(match &t { Ok(r) => rec_hash(r), Err(e) => hash(format!("{:?}", e)) });
    ctx.trace();
    Ok(())
}
/// texts that are not pairs of ASCII lines: only soundness can be demanded
fn sound_text(text: &str, ctx: &mut Ctx) -> Check {
    ctx.step();
    let s = parse(text);
    ctx.step();
    let (recs, errs) = parse_multiple(text);
    for r in s.iter().chain(recs.iter()) { finite(r).map_err(|e| format!("text {:?}: {}", text, e))?; }
    if text.trim().is_empty() && (!recs.is_empty() || s.is_ok()) { return Err(format!("text {:?}: a record out of nothing", text)); }
    if !text.trim().is_empty() && recs.is_empty() && errs.is_empty() { return Err(format!("text {:?}: neither a record nor an error", text)); }
    ctx.state(text);
    ctx.outcome(hash(format!("{:?} {:?} {}", s.err(), errs, recs.len())));
    ctx.trace();
    Ok(())
}
fn sound_pair(l1: &str, l2: &str, ctx: &mut Ctx) -> Check {
    ctx.step();
    let p = parse_satrec(l1, l2);
    ctx.step();
    let t = twoline2satrec(l1, l2);
    for r in p.iter().chain(t.iter()) { finite(r).map_err(|e| format!("lines {:?} / {:?}: {}", l1, l2, e))?; }
    if let Ok(r) = &p { if !r.no.is_finite() { return Err(format!("lines {:?} / {:?}: accepted with no = {}", l1, l2, r.no)); } }
    ctx.state((l1, l2));
    sound_text(&format!("{}\n{}", l1, l2), ctx)?;
    sound_text(&format!("T\n{}\n{}\n", l1, l2), ctx)
}
fn mutate(l: &str, c: usize, ch: char) -> String {
    let mut v: Vec<char> = l.chars().collect();
    if c < v.len() { v[c] = ch; } else { v.push(ch); }
    v.into_iter().collect()
}
pub fn c09(run: &mut Run) {
    run.require(&["bad field", "missing field", "accepted", "multi-byte", "truncated"]);
    let bases: Vec<Tle> = vec![leo(), Tle::base(), kinds()[10].1.clone(), kinds()[8].1.clone()];
    // --- truncation at every pair of columns
    run.space("truncation", &[bases.len(), 70, 70], |ix, ctx| {
        let b = &bases[ix[0]];
        let (l1, l2) = (b.line1(), b.line2());
        ctx.class("truncated");
        judge(&l1[..ix[1].min(69)], &l2[..ix[2].min(69)], b, ctx)
    });
    // --- every column x every printable character
    let ascii: Vec<char> = (0u8..128).map(|c| c as char).filter(|c| *c != '\n').collect();
    run.space("one column", &[bases.len(), 2, 69, ascii.len()], |ix, ctx| {
        let b = &bases[ix[0]];
        let (mut l1, mut l2) = (b.line1(), b.line2());
        let ch = ascii[ix[3]];
        if ch.is_ascii_whitespace() && ch != ' ' {
            // other white space may or may not count as a blank
            if ix[1] == 0 { l1 = mutate(&l1, ix[2], ch) } else { l2 = mutate(&l2, ix[2], ch) }
            return sound_pair(&l1, &l2, ctx);
        }
        if ch == '\u{b}' { return Ok(()); }
        if ix[1] == 0 { l1 = mutate(&l1, ix[2], ch) } else { l2 = mutate(&l2, ix[2], ch) }
        if ix[2] == 0 { return sound_pair(&l1, &l2, ctx); }
        judge(&l1, &l2, b, ctx)
    });
    // --- every pair of columns x classes of characters
    let cls: Vec<char> = run.pick(vec![' ', '0', '.', '-', 'x'], vec![' ', '0', '9', '.', '-', '+', 'e', 'x', '_', ',']);
    let nb = run.pick(1usize, 3);
    run.space("two columns", &[nb, 138, 138, cls.len(), cls.len()], |ix, ctx| {
        if ix[1] >= ix[2] { return Ok(()); }
        let b = &bases[ix[0]];
        let mut l = [b.line1(), b.line2()];
        for (p, c) in [(ix[1], ix[3]), (ix[2], ix[4])] {
            if p % 69 == 0 { return Ok(()); }
            l[p / 69] = mutate(&l[p / 69], p % 69, cls[c]);
        }
        judge(&l[0], &l[1], b, ctx)
    });
    // --- whole fields replaced by words
    let words = ["", "nan", "NaN", "-nan", "inf", "-inf", "+inf", "infinity", "Infinity", "1e999", "-1e999", "1e-999", "1e308", "9e307", "0x10", "1,5", "--5", "+-5", "5-", "1.2.3", "1_000", "e5", "1e", "1e+", ".", "-", "+", "-.", ".e1", "abc", "O.5", "1 2", "1. 5", "- 5", "**", "#N/A", "NULL", "true", "5f", "5d0", "1/2", "%", "\"5\"", "0", "-0", "+0", "00000000000", "0.0", "99999999999", "1", "-1", "1.", ".5", "+.5", "-.5", "1e5", "1E-5", "007"];
    let fs = fields();
    run.space("words in fields", &[bases.len(), fs.len(), words.len(), 3], |ix, ctx| {
        let b = &bases[ix[0]];
        let f = &fs[ix[1]];
        let w = f.hi - f.lo;
        let word: String = words[ix[2]].chars().take(w).collect();
        let text = match ix[3] { 0 => format!("{:<w$}", word, w = w), 1 => format!("{:>w$}", word, w = w), _ => format!("{:^w$}", word, w = w) };
        let mut l = [b.line1(), b.line2()];
        l[f.line].replace_range(f.lo..f.hi, &text);
        judge(&l[0], &l[1], b, ctx)
    });
    run.space("words in two fields", &[fs.len(), fs.len(), words.len(), run.pick(6, words.len())], |ix, ctx| {
        if ix[0] >= ix[1] { return Ok(()); }
        let b = &bases[0];
        let mut l = [b.line1(), b.line2()];
        for (k, wd) in [(ix[0], words[ix[2]]), (ix[1], if words.len() > ix[3] { [words[1], words[9], words[0], words[43], words[29], words[51]].get(ix[3]).copied().unwrap_or(words[ix[3]]) } else { "" })] {
            let f = &fs[k];
            let w = f.hi - f.lo;
            let word: String = wd.chars().take(w).collect();
            l[f.line].replace_range(f.lo..f.hi, &format!("{:>w$}", word, w = w));
        }
        judge(&l[0], &l[1], b, ctx)
    });
    // --- multi-byte characters: replacing one column (shifts bytes) or as many columns as bytes
    let multi = ['é', 'ß', '€', '１', '٣', '𝟏', '\u{a0}', '\u{2003}', '\u{200b}', '\u{feff}', '−', '🛰', '\u{fffd}'];
    run.space("multi-byte characters", &[bases.len(), 2, 70, multi.len(), 3], |ix, ctx| {
        let b = &bases[ix[0]];
        let mut l = [b.line1(), b.line2()];
        let m = multi[ix[3]];
        let line = &mut l[ix[1]];
        let at = ix[2].min(69);
        let end = match ix[4] { 0 => at + 1, 1 => at + m.len_utf8(), _ => at }.min(line.len());
        line.replace_range(at.min(line.len())..end.max(at.min(line.len())), &m.to_string());
        ctx.class("multi-byte");
        sound_pair(&l[0], &l[1], ctx)
    });
    run.space("multi-byte characters, then truncated", &[2, 70, 4, 75], |ix, ctx| {
        let b = &bases[0];
        let mut l = [b.line1(), b.line2()];
        let m = ['é', '€', '🛰', '\u{a0}'][ix[2]];
        l[ix[0]].replace_range(ix[1].min(69)..(ix[1] + 1).min(69), &m.to_string());
        let t: String = l[ix[0]].chars().take(ix[3]).collect();
        l[ix[0]] = t;
        sound_pair(&l[0], &l[1], ctx)
    });
    // --- all short texts
    let al: Vec<char> = run.pick(vec!['1', '2', ' ', '\n', '0', 'a', 'é', '\r'], vec!['1', '2', ' ', '\n', '0', 'a', 'é', '\r', '.', '-', '\t', '\0', '🛰']);
    let n = al.len() + 1;
    run.space("all short texts", &[n, n, n, n, n], |ix, ctx| {
        let t: String = ix.iter().filter(|&&i| i > 0).map(|&i| al[i - 1]).collect();
        if parse(&t).is_ok() || !parse_multiple(&t).0.is_empty() { return Err(format!("text {:?} yields a record", t)); }
        sound_text(&t, ctx)
    });
    run.space("all short line pairs", &[n, n, n, n, n, n], |ix, ctx| {
        let g = |s: &[usize]| -> String { s.iter().filter(|&&i| i > 0).map(|&i| al[i - 1]).collect() };
        let (a, b) = (g(&ix[..3]), g(&ix[3..]));
        ctx.step();
        ctx.step();
        ctx.state((&a, &b));
        if parse_satrec(&a, &b).is_ok() || twoline2satrec(&a, &b).is_ok() { return Err(format!("lines {:?} / {:?} yield a record", a, b)); }
        Ok(())
    });
    // --- all sequences of odd lines
    let b = leo();
    let (l1, l2) = (b.line1(), b.line2());
    let lines: Vec<String> = vec![l1.clone(), l2.clone(), "".into(), "0 NAME".into(), "1".into(), "2".into(), "1 ".into(), "2 x".into(), "é".into(), l1[..40].into(), l2[..40].into(), "0".into(), "\r".into(), mutate(&l2, 0, 'é'), format!(" {}", l1)];
    let depth = run.pick(5usize, 6);
    run.space("sequences of odd lines", &vec![lines.len(); depth], |ix, ctx| {
        let t: String = ix.iter().map(|&i| lines[i].as_str()).collect::<Vec<_>>().join("\n");
        let (recs, errs) = { ctx.step(); parse_multiple(&t) };
        let s = { ctx.step(); parse(&t) };
        for r in recs.iter().chain(s.iter()) { finite(r).map_err(|e| format!("text {:?}: {}", t, e))?; }
        if recs.is_empty() && errs.is_empty() && !t.trim().is_empty() { return Err(format!("text {:?}: neither a record nor an error", t)); }
        ctx.outcome((recs.len(), errs.len(), s.is_ok()));
        ctx.state(ix);
        ctx.trace();
        Ok(())
    });
    // --- long input
    run.space("long input", &[6, 5], |ix, ctx| {
        let n = [100usize, 10_000, 100_000, 300_000, 1_000_000, 65_536][ix[0]];
        let t = match ix[1] { 0 => "x".repeat(n), 1 => "\n".repeat(n), 2 => format!("{}{}\n{}", l1, " ".repeat(n), l2), 3 => "1 \n2 \n".repeat(n / 6), _ => format!("{}{}\n{}{}", l1, "9".repeat(n), l2, "é".repeat(n)) };
        ctx.step();
        let (recs, errs) = parse_multiple(&t);
        let _ = parse(&t);
        ctx.state((ix[0], ix[1], 9));
        if recs.is_empty() && errs.is_empty() && !t.trim().is_empty() { return Err("neither a record nor an error".into()); }
        Ok(())
    });
}

// ---------------------------------------------------------------- C10

#[derive(Clone, Copy, PartialEq, Debug)]
enum Entry {
    TwoLine, ThreeZero, ThreePlain, ThreeOdd(usize), Blank(usize),
    BadField1, BadField2, BadFieldT, NoLine2, NoLine1, TitleLine1, TitleLine2, Swapped, Short1, Short2, ShortT, TitleOnly, Refused, RefusedT, Junk, Twice1, Twice2,
    /// element lines without the checksum column
    Bare2, Bare3, BareNoLine2, BareNoLine1,
}
use Entry::*;
const ODD: &[&str] = &["1999-025", "2001 MARS ODYSSEY", "ÉTOILE 1 🛰", "A VERY LONG TITLE LINE THAT IS LONGER THAN ANY ELEMENT LINE COULD EVER BE IN PRACTICE", "0 0 X", "#1", "0 STARLINK-1007          ", "12", "1 HOPPER", "2 FAST", "  LEADING BLANKS"];
impl Entry {
    fn intact(self) -> bool { matches!(self, TwoLine | ThreeZero | ThreePlain | ThreeOdd(_) | Bare2 | Bare3) }
    fn blank(self) -> bool { matches!(self, Blank(_)) }
    /// (lines, expected name)
    fn lines(self, pos: usize) -> (Vec<String>, Option<String>) {
        let (t, bad) = &pool()[pos % POOL];
        let (l1, l2) = (t.0.clone(), t.1.clone());
        let name = format!("SAT {}", (b'A' + (pos % 26) as u8) as char);
        match self {
            TwoLine => (vec![l1, l2], None),
            ThreeZero => (vec![format!("0 {}", name), l1, l2], Some(name)),
            ThreePlain => (vec![format!("{}  ", name), l1, l2], Some(name)),
            ThreeOdd(k) => (vec![ODD[k].to_string(), l1, l2], Some(ODD[k].trim().strip_prefix("0 ").unwrap_or(ODD[k]).trim().to_string())),
            Blank(k) => (vec!["", "   ", "\t"].get(k).map(|s| s.to_string()).into_iter().collect(), None),
            BadField1 => (vec![mutate(&l1, 22, 'x'), l2], None),
            BadField2 => (vec![l1, mutate(&l2, 56, '?')], None),
            BadFieldT => (vec![name, l1, mutate(&l2, 12, 'x')], None),
            NoLine2 => (vec![l1], None),
            NoLine1 => (vec![l2], None),
            TitleLine1 => (vec![name, l1], None),
            TitleLine2 => (vec![format!("0 {}", name), l2], None),
            Swapped => (vec![l2, l1], None),
            Short1 => (vec![l1[..40].to_string(), l2], None),
            Short2 => (vec![l1, l2[..30].to_string()], None),
            ShortT => (vec![name, l1[..58].to_string(), l2], None),
            TitleOnly => (vec![name], None),
            Refused => (vec![bad.0.clone(), bad.1.clone()], None),
            RefusedT => (vec![name, bad.0.clone(), bad.1.clone()], None),
            Junk => (vec!["<html>404 not found</html>".into(), "--".into()], None),
            Twice1 => (vec![name, l1.clone(), l1], None),
            Twice2 => (vec![name, l2.clone(), l2], None),
            Bare2 => (vec![l1[..68].to_string(), l2[..68].to_string()], None),
            Bare3 => (vec![name.clone(), l1[..68].to_string(), l2[..68].to_string()], Some(name)),
            BareNoLine2 => (vec![l1[..68].to_string()], None),
            BareNoLine1 => (vec![l2[..68].to_string()], None),
        }
    }
    /// last line is a lone title-like line, which would become the title of a following two-line entry
    fn ends_title(self) -> bool { matches!(self, TitleOnly | Junk) }
    fn ends_line1(self) -> bool { matches!(self, NoLine2 | BareNoLine2 | TitleLine1 | Swapped | Twice1) }
    fn starts_pair(self) -> bool { matches!(self, TwoLine | Bare2 | BadField1 | BadField2 | Short1 | Short2 | Refused) }
    fn starts_line2(self) -> bool { matches!(self, NoLine1 | BareNoLine1 | Swapped) || matches!(self, ThreeOdd(k) if ODD[k].starts_with("2 ")) }
}
const POOL: usize = 40;
type Pair = (String, String);
fn pool() -> &'static Vec<(Pair, Pair)> {
    static P: std::sync::OnceLock<Vec<(Pair, Pair)>> = std::sync::OnceLock::new();
    P.get_or_init(|| {
        let ks = kinds();
        let good: Vec<Tle> = ks.iter().map(|k| k.1.clone()).filter(|t| crate::refsgp4::Sat::new(crate::refsgp4::Grav::wgs84(), t.elems(), false).prop(0.0).is_ok()).collect();
        (0..POOL)
            .map(|i| {
                let g = &good[i % good.len()];
                let t = Tle { satnum: format!("{:05}", 10001 + 137 * i), m4: (g.m4 + 1000 * (i / good.len()) as i64) % 3_600_000, ..g.clone() };
                // below the surface at epoch
                let r = Tle { satnum: t.satnum.clone(), n8: 1_750_000_000, ecc7: 0, ..leo() };
                ((t.line1(), t.line2()), (r.line1(), r.line2()))
            })
            .collect()
    })
}
/// Is the text ambiguous: do lines of two entries together read as an element set?
fn ambiguous(seq: &[Entry]) -> bool {
    let s: Vec<Entry> = seq.iter().copied().filter(|e| !e.blank()).collect();
    s.windows(2).any(|w| (w[0].ends_title() && w[1].starts_pair()) || (w[0].ends_line1() && w[1].starts_line2()))
}
fn catalogue(seq: &[Entry], eol: &str, tail: bool, ctx: &mut Ctx) -> Check {
    if ambiguous(seq) {
        ctx.class("(skipped: lines of two entries form a set)");
        return Ok(());
    }
    let mut lines: Vec<String> = vec![];
    let mut want: Vec<(Pair, Option<String>)> = vec![];
    let mut damaged: Vec<(usize, usize, Entry)> = vec![];
    let mut idx = 0usize; // index among non-blank lines
    for (pos, e) in seq.iter().enumerate() {
        let (ls, name) = e.lines(pos);
        if e.blank() { lines.extend(ls); continue; }
        if e.intact() { want.push((pool()[pos % POOL].0.clone(), name)); } else { damaged.push((idx, idx + ls.len(), *e)); }
        idx += ls.len();
        lines.extend(ls);
    }
    let mut text = lines.join(eol);
    if tail { text.push_str(eol); }
    judge_catalogue(&text, &want, &damaged, &format!("{:?}", seq), ctx)
}
/// does the catalogue parser return exactly the wanted records, and errors exactly at the damaged entries?
fn judge_catalogue(text: &str, want: &[(Pair, Option<String>)], damaged: &[(usize, usize, Entry)], seq: &str, ctx: &mut Ctx) -> Check {
    ctx.step();
    let (recs, errs) = parse_multiple(text);
    let tag = |e: String| { let (a, b): (String, String) = (seq.chars().take(2000).collect(), text.chars().take(4000).collect()); format!("catalogue {}: {}\n{}", a, e.chars().take(2000).collect::<String>(), b) };
    ctx.state((hash(text), 0));
    if recs.len() != want.len() {
        return Err(tag(format!("{} records for {} intact sets (names {:?}, errors {:?})", recs.len(), want.len(), recs.iter().map(|r| (r.satnum.clone(), r.name.clone())).collect::<Vec<_>>(), errs)));
    }
    for (k, (r, w)) in recs.iter().zip(want).enumerate() {
        if r.name != w.1 { return Err(tag(format!("record {} is named {:?} instead of {:?}", k, r.name, w.1))); }
        let mut alone = alone(&w.0);
        alone.name = w.1.clone();
        if rec_hash(r) != rec_hash(&alone) {
            return Err(tag(format!("record {} differs from that set parsed alone: {}", k, rec_diff(r, &alone, 0.0, &[]).unwrap_or_default())));
        }
    }
    for e in &errs {
        match e {
            SatrecParseError::SatrecMultiError(i, _) if damaged.iter().any(|d| *i >= d.0 && *i < d.1) => {}
            _ => return Err(tag(format!("error {:?} is not positioned in a damaged entry {:?}", e, damaged))),
        }
    }
    for d in damaged {
        if !errs.iter().any(|e| matches!(e, SatrecParseError::SatrecMultiError(i, _) if *i >= d.0 && *i < d.1)) {
            return Err(tag(format!("no error positioned at the damaged entry {:?} (errors {:?})", d, errs)));
        }
    }
    ctx.class(if damaged.is_empty() { "undamaged" } else if want.is_empty() { "only damage" } else { "mixed" });
    ctx.outcome((recs.len(), errs.len(), hash(format!("{:?}", errs))));
    ctx.sample(|| seq.to_string());
    ctx.trace();
    Ok(())
}
fn alone(p: &Pair) -> Satrec {
    static M: std::sync::OnceLock<std::sync::Mutex<std::collections::HashMap<String, Satrec>>> = std::sync::OnceLock::new();
    let m = M.get_or_init(Default::default);
    let key = format!("{}{}", p.0, p.1);
    if let Some(r) = m.lock().unwrap().get(&key) { return r.clone(); }
    let r = match twoline2satrec(&p.0, &p.1) { Ok(r) => r, Err(e) => panic!("well-formed element set rejected: {:?}\n{}\n{}", e, p.0, p.1) };
    m.lock().unwrap().insert(key, r.clone());
    r
}
pub fn c10(run: &mut Run) {
    run.require(&["undamaged", "only damage", "mixed"]);
    let main: Vec<Entry> = vec![TwoLine, ThreeZero, ThreePlain, Blank(0), BadField1, BadField2, BadFieldT, NoLine2, NoLine1, TitleLine1, TitleLine2, Swapped, Short1, Short2, ShortT, TitleOnly, Refused, RefusedT, Junk, Twice1, Twice2];
    let n = main.len();
    for k in 1..=run.pick(4usize, 5) {
        run.space(&format!("all catalogues of {} entries", k), &vec![n; k], |ix, ctx| {
            let seq: Vec<Entry> = ix.iter().map(|&i| main[i]).collect();
            catalogue(&seq, "\n", true, ctx)
        });
    }
    // element sets that share a catalogue number, an epoch, a title or everything
    let base = leo();
    let rel: Vec<Tle> = vec![base.clone(), Tle { day: base.day % 365 + 1, ..base.clone() }, Tle { satnum: "25545".into(), ..base.clone() }, Tle { node4: (base.node4 + 1_000_000) % 3_600_000, ..base.clone() }, Tle { m4: (base.m4 + 1) % 3_600_000, ..base.clone() }];
    let names = [None, Some("TWIN A"), Some("0 TWIN B"), Some("TWIN B")];
    let (nr, nn) = (rel.len(), names.len());
    for k in 2..=run.pick(3usize, 4) {
        run.space(&format!("{} related element sets", k), &vec![nr * nn; k], |ix, ctx| {
            let mut lines: Vec<String> = vec![];
            let mut want: Vec<(Pair, Option<String>)> = vec![];
            for &i in ix {
                let (t, n) = (&rel[i % nr], names[i / nr]);
                lines.extend(n.map(|n| n.to_string()));
                lines.extend([t.line1(), t.line2()]);
                want.push(((t.line1(), t.line2()), n.map(|n| n.strip_prefix("0 ").unwrap_or(n).to_string())));
            }
            judge_catalogue(&lines.join("\n"), &want, &[], "related element sets", ctx)
        });
    }
    // line endings, blank lines, odd titles
    let mut odd: Vec<Entry> = vec![TwoLine, ThreeZero, BadField2, NoLine2, TitleOnly, Blank(0), Blank(1), Blank(2), Bare2, Bare3, BareNoLine2, BareNoLine1];
    odd.extend((0..ODD.len()).map(ThreeOdd));
    let m = odd.len();
    run.space("titles, blank lines and line endings", &[2, 2, m, m, m], |ix, ctx| {
        let seq: Vec<Entry> = ix[2..].iter().map(|&i| odd[i]).collect();
        catalogue(&seq, ["\n", "\r\n"][ix[0]], ix[1] == 0, ctx)
    });
    // long catalogues with one or two damaged places
    let len = run.pick(30usize, 120);
    let dm: Vec<Entry> = main.iter().copied().filter(|e| !e.intact()).collect();
    run.space("long catalogues, one damaged place", &[4, len + 1, dm.len(), 3], |ix, ctx| {
        let mut seq: Vec<Entry> = (0..len).map(|i| match ix[3] { 0 => ThreeZero, 1 => TwoLine, _ => [ThreePlain, TwoLine, ThreeZero][i % 3] }).collect();
        for _ in 0..=ix[0] { seq.insert(ix[1], dm[ix[2]]); }
        catalogue(&seq, "\n", true, ctx)
    });
    run.space("long catalogues, two damaged places", &[len, len, 6, 6], |ix, ctx| {
        if ix[0] > ix[1] { return Ok(()); }
        let d = [NoLine2, NoLine1, BadFieldT, TitleOnly, Short2, Swapped];
        let mut seq: Vec<Entry> = (0..len).map(|i| [ThreePlain, ThreeZero][i % 2]).collect();
        seq.insert(ix[1], d[ix[3]]);
        seq.insert(ix[0], d[ix[2]]);
        catalogue(&seq, "\n", false, ctx)
    });
    // thousands of entries: whatever a counter, buffer or limit could be sized for
    let counts: &[usize] = run.pick(&[63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 1024, 3000][..], &[15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 255, 256, 257, 499, 500, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 3000, 4095, 4096, 4097, 5000][..]);
    run.space("many entries", &[counts.len(), 4 + dm.len()], |ix, ctx| {
        let n = counts[ix[0]];
        let mut seq: Vec<Entry> = (0..n).map(|i| match ix[1] { 0 => ThreeZero, 1 => TwoLine, 2 => [ThreePlain, TwoLine, ThreeZero][i % 3], 3 => [NoLine2, ThreeZero, BadField2, TwoLine][i % 4], k => dm[k - 4] }).collect();
        seq.extend([TwoLine, NoLine1, ThreePlain]);
        catalogue(&seq, "\n", true, ctx)
    });
    run.space("more entries than sixteen bits count", &[run.pick(1, 3)], |ix, ctx| {
        let mut seq: Vec<Entry> = vec![[TwoLine, ThreeZero, ThreePlain][ix[0]]; 66_000];
        seq.extend([NoLine2, ThreeZero]);
        catalogue(&seq, "\n", true, ctx)
    });
    // damage at every column: one set of three cut or spoiled at each column of either line
    run.space("damage at every column", &[2, 69, 2, 3], |ix, ctx| {
        let sets: Vec<(Vec<String>, Option<String>)> = (0..3).map(|p| [ThreeZero, TwoLine, ThreePlain][p].lines(p)).collect();
        let mut lines: Vec<String> = vec![];
        let (mut lo, mut hi) = (0, 0);
        let c = ix[1];
        for (p, s) in sets.iter().enumerate() {
            let mut ls = s.0.clone();
            if p == ix[3] {
                let k = ls.len() - 2 + ix[0];
                // a character no number contains, in a numeric column; or the line cut there
                let l = ls[k].clone();
                ls[k] = if ix[2] == 0 { mutate(&l, c, '$') } else { l[..c].to_string() };
                (lo, hi) = (lines.len(), lines.len() + ls.len());
            }
            lines.extend(ls);
        }
        // cut lines that no longer carry their line number may read as titles: ask only for the others
        if ix[2] == 1 && c < 2 { return Ok(()); }
        if ix[2] == 0 && c < 2 { return Ok(()); }
        let text = lines.join("\n");
        ctx.step();
        let (recs, errs) = parse_multiple(&text);
        ctx.state(hash(&text));
        let tag = |e: String| format!("set {} of three damaged at column {} of line {}: {}\n{}", ix[3] + 1, c + 1, ix[0] + 1, e, text);
        for (p, s) in sets.iter().enumerate() {
            if p == ix[3] { continue; }
            let mut a = alone(&pool()[p].0);
            a.name = s.1.clone();
            if !recs.iter().any(|r| rec_hash(r) == rec_hash(&a)) {
                return Err(tag(format!("set {} is lost (records {:?}, errors {:?})", p + 1, recs.iter().map(|r| (r.satnum.clone(), r.name.clone())).collect::<Vec<_>>(), errs)));
            }
        }
        for e in &errs {
            if !matches!(e, SatrecParseError::SatrecMultiError(i, _) if *i >= lo && *i < hi) { return Err(tag(format!("error {:?} is not positioned at the damaged set", e))); }
        }
        if recs.len() + errs.len() < 3 || (errs.is_empty() && recs.len() != 3) { return Err(tag(format!("{} records, {} errors", recs.len(), errs.len()))); }
        ctx.trace();
        Ok(())
    });
}

// ---------------------------------------------------------------- C11

fn want_name(title: &str) -> Option<String> {
    let t = title.trim();
    if title.trim_start().starts_with("0 ") && t == "0" { return None; } // "0" and nothing but padding: open
    Some(match t.strip_prefix("0 ") { Some(r) => r.trim().to_string(), None => t.to_string() })
}
fn same_everywhere(title: Option<&str>, p: &Pair, layout: &dyn Fn(&[&str]) -> String, ctx: &mut Ctx) -> Check {
    let mut ls: Vec<&str> = vec![];
    if let Some(t) = title { ls.push(t); }
    ls.push(&p.0);
    ls.push(&p.1);
    let text = layout(&ls);
    let tag = |e: String| format!("text {:?}: {}", text, e);
    ctx.step();
    let two = twoline2satrec(&p.0, &p.1);
    ctx.step();
    let one = parse(&text);
    ctx.step();
    let (recs, errs) = parse_multiple(&text);
    ctx.state(&text);
    match (two, one) {
        (Ok(a), Ok(b)) => {
            let name = match title { None => Some(None), Some(t) => want_name(t).map(Some) };
            if recs.len() != 1 || !errs.is_empty() { return Err(tag(format!("the catalogue parser finds {} records, errors {:?}", recs.len(), errs))); }
            if let Some(n) = name {
                if b.name != n { return Err(tag(format!("name {:?} instead of {:?}", b.name, n))); }
                if recs[0].name != n { return Err(tag(format!("the catalogue parser's name is {:?} instead of {:?}", recs[0].name, n))); }
            }
            if a.name.is_some() { return Err(tag(format!("the two-line parser invents the name {:?}", a.name))); }
            for (w, r) in [("single-set", &b), ("catalogue", &recs[0])] {
                let mut r = r.clone();
                r.name = None;
                if rec_hash(&r) != rec_hash(&a) { return Err(tag(format!("the {} parser's record differs from the two-line parser's: {}", w, rec_diff(&r, &a, 0.0, &[]).unwrap_or_default()))); }
            }
            ctx.outcome(hash(format!("{:?}", b.name)));
            ctx.class(if title.is_some() { "three lines" } else { "two lines" });
        }
        (Err(a), Err(b)) => {
            if !recs.is_empty() || errs.is_empty() { return Err(tag("refused by two parsers, accepted by the catalogue parser".into())); }
            if format!("{:?}", a) != format!("{:?}", b) { return Err(tag(format!("errors differ: {:?} and {:?}", a, b))); }
            ctx.class("refused set");
        }
        (a, b) => return Err(tag(format!("two-line parser {:?}, single-set parser {:?}", a.map(|_| "record"), b.map(|_| "record")))),
    }
    ctx.trace();
    Ok(())
}
pub fn c11(run: &mut Run) {
    run.require(&["three lines", "two lines", "refused", "refused set"]);
    let nl = |ls: &[&str]| ls.join("\n");
    // --- all short titles
    let al = ['0', ' ', '1', '2', 'A', 'é', '-', '\t'];
    let n = al.len() + 1;
    let d = run.pick(4usize, 5);
    run.space("all short titles", &vec![n; d], |ix, ctx| {
        let t: String = ix.iter().filter(|&&i| i > 0).map(|&i| al[i - 1]).collect();
        if t.trim().is_empty() || t.contains('\t') && t.trim_start().starts_with("0\t") { return Ok(()); }
        same_everywhere(Some(&t), &pool()[0].0, &nl, ctx)
    });
    let titles = ["0 ISS (ZARYA)", "ISS (ZARYA)", "0 ISS (ZARYA)             ", "  ISS", "00 ZEROS", "0ABC", "0 0 X", "0  TWO BLANKS", "1 HOPPER", "2 FAST", "1", "2", "10 DOWNING", "0.5 SAT", "É", "日本 衛星", "🛰 0 X", "STARLINK-1007", "COSMOS 2251 DEB", "X 0 ", "-", "#", "0 -", "0 1 25544U", "0 É", "0 A", "TBA - TO BE ASSIGNED", "'QUOTED'", "\"Q\"", "A\u{a0}B", "A LONG NAME THAT GOES ON AND ON AND ON UNTIL IT IS LONGER THAN THE ELEMENT LINES THEMSELVES, AND STILL GOES ON"];
    let pads = ["", " ", "     ", "\t", " \t "];
    let eols = ["\n", "\r\n", "\n\n", "\r\n\r\n", "\n   \n", "\n\t\n\n", "\r\n \r\n"];
    run.space("titles x layouts", &[titles.len() + 1, eols.len(), pads.len(), 4, run.pick(4, POOL)], |ix, ctx| {
        let t = if ix[0] == 0 { None } else { Some(titles[ix[0] - 1]) };
        let lay = |ls: &[&str]| {
            let body: Vec<String> = ls.iter().map(|l| format!("{}{}", l, pads[ix[2]])).collect();
            let b = body.join(eols[ix[1]]);
            match ix[3] { 0 => b, 1 => format!("{}{}", b, eols[ix[1]]), 2 => format!("{}{}", eols[ix[1]], b), _ => format!("\n\n{}\n \n", b) }
        };
        same_everywhere(t, &pool()[ix[4]].0, &lay, ctx)
    });
    // every kind of set, refused ones too
    run.space("element sets", &[POOL, 2, 3], |ix, ctx| {
        let p = if ix[1] == 0 { &pool()[ix[0]].0 } else { &pool()[ix[0]].1 };
        same_everywhere([None, Some("0 X"), Some("Y")][ix[2]], p, &nl, ctx)
    });
    run.space("damaged columns", &[2, 69, 4], |ix, ctx| {
        let mut p = pool()[0].0.clone();
        if ix[1] < 2 { return Ok(()); }
        let ch = ['x', ' ', '.', '7'][ix[2]];
        if ix[0] == 0 { p.0 = mutate(&p.0, ix[1], ch) } else { p.1 = mutate(&p.1, ix[1], ch) }
        same_everywhere(Some("0 X"), &p, &nl, ctx)?;
        same_everywhere(None, &p, &nl, ctx)
    });
    // padding of each line on its own
    run.space("padding line by line", &[2, 6, 6, 6], |ix, ctx| {
        let pad = ["", " ", "  ", "\r", "\t", "          "];
        let lay = |ls: &[&str]| ls.iter().enumerate().map(|(i, l)| format!("{}{}", l, pad[ix[1 + i % 3]])).collect::<Vec<_>>().join("\n");
        same_everywhere(if ix[0] == 0 { None } else { Some("0 NAME") }, &pool()[3].0, &lay, ctx)
    });
    // --- line counts and orders
    let (l1, l2) = pool()[0].0.clone();
    let (m1, m2) = pool()[1].0.clone();
    let ls: Vec<String> = vec![l1.clone(), l2.clone(), "0 NAME".into(), "NAME".into(), m1, m2];
    for k in 0..=run.pick(5usize, 6) {
        run.space(&format!("all texts of {} lines", k), &if k == 0 { vec![1] } else { vec![ls.len(); k] }, |ix, ctx| {
            let seq: Vec<usize> = if k == 0 { vec![] } else { ix.to_vec() };
            let text = seq.iter().map(|&i| ls[i].as_str()).collect::<Vec<_>>().join("\n");
            ctx.step();
            let r = parse(&text);
            ctx.state(&text);
            let one = |i: usize| i == 0 || i == 4;
            let two = |i: usize| i == 1 || i == 5;
            let good = (k == 2 && one(seq[0]) && two(seq[1])) || (k == 3 && one(seq[1]) && two(seq[2]));
            // an element line in the place of the title is still some title
            ctx.class(if good { "accepted" } else { "refused" });
            if r.is_ok() && !good { return Err(format!("lines {:?} are accepted as one element set:\n{}", seq, text)); }
            if good && r.is_err() { return Err(format!("refused {:?}:\n{}", r.err(), text)); }
            ctx.trace();
            Ok(())
        });
    }
    let chars: Vec<char> = (33u8..127).map(|c| c as char).chain(['é', '１']).collect();
    run.space("line numbers", &[chars.len(), chars.len(), 2], |ix, ctx| {
        let (a, b) = (chars[ix[0]], chars[ix[1]]);
        let body = format!("{}\n{}", mutate(&l1, 0, a), mutate(&l2, 0, b));
        let text = if ix[2] == 1 { format!("0 NAME\n{}", body) } else { body };
        ctx.step();
        ctx.step();
        let r = parse(&text);
        let m = parse_multiple(&text);
        ctx.state(&text);
        let good = a == '1' && b == '2';
        if r.is_ok() != good { return Err(format!("line numbers {:?} and {:?}: {}", a, b, if good { "refused" } else { "accepted" })); }
        if (m.0.len() == 1) != good || (good && !m.1.is_empty()) { return Err(format!("line numbers {:?} and {:?}: the catalogue parser finds {} records, {} errors", a, b, m.0.len(), m.1.len())); }
        ctx.trace();
        Ok(())
    });
}
