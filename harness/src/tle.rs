//! Reference description of a two-line element set: integers exactly as they stand in the
//! columns, a formatter, and the exact decoded values. Never calls the code under test.
use crate::refsgp4::Elems;
use crate::reftime;

#[derive(Clone, Debug, PartialEq)]
pub struct Tle {
    pub satnum: String,
    /// two-digit year 0..=99
    pub yy: i64,
    /// day of year, 1..=366
    pub day: i64,
    /// fraction of day in units of 1e-8
    pub dfrac: i64,
    /// first derivative field in units of 1e-8 rev/day^2 (signed)
    pub ndot8: i64,
    /// second derivative: sign*mantissa (5 digits, implied leading decimal point), exponent digit with sign
    pub nddot: Exp,
    pub bstar: Exp,
    /// 1e-4 degrees
    pub incl4: i64,
    pub node4: i64,
    pub argp4: i64,
    pub m4: i64,
    /// 1e-7
    pub ecc7: i64,
    /// 1e-8 rev/day
    pub n8: i64,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Exp {
    pub neg: bool,
    /// 0..=99999
    pub mant: i64,
    /// -9..=9
    pub exp: i64,
    /// write exponent sign of a zero exponent as '+' (else '-')
    pub zplus: bool,
}
impl Exp {
    pub const ZERO: Exp = Exp { neg: false, mant: 0, exp: 0, zplus: false };
    pub fn new(neg: bool, mant: i64, exp: i64) -> Exp {
        Exp { neg, mant, exp, zplus: false }
    }
    pub fn text(&self) -> String {
        let es = if self.exp > 0 || (self.exp == 0 && self.zplus) { '+' } else { '-' };
        format!("{}{:05}{}{}", if self.neg { '-' } else { ' ' }, self.mant, es, self.exp.abs())
    }
    pub fn value(&self) -> f64 {
        // correctly rounded decimal value, via the decimal literal
        let s = format!("{}{}e{}", if self.neg { "-" } else { "" }, self.mant, self.exp - 5);
        s.parse().unwrap()
    }
}

pub const D2R: f64 = std::f64::consts::PI / 180.0;
pub const XPDOTP: f64 = 1440.0 / (2.0 * std::f64::consts::PI);

fn dec(int: i64, places: usize) -> f64 {
    format!("{}e-{}", int, places).parse().unwrap()
}

impl Tle {
    pub fn base() -> Tle {
        Tle {
            satnum: "88888".into(), yy: 80, day: 275, dfrac: 98708465, ndot8: 73094,
            nddot: Exp::new(false, 13844, -3), bstar: Exp::new(false, 66816, -4),
            incl4: 728435, node4: 1159689, argp4: 526988, m4: 1105714, ecc7: 86731, n8: 1605824518,
        }
    }
    pub fn line1(&self) -> String {
        let nd = format!("{}.{:08}", if self.ndot8 < 0 { '-' } else { ' ' }, self.ndot8.abs());
        debug_assert!(nd.len() == 10);
        let s = format!(
            "1 {:<5}U 98067A   {:02}{:03}.{:08} {} {} {} 0  999",
            self.satnum, self.yy, self.day, self.dfrac, nd, self.nddot.text(), self.bstar.text()
        );
        let c = checksum(&s);
        format!("{}{}", s, c)
    }
    pub fn line2(&self) -> String {
        let ang = |v: i64| format!("{:8}", format!("{}.{:04}", v / 10000, v % 10000)).to_string();
        let pad = |s: String| format!("{:>8}", s.trim());
        let n = format!("{:>11}", format!("{}.{:08}", self.n8 / 100000000, self.n8 % 100000000));
        let s = format!(
            "2 {:<5} {} {} {:07} {} {} {}{:5}",
            self.satnum, pad(ang(self.incl4)), pad(ang(self.node4)), self.ecc7,
            pad(ang(self.argp4)), pad(ang(self.m4)), n, 16003
        );
        let c = checksum(&s);
        format!("{}{}", s, c)
    }
    pub fn year(&self) -> i64 {
        if self.yy < 57 { 2000 + self.yy } else { 1900 + self.yy }
    }
    /// exact Julian date of the epoch as (integer+half part, fraction in 1e-8 days)
    pub fn epoch_jd_parts(&self) -> (f64, f64) {
        let jd0 = reftime::jd_midnight(self.year(), 1, 1) - 1.0 + self.day as f64;
        (jd0, self.dfrac as f64 / 1e8)
    }
    pub fn epoch_jd(&self) -> f64 {
        let (a, b) = self.epoch_jd_parts();
        a + b
    }
    pub fn epochdays(&self) -> f64 { dec(self.day * 100000000 + self.dfrac, 8) }
    pub fn ecc(&self) -> f64 { dec(self.ecc7, 7) }
    pub fn incl(&self) -> f64 { dec(self.incl4, 4) * D2R }
    pub fn node(&self) -> f64 { dec(self.node4, 4) * D2R }
    pub fn argp(&self) -> f64 { dec(self.argp4, 4) * D2R }
    pub fn m(&self) -> f64 { dec(self.m4, 4) * D2R }
    pub fn n_revday(&self) -> f64 { dec(self.n8, 8) }
    pub fn n_radmin(&self) -> f64 { self.n_revday() / XPDOTP }
    pub fn ndot(&self) -> f64 { dec(self.ndot8, 8) / (XPDOTP * 1440.0) }
    pub fn nddot_val(&self) -> f64 { self.nddot.value() / (XPDOTP * 1440.0 * 1440.0) }
    pub fn elems(&self) -> Elems {
        Elems {
            epoch50: self.epoch_jd() - 2433281.5,
            bstar: self.bstar.value(), e: self.ecc(), argp: self.argp(), incl: self.incl(),
            m: self.m(), n_kozai: self.n_radmin(), node: self.node(),
        }
    }
    /// decode the columns of a well-formed pair (used for the published vectors only)
    pub fn from_lines(l1: &str, l2: &str) -> Tle {
        let i = |s: &str| s.trim().parse::<i64>().unwrap();
        let fx = |s: &str, p: usize| -> i64 {
            let s = s.trim();
            let (neg, s) = if let Some(r) = s.strip_prefix('-') { (true, r) } else { (false, s) };
            let (a, b) = s.split_once('.').unwrap();
            let v = format!("{}{:0<w$}", a, b, w = p).parse::<i64>().unwrap();
            if neg { -v } else { v }
        };
        let ex = |s: &str| Exp {
            neg: s.as_bytes()[0] == b'-', mant: i(&s[1..6]),
            exp: i(&s[6..8].replace('+', "")), zplus: s.as_bytes()[6] == b'+',
        };
        Tle {
            satnum: l1[2..7].trim().into(), yy: i(&l1[18..20]), day: i(&l1[20..23]), dfrac: i(&l1[24..32]),
            ndot8: fx(&l1[33..43], 8), nddot: ex(&l1[44..52]), bstar: ex(&l1[53..61]),
            incl4: fx(&l2[8..16], 4), node4: fx(&l2[17..25], 4), ecc7: i(&l2[26..33]),
            argp4: fx(&l2[34..42], 4), m4: fx(&l2[43..51], 4), n8: fx(&l2[52..63], 8),
        }
    }
}

fn checksum(s: &str) -> u32 {
    s.bytes().map(|b| match b { b'0'..=b'9' => (b - b'0') as u32, b'-' => 1, _ => 0 }).sum::<u32>() % 10
}

/// Mean motion field (1e-8 rev/day) that puts the Keplerian perigee at `perigee_km` for eccentricity `e`.
pub fn n8_for_perigee(perigee_km: f64, e: f64) -> i64 {
    let a = (perigee_km + 6378.137) / (1.0 - e);
    let n = (398600.5 / (a * a * a)).sqrt() * 86400.0 / (2.0 * std::f64::consts::PI);
    (n * 1e8).round() as i64
}
