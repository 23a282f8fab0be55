//! Reference geodesy (WGS-84 ellipsoid), arranged differently from the code under test.
pub const A: f64 = 6378.137;
pub const B: f64 = 6356.7523142;

/// via the reduced (parametric) latitude
pub fn to_ecf(lat: f64, lon: f64, h: f64) -> [f64; 3] {
    let (sl, cl) = lat.sin_cos();
    // foot point: (A cos b, B sin b) with tan b = (B/A) tan lat
    let d = (A * cl).hypot(B * sl);
    let (p, z) = (A * (A * cl) / d + h * cl, B * (B * sl) / d + h * sl);
    let (so, co) = lon.sin_cos();
    [p * co, p * so, z]
}
/// (latitude, longitude, height) by Newton iteration on the reduced latitude; for points outside
/// the deep interior
pub fn from_ecf(r: &[f64; 3]) -> (f64, f64, f64) {
    let p = r[0].hypot(r[1]);
    let z = r[2];
    let c2 = A * A - B * B;
    // minimise distance to (A cos b, B sin b): A p sin b - B z cos b - c2 sin b cos b = 0
    let mut b = (z / B).atan2(p / A);
    for _ in 0..50 {
        let (s, c) = b.sin_cos();
        let f = A * p * s - B * z * c - c2 * s * c;
        let g = A * p * c + B * z * s - c2 * (c * c - s * s);
        let d = f / g;
        b -= d;
        if d.abs() < 1e-17 { break; }
    }
    let (s, c) = b.sin_cos();
    let lat = (A * s).atan2(B * c);
    let (dx, dz) = (p - A * c, z - B * s);
    let h = dx * lat.cos() + dz * lat.sin();
    (lat, r[1].atan2(r[0]), h)
}
pub fn rot(v: &[f64; 3], a: f64) -> [f64; 3] {
    let (s, c) = a.sin_cos();
    [c * v[0] - s * v[1], s * v[0] + c * v[1], v[2]]
}
pub fn dot(a: &[f64; 3], b: &[f64; 3]) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
pub fn sub(a: &[f64; 3], b: &[f64; 3]) -> [f64; 3] {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
/// unit vectors (south, east, up) at a geodetic position
pub fn sez(lat: f64, lon: f64) -> [[f64; 3]; 3] {
    let (sl, cl) = lat.sin_cos();
    let (so, co) = lon.sin_cos();
    [[sl * co, sl * so, -cl], [-so, co, 0.0], [cl * co, cl * so, sl]]
}
pub fn angle_diff(a: f64, b: f64) -> f64 {
    let d = (a - b) % std::f64::consts::TAU;
    let d = d.abs();
    d.min(std::f64::consts::TAU - d)
}
