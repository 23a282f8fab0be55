//! Validates the reference model against published verification vectors (WGS-72), so that the
//! oracle is itself bound to the published model and not to the crate.
use crate::refsgp4::*;
use crate::tle::Tle;

struct V(&'static str, &'static str, &'static [(f64, [f64; 6])]);
const VECS: &[V] = &[
    V("1 00005U 58002B   00179.78495062  .00000023  00000-0  28098-4 0  4753",
      "2 00005  34.2682 348.7242 1859667 331.7664  19.3264 10.82419157413667",
      &[(0.0, [7022.46529266, -1400.08296755, 0.03995155, 1.893841015, 6.405893759, 4.534807250]),
        (360.0, [-7154.03120202, -3783.17682504, -3536.19412294, 4.741887409, -4.151817765, -2.093935425]),
        (720.0, [-7134.59340119, 6531.68641334, 3260.27186483, -4.113793027, -2.911922039, -2.557327851])]),
    V("1 06251U 62025E   06176.82412014  .00008885  00000-0  12808-3 0  3985",
      "2 06251  58.0579  54.0425 0030035 139.1568 221.1854 15.56387291  6774",
      &[(0.0, [3988.31022699, 5498.96657235, 0.90055879, -3.290032738, 2.357652820, 6.496623475]),
        (120.0, [-3935.69800083, 409.10980837, 5471.33577327, -3.374784183, -6.635211043, -1.942056221])]),
    V("1 28057U 03049A   06177.78615833  .00000060  00000-0  35940-4 0  1836",
      "2 28057  98.4283 247.6961 0000884  88.1964 271.9322 14.35478080140550",
      &[(0.0, [-2715.28237486, -6619.26436889, -0.01341443, -1.008587273, 0.422782003, 7.385272942])]),
    V("1 04632U 70093B   04031.91070959 -.00000084  00000-0  10000-3 0  9955",
      "2 04632  11.4628 273.1101 1450506 207.6000 143.9350  1.20231981 44145",
      &[(0.0, [2334.11450085, -41920.44035349, -0.03867437, 2.826321032, -0.065091664, 0.570936053]),
        (-5184.0, [-29020.02587128, 13819.84419063, -5713.33679183, -1.768068390, -3.235371192, -0.395206135])]),
    V("1 09880U 77021A   06176.56157475  .00000421  00000-0  10000-3 0  9814",
      "2 09880  64.5968 349.3786 7069051 270.0229  16.3320  2.00813614112380",
      &[(0.0, [13020.06750784, -2449.07193500, 1.15896030, 4.247363935, 1.597178501, 4.956708611]),
        (120.0, [19190.32482476, 9249.01266902, 26596.71345328, -0.624960193, 1.324550562, 2.495697637])]),
    V("1 11801U          80230.29629788  .01431103  00000-0  14311-1      13",
      "2 11801  46.7916 230.4354 7318036  47.4722  10.4117  2.28537848    13",
      &[(0.0, [7473.37102491, 428.94748312, 5828.74846783, 5.107155391, 6.444680305, -0.186133297]),
        (360.0, [-3305.22148694, 32410.84323331, -24697.16974954, -1.301137319, -1.151315600, -0.283335823])]),
    V("1 14128U 83058A   06176.02844893 -.00000158  00000-0  10000-3 0  9627",
      "2 14128  11.4384  35.2134 0011562  26.4582 333.5652  0.98870114 46093",
      &[(0.0, [34747.57932696, 24502.37114079, -1.32832986, -1.731642662, 2.452772615, 0.608510081]),
        (120.0, [18263.33439094, 38159.96004751, 4186.18304085, -2.744396611, 1.255583260, 0.528558932])]),
    V("1 08195U 75081A   06176.33215444  .00000099  00000-0  11873-3 0   813",
      "2 08195  64.1586 279.0717 6877146 264.7651  20.2257  2.00491383225656",
      &[(0.0, [2349.89483350, -14785.93811562, 0.02119378, 2.721488096, -3.256811655, 4.498416672]),
        (120.0, [15223.91713658, -17852.95881713, 25280.39558224, 1.079041732, 0.875187372, 2.485682813]),
        (240.0, [19752.78050009, -8600.07130962, 37522.72921090, 0.238105279, 1.546110924, 0.986410447])]),
];

pub fn run(verbose: bool) -> Result<usize, String> {
    let mut n = 0;
    for V(l1, l2, vs) in VECS {
        let t = Tle::from_lines(l1, l2);
        let s = Sat::new(Grav::wgs72(), t.elems(), true);
        for (tm, x) in vs.iter() {
            let o = s.prop(*tm).map_err(|c| format!("{} t={} err {}", t.satnum, tm, c))?;
            let dr = (0..3).map(|k| (o.r[k] - x[k]).abs()).fold(0.0, f64::max);
            let dv = (0..3).map(|k| (o.v[k] - x[k + 3]).abs()).fold(0.0, f64::max);
            if verbose {
                println!("{} t={} dr={:.3e} km dv={:.3e} km/s rez={:?}", t.satnum, tm, dr, dv, s.rez());
            }
            if !(dr < 2e-7 && dv < 2e-8) {
                return Err(format!("reference model misses published vector {} t={}: dr={:e} dv={:e}", t.satnum, tm, dr, dv));
            }
            n += 1;
        }
    }
    Ok(n)
}
