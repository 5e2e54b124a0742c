//! C10 (xyY), C11 (L*a*b*), C12 (colour differences).
use crate::core::*;
use crate::props::curves::Prec;
use crate::refm::*;
use colorspace::chromaticity::{xy, XYY};
use colorspace::lab::*;
use colorspace::xyz::XYZ;

fn v3<T: Prec>(v: &XYZ<T>) -> V3 {
    [v.x.into(), v.y.into(), v.z.into()]
}
fn mkxyz<T: Prec>(v: V3) -> XYZ<T> {
    XYZ::new(T::of(v[0]), T::of(v[1]), T::of(v[2]))
}

fn xyy_one<T: Prec>(c: &mut Case, x: f64, y: f64, yy: f64) -> R {
    let p = XYY::<T>::new(T::of(x), T::of(y), T::of(yy));
    let (x, y, yy): (f64, f64, f64) = (p.x.into(), p.y.into(), p.Y.into());
    let e = T::EPS;
    let what = || format!("xyY ({:?},{:?},{:?}) in {} bit", x, y, yy, if e > 1e-10 { 32 } else { 64 });
    let g: XYZ<T> = p.into();
    let g2 = XYZ::<T>::from_chromaticity(p);
    c.eq(v3(&g), v3(&g2), || format!("{}: From and from_chromaticity", what()))?;
    let g = v3(&g);
    let k = 100.0 * yy / y;
    c.near(g[0], x * k, 8.0 * e * (x * k).abs(), || format!("{}: X", what()))?;
    c.near(g[1], 100.0 * yy, 4.0 * e * (100.0 * yy).abs(), || format!("{}: Y", what()))?;
    c.near(g[2], (1.0 - x - y) * k, 8.0 * e * (1.0 + x.abs() + y.abs()) * k.abs(), || format!("{}: Z", what()))?;
    // and back
    if yy != 0.0 {
        let b: XYY<T> = mkxyz::<T>(g).into();
        let cond = (g[0].abs() + g[1].abs() + g[2].abs()) / (g[0] + g[1] + g[2]).abs();
        let (bx, by, bY): (f64, f64, f64) = (b.x.into(), b.y.into(), b.Y.into());
        let t = 24.0 * e * cond;
        c.near(bx, x, t * (1.0 + x.abs()), || format!("{}: x after a round trip", what()))?;
        c.near(by, y, t * (1.0 + y.abs()), || format!("{}: y after a round trip", what()))?;
        c.near(bY, yy, 8.0 * e * yy.abs(), || format!("{}: Y after a round trip", what()))?;
    }
    if yy == 1.0 {
        c.eq(v3(&XYZ::<T>::from_xy(p.x, p.y)), g, || format!("{}: from_xy", what()))?;
        let q = xy(p.x, p.y);
        c.eq((q.x, q.y, q.Y), (p.x, p.y, p.Y), || format!("{}: xy()", what()))?;
    }
    c.outf(g[0] * 3.0 + g[2]);
    c.sample(|| format!("{} -> {:?}", what(), g));
    Ok(())
}

fn xyz_one<T: Prec>(c: &mut Case, v: V3) -> R {
    let p = mkxyz::<T>(v);
    let v = v3(&p);
    let s = v[0] + v[1] + v[2];
    let m = v[0].abs() + v[1].abs() + v[2].abs();
    if !(s.abs() > 1e-3 * m) {
        return c.skip();
    }
    let e = T::EPS;
    let what = || format!("XYZ {:?} in {} bit", v, if e > 1e-10 { 32 } else { 64 });
    let q: XYY<T> = p.into();
    let q2 = XYY::<T>::from_xyz(p);
    c.eq((q.x, q.y, q.Y), (q2.x, q2.y, q2.Y), || format!("{}: From and from_xyz", what()))?;
    let (qx, qy, qY): (f64, f64, f64) = (q.x.into(), q.y.into(), q.Y.into());
    let t = 8.0 * e * m / s.abs();
    c.near(qx, v[0] / s, t * (v[0] / s).abs() + T::TINY, || format!("{}: x", what()))?;
    c.near(qy, v[1] / s, t * (v[1] / s).abs() + T::TINY, || format!("{}: y", what()))?;
    c.near(qY, v[1] / 100.0, 4.0 * e * (v[1] / 100.0).abs() + T::TINY, || format!("{}: luminance", what()))?;
    if v[1] != 0.0 {
        let r = v3(&XYZ::<T>::from(q));
        for k in 0..3 {
            c.near(r[k], v[k], 8.0 * t * (m / s.abs()) * m * (1.0 + (s / v[1]).abs()), || format!("{}: component {} after a round trip", what(), k))?;
        }
        let n = v3(&p.normalized());
        let n100 = v3(&p.normalized_y());
        for k in 0..3 {
            let w = v[k] / v[1];
            c.near(n[k], w, 4.0 * e * w.abs(), || format!("{}: normalized component {}", what(), k))?;
            c.near(n100[k], 100.0 * w, 6.0 * e * 100.0 * w.abs(), || format!("{}: normalized_y component {}", what(), k))?;
        }
    }
    Ok(())
}

pub fn c10(ctx: &Ctx) {
    let xs = [-0.5, -0.1, 0.0, 1e-6, 0.0001, 0.1, 0.15, 0.3, 0.3127, 1.0 / 3.0, 0.5, 0.64, 0.7347, 0.9, 1.0, 1.5];
    let ys = [-0.5, -0.102, -0.077, 1e-4, 0.001, 0.044, 0.06, 0.1, 0.3, 0.3290, 1.0 / 3.0, 0.5, 0.6, 0.83, 0.9, 1.0, 1.5];
    let ls = [0.0, 1e-9, 1e-3, 0.18, 0.5, 1.0, 1.5, 10.0, 100.0, 1e6, -0.25];
    ctx.scope("xyY", (xs.len() * ys.len() * ls.len()) as u64, "all x, y, Y over 16 x 17 x 11 values, both precisions", |i, c| {
        let mut m = Mix(i);
        let (x, y, l) = (*m.of(&xs), *m.of(&ys), *m.of(&ls));
        xyy_one::<f64>(c, x, y, l)?;
        xyy_one::<f32>(c, x, y, l)
    });
    let n = ctx.tier(4096u64, 16384);
    ctx.scope("xy-grid", n, "a complete grid of chromaticities k/N with y > 0, unit luminance, both precisions", |row, c| {
        let y = (row as f64 + 1.0) / n as f64;
        c.states = n;
        for k in 0..n {
            let x = k as f64 / n as f64;
            xyy_one::<f64>(c, x, y, 1.0)?;
            xyy_one::<f32>(c, x, y, 1.0)?;
        }
        Ok(())
    });
    let vs = [-50.0, -1.0, -1e-3, 0.0, 1e-12, 1e-6, 1e-3, 0.18, 1.0, 18.0, 33.3, 95.047, 100.0, 108.883, 1000.0, 1e6, 1e10];
    ctx.scope("XYZ", (vs.len() as u64).pow(3), "all XYZ triples over 17 values with a well-conditioned sum, both precisions", |i, c| {
        let mut m = Mix(i);
        let v = [*m.of(&vs), *m.of(&vs), *m.of(&vs)];
        xyz_one::<f64>(c, v)?;
        let sk = c.skipped;
        xyz_one::<f32>(c, v)?;
        c.skipped = sk && c.skipped;
        Ok(())
    });
    let n = ctx.tier(301usize, 1001);
    ctx.scope("XYZ-grid", (n * n) as u64, "a complete cubic grid over 0..120, both precisions", |i, c| {
        let mut m = Mix(i);
        let s = 120.0 / (n - 1) as f64;
        let (a, b) = (m.pick(n) as f64 * s, m.pick(n) as f64 * s);
        c.states = n as u64;
        for k in 0..n {
            xyz_one::<f64>(c, [a, b, k as f64 * s])?;
            xyz_one::<f32>(c, [a, b, k as f64 * s])?;
        }
        c.skipped = false;
        Ok(())
    });
    // scaling changes only luminance
    let ks = [1e-12, 1e-6, 1e-3, 0.01, 0.1, 0.25, 0.5, 2.0, 3.0, 10.0, 100.0, 255.0, 1e4, 1e8];
    let vs = [0.0, 0.5, 1.0, 7.0, 18.4, 50.0, 95.047, 100.0, 108.883, -3.0];
    ctx.scope("scaling", (ks.len() * vs.len().pow(3)) as u64, "every XYZ triple over 10 values x 14 scale factors: chromaticity unchanged, luminance scaled", |i, c| {
        let mut m = Mix(i);
        let k = *m.of(&ks);
        let v: [f64; 3] = [*m.of(&vs), *m.of(&vs), *m.of(&vs)];
        let (s, a) = (v[0] + v[1] + v[2], v[0].abs() + v[1].abs() + v[2].abs());
        if s.abs() <= 1e-2 * a {
            return c.skip();
        }
        fn go<T: Prec>(c: &mut Case, v: V3, k: f64, cond: f64) -> R {
            let p = mkxyz::<T>(v);
            let q = p * T::of(k);
            let (a, b): (XYY<T>, XYY<T>) = (p.into(), q.into());
            let t = 32.0 * T::EPS * cond * cond;
            c.near(b.x.into(), a.x.into(), t, || format!("x of {:?} scaled by {}", v, k))?;
            c.near(b.y.into(), a.y.into(), t, || format!("y of {:?} scaled by {}", v, k))?;
            let w: f64 = a.Y.into();
            c.near(b.Y.into(), w * k, 8.0 * T::EPS * (w * k).abs() + T::TINY, || format!("Y of {:?} scaled by {}", v, k))
        }
        go::<f64>(c, v, k, a / s.abs())?;
        go::<f32>(c, v, k, a / s.abs())
    });
}

// ----------------------------------------------------------------------------- C11

fn lab_one<T: Prec>(c: &mut Case, rel: V3, w: V3) -> R {
    let wh = mkxyz::<T>(w);
    let p = mkxyz::<T>([rel[0] * w[0], rel[1] * w[1], rel[2] * w[2]]);
    let (wv, pv) = (v3(&wh), v3(&p));
    let e = T::EPS;
    let what = || format!("XYZ {:?} white {:?} in {} bit", pv, wv, if e > 1e-10 { 32 } else { 64 });
    let l: Lab<T> = xyz_to_lab(p, wh);
    let want = ref_xyz_to_lab(&pv, &wv);
    let got: V3 = [l.L.into(), l.a.into(), l.b.into()];
    // conditioning: f is computed from a rounded ratio
    let f: Vec<f64> = (0..3).map(|k| lab_f(pv[k] / wv[k]).abs()).collect();
    let fe = |k: usize| 8.0 * e * (f[k] + 0.14);
    c.near(got[0], want[0], 116.0 * fe(1) + 16.0 * e, || format!("{}: L*", what()))?;
    c.near(got[1], want[1], 500.0 * (fe(0) + fe(1)), || format!("{}: a*", what()))?;
    c.near(got[2], want[2], 200.0 * (fe(2) + fe(1)), || format!("{}: b*", what()))?;
    // and back
    let b = v3(&lab_to_xyz(l, wh));
    let t = 24.0 * e * (f[0] + f[1] + f[2] + 0.3);
    for k in 0..3 {
        let slope = (3.0 * f[k] * f[k]).max(0.13);
        c.near(b[k], pv[k], wv[k] * t * slope, || format!("{}: component {} after a round trip through {:?}", what(), k, got))?;
    }
    c.outf(got[0] + got[1] * 3.0 + got[2] * 7.0);
    c.sample(|| format!("{} -> {:?}", what(), got));
    Ok(())
}

fn lab_back<T: Prec>(c: &mut Case, l: V3, w: V3) -> R {
    let q = lab(T::of(l[0]), T::of(l[1]), T::of(l[2]));
    let wh = mkxyz::<T>(w);
    let lv: V3 = [q.L.into(), q.a.into(), q.b.into()];
    let wv = v3(&wh);
    let e = T::EPS;
    let got = v3(&lab_to_xyz(q, wh));
    let want = ref_lab_to_xyz(&lv, &wv);
    let fy = (lv[0] + 16.0) / 116.0;
    let f = [fy + lv[1] / 500.0, fy, fy - lv[2] / 200.0];
    let fe = 8.0 * e * (fy.abs() + (lv[1] / 500.0).abs() + (lv[2] / 200.0).abs() + 0.14);
    for k in 0..3 {
        let slope = (3.0 * f[k] * f[k]).max(0.13);
        c.near(got[k], want[k], wv[k] * fe * slope, || format!("Lab {:?} white {:?} component {}", lv, wv, k))?;
    }
    // Lab -> XYZ -> Lab
    let b: Lab<T> = xyz_to_lab(mkxyz::<T>(got), wh);
    let back: V3 = [b.L.into(), b.a.into(), b.b.into()];
    let m = f.iter().fold(0.14f64, |m, v| m.max(v.abs()));
    // near a cube root of zero slope the inverse is a straight line: bounded by 7.8
    let t = 40.0 * e * m;
    for (k, s) in [116.0, 1000.0, 400.0].into_iter().enumerate() {
        c.near(back[k], lv[k], s * t, || format!("Lab {:?} white {:?} coordinate {} after a round trip", lv, wv, k))?;
    }
    Ok(())
}

pub fn c11(ctx: &Ctx) {
    let eps = LAB_EPS;
    let up = |n: i64| f64::from_bits((eps.to_bits() as i64 + n) as u64);
    let mut rel = vec![
        -0.5, -0.01, -1e-5, 0.0, 1e-9, 1e-6, 1e-4, 1e-3, 0.003, 0.005, 0.007, 0.0085, eps - 1e-7, up(-1), eps, up(1), eps + 1e-7, 0.009, 0.01, 0.02, 0.05, 0.1, 0.1842, 0.3, 0.5, 0.75, 0.9, 0.999, 1.0, 1.001, 1.5, 2.0, 10.0, 100.0,
    ];
    {
        for k in 0..ctx.tier(40, 160) {
            rel.push(0.0005 * (k as f64 + 0.5));
        }
        for k in 0..30 {
            rel.push(0.04 * (k as f64 + 0.3));
        }
    }
    let whites: Vec<V3> = vec![
        [95.0455927, 100.0, 108.9057751],
        [96.4296, 100.0, 82.5105],
        [109.850, 100.0, 35.585],
        [100.0, 100.0, 100.0],
        [0.9505, 1.0, 1.089],
        [37.0, 20.0, 5.0],
        [1.0, 1000.0, 30.0],
    ];
    let n = rel.len();
    ctx.scope("lattice", (n * n * n * whites.len()) as u64, "all triples of relative values around every branch x 7 whites x both precisions", |i, c| {
        let mut m = Mix(i);
        let v = [*m.of(&rel), *m.of(&rel), *m.of(&rel)];
        let w = *m.of(&whites);
        lab_one::<f64>(c, v, w)?;
        lab_one::<f32>(c, v, w)
    });
    let k = ctx.tier(1u64 << 22, 1 << 25);
    ctx.scope("axis", 3 * 512, "a dense sweep of each coordinate over 0..2, the others fixed, both precisions", |i, c| {
        let mut m = Mix(i);
        let (ax, blk) = (m.pick(3), m.pick(512) as u64);
        c.states = k / 512;
        for j in 0..k / 512 {
            let t = 2.0 * ((blk * (k / 512) + j) as f64) / k as f64;
            let mut v = [0.4, 0.3, 0.2];
            v[ax] = t;
            lab_one::<f64>(c, v, whites[(j % 4) as usize])?;
            lab_one::<f32>(c, v, whites[(j % 4) as usize])?;
        }
        Ok(())
    });
    ctx.scope("dark-axis", 3 * 64, "a dense sweep of each coordinate through the branch point, the others on either side of theirs", |i, c| {
        let mut m = Mix(i);
        let (ax, blk) = (m.pick(3), m.pick(64) as u64);
        c.states = 1024;
        for j in 0..1024 {
            let t = 0.02 * ((blk * 1024 + j) as f64) / 65536.0;
            let mut v = if j % 2 == 0 { [0.4, 0.3, 0.2] } else { [0.004, 0.003, 0.002] };
            v[ax] = t;
            lab_one::<f64>(c, v, whites[(j / 2 % 7) as usize])?;
            lab_one::<f32>(c, v, whites[(j / 2 % 7) as usize])?;
        }
        Ok(())
    });
    let mut ls = vec![0.0, 0.5, 2.0, 7.0, 7.9999, 8.0, 8.0001, 9.0, 20.0, 40.0, 50.0, 60.5, 80.0, 99.0, 100.0, 110.0];
    let mut ab = vec![-160.0, -128.0, -100.0, -60.0, -30.0, -12.0, -3.0, -0.5, -1e-4, 0.0, 1e-4, 0.5, 3.0, 12.0, 27.6, 30.0, 60.0, 100.0, 128.0, 160.0];
    {
        for k in 0..60 {
            ls.push(1.7 * k as f64 + 0.3);
            ab.push(5.3 * k as f64 - 159.0);
        }
    }
    ctx.scope("from-lab", (ls.len() * ab.len() * ab.len() * whites.len()) as u64, "all Lab triples x 7 whites x both precisions, to XYZ and back", |i, c| {
        let mut m = Mix(i);
        let v = [*m.of(&ls), *m.of(&ab), *m.of(&ab)];
        let w = *m.of(&whites);
        lab_back::<f64>(c, v, w)?;
        lab_back::<f32>(c, v, w)
    });
    // fixed points, whatever the white, and colours given as xyY
    let xyw = [[0.3127, 0.3290], [0.3457, 0.3585], [0.44757, 0.40745], [1.0 / 3.0, 1.0 / 3.0], [0.25, 0.2]];
    let ks = ctx.tier(20001u64, 200001);
    ctx.scope("greys", ks * (whites.len() + xyw.len()) as u64, "multiples k/1000 of each white have a=b=0 and the right L; whites and colours also given as xyY", |i, c| {
        let mut m = Mix(i);
        let (k, wi) = (m.pick(ks as usize), m.pick(whites.len() + xyw.len()));
        let s = k as f64 / (ks - 1) as f64 * 2.0;
        fn go<T: Prec>(c: &mut Case, s: f64, w: V3, xyw: Option<[f64; 2]>) -> R {
            let l: Lab<T> = match xyw {
                None => {
                    let wh = mkxyz::<T>(w);
                    xyz_to_lab(wh * T::of(s), wh)
                }
                Some(p) => xyz_to_lab(XYY::<T>::new(T::of(p[0]), T::of(p[1]), T::of(s)), XYY::<T>::new(T::of(p[0]), T::of(p[1]), T::of(1.0))),
            };
            let f = lab_f(s);
            let t = 8.0 * T::EPS * (f + 0.14);
            c.near(l.L.into(), 116.0 * f - 16.0, 232.0 * t, || format!("L of {} x white", s))?;
            c.near(l.a.into(), 0.0, 1000.0 * t, || format!("a of {} x white", s))?;
            c.near(l.b.into(), 0.0, 400.0 * t, || format!("b of {} x white", s))
        }
        let (w, x) = if wi < whites.len() { (whites[wi], None) } else { ([0.0; 3], Some(xyw[wi - whites.len()])) };
        go::<f64>(c, s, w, x)?;
        go::<f32>(c, s, w, x)
    });
}

// ----------------------------------------------------------------------------- C12

fn de_pair<T: Prec>(c: &mut Case, p: V3, q: V3) -> R {
    let mk = |v: V3| lab(T::of(v[0]), T::of(v[1]), T::of(v[2]));
    let (a, b) = (mk(p), mk(q));
    let (p, q): (V3, V3) = ([a.L.into(), a.a.into(), a.b.into()], [b.L.into(), b.a.into(), b.b.into()]);
    let single = T::EPS > 1e-10;
    let what = || format!("Lab {:?} and {:?} in {} bit", p, q, if single { 32 } else { 64 });
    let (d1, d2): (f64, f64) = (delta_E_2000(a, b).into(), delta_E_2000(b, a).into());
    let want = ref_de2000(&p, &q, if single { 1e-3 } else { 1e-9 });
    let mag = p.iter().chain(q.iter()).fold(1.0f64, |m, v| m.max(v.abs()));
    let tol = |w: f64| if single { 4e-6 * mag.max(20.0) + 2e-5 * w } else { 1e-12 * mag.max(20.0) + 1e-11 * w };
    for (n, d) in [("", d1), (" swapped", d2)] {
        if !want.iter().any(|w| (d - w).abs() <= tol(*w)) {
            return Err(format!("{}: CIEDE2000{} is {:?}, expected {:?} (tolerance {:e})", what(), n, d, want, tol(want[0])));
        }
        c.ensure(d >= 0.0, || format!("{}: CIEDE2000{} is {:?}", what(), n, d))?;
    }
    if want.len() == 1 {
        c.near(d1, d2, 2.0 * tol(d1), || format!("{}: symmetry", what()))?;
    }
    let (e1, e2): (f64, f64) = (delta_E_1976(a, b).into(), delta_E_1976(b, a).into());
    let e = ((p[0] - q[0]).powi(2) + (p[1] - q[1]).powi(2) + (p[2] - q[2]).powi(2)).sqrt();
    c.near(e1, e, 8.0 * T::EPS * e, || format!("{}: CIE76", what()))?;
    c.near(e2, e, 8.0 * T::EPS * e, || format!("{}: CIE76 swapped", what()))?;
    if p == q {
        c.eq((d1, e1), (0.0, 0.0), || format!("{}: coinciding colours", what()))?;
    } else {
        c.ensure(e1 > 0.0, || format!("{}: distinct colours have CIE76 difference {:?}", what(), e1))?;
    }
    c.outf(d1);
    c.sample(|| format!("{} -> dE00 {:?} dE76 {:?}", what(), d1, e1));
    Ok(())
}

pub fn c12(ctx: &Ctx) {
    ctx.assume("where the hue difference is within rounding of 180 degrees the two sides of the formula's discontinuity are both accepted");
    // lattice: axes, tiny and opposite chroma, the blue rotation region
    let ls: Vec<f64> = vec![0.0, 30.0, 50.0, 73.0, 100.0];
    let ab: Vec<f64> = ctx.tier(
        vec![-128.0, -82.7485, -55.0, -30.0, -12.0, -2.49, -1.0, -0.001, 0.0, 0.0009, 0.001, 1.0, 2.49, 2.6772, 12.0, 30.0, 55.0, 82.7485, 128.0],
        vec![-128.0, -110.0, -95.0, -82.7485, -70.0, -55.0, -42.0, -30.0, -21.0, -12.0, -5.0, -2.49, -1.0, -0.03, -0.001, 0.0, 0.0009, 0.001, 0.03, 1.0, 2.49, 2.6772, 5.0, 12.0, 21.0, 30.0, 42.0, 55.0, 70.0, 82.7485, 95.0, 110.0, 128.0],
    );
    let n = ls.len() * ab.len() * ab.len();
    let pick = |k: usize| {
        let mut m = Mix(k as u64);
        [*m.of(&ls), *m.of(&ab), *m.of(&ab)]
    };
    ctx.scope("pairs", n as u64, "all ordered pairs of the Lab lattice (tiny, opposite and axis-aligned chroma), both precisions", |i, c| {
        let p = pick(i as usize);
        c.states = n as u64;
        for j in 0..n {
            let q = pick(j);
            de_pair::<f64>(c, p, q)?;
            de_pair::<f32>(c, p, q)?;
        }
        Ok(())
    });
    // hue rings
    let step = 1usize;
    let hues = 360 / step;
    let rads = ctx.tier(vec![0.01, 0.5, 5.0, 20.0, 50.0, 90.0, 130.0], (0..24).map(|k| 0.01 + 6.5 * k as f64).collect());
    let nr = hues * rads.len();
    let ring = |k: usize| {
        let (h, r) = (k % hues, rads[k / hues]);
        let t = (h * step) as f64 * std::f64::consts::PI / 180.0;
        [50.0, r * t.cos(), r * t.sin()]
    };
    ctx.scope("hue-rings", nr as u64, "all ordered pairs of hues x chromas at equal lightness, both precisions", |i, c| {
        let p = ring(i as usize);
        c.states = nr as u64;
        for j in 0..nr {
            let q = ring(j);
            de_pair::<f64>(c, p, q)?;
            de_pair::<f32>(c, p, q)?;
        }
        Ok(())
    });
    // every pair of lightnesses, and every pair of chromas, against a few hues and differences
    let nl = ctx.tier(231usize, 1151);
    let li = |k: usize| -5.0 + 115.0 * k as f64 / (nl - 1) as f64;
    let two = [([0.0, 0.0], [0.0, 0.0]), ([2.0, -1.0], [-1.0, 3.0]), ([20.0, 30.0], [25.0, 28.0]), ([-70.0, 10.0], [-60.0, -15.0]), ([10.0, -80.0], [-5.0, -95.0]), ([60.0, 0.0], [0.0, 60.0])];
    ctx.scope("lightnesses", (nl * two.len()) as u64, "all ordered pairs of lightnesses from -5 to 110 every 0.5 (thorough 0.1) x 6 pairs of chromatic coordinates, both precisions", |i, c| {
        let mut m = Mix(i);
        let (k, (p, q)) = (m.pick(nl), *m.of(&two));
        c.states = nl as u64;
        for j in 0..nl {
            de_pair::<f64>(c, [li(k), p[0], p[1]], [li(j), q[0], q[1]])?;
            de_pair::<f32>(c, [li(k), p[0], p[1]], [li(j), q[0], q[1]])?;
        }
        Ok(())
    });
    let nc = ctx.tier(161usize, 641);
    let ch = |k: usize| 160.0 * k as f64 / (nc - 1) as f64;
    let dh = [0.0, 7.0, 45.0, 90.0, 135.0, 179.5, -30.0, -179.5];
    ctx.scope("chromas", (nc * 24 * dh.len()) as u64, "all ordered pairs of chromas from 0 to 160 every 1 (thorough 0.25) x 24 hues x 8 hue differences, both precisions", |i, c| {
        let mut m = Mix(i);
        let (k, h, d) = (m.pick(nc), m.pick(24) as f64 * 15.0, *m.of(&dh));
        let (t, u) = (h.to_radians(), (h + d).to_radians());
        let p = [60.0, ch(k) * t.cos(), ch(k) * t.sin()];
        c.states = nc as u64;
        for j in 0..nc {
            let q = [55.0, ch(j) * u.cos(), ch(j) * u.sin()];
            de_pair::<f64>(c, p, q)?;
            de_pair::<f32>(c, p, q)?;
        }
        Ok(())
    });
    // close pairs in every direction
    let base: Vec<V3> = {
        let mut b = vec![];
        for l in [0.0, 20.0, 50.0, 80.0, 100.0] {
            for h in 0..24 {
                for r in [0.0, 3.0, 25.0, 60.0, 110.0] {
                    let t = h as f64 * 15.0 * std::f64::consts::PI / 180.0;
                    b.push([l, r * t.cos(), r * t.sin()]);
                }
            }
        }
        b
    };
    let ds = [1e-3, 1e-2, 0.1, 0.5, 1.0, 2.3, 5.0];
    let dirs: Vec<V3> = {
        let mut d = vec![];
        for x in [-1.0, 0.0, 1.0] {
            for y in [-1.0, 0.0, 1.0] {
                for z in [-1.0, 0.0, 1.0] {
                    d.push([x, y, z]);
                }
            }
        }
        d
    };
    ctx.scope("neighbours", (base.len() * ds.len() * dirs.len()) as u64, "every base colour x 27 directions x 7 distances, both precisions", |i, c| {
        let mut m = Mix(i);
        let (p, d, r) = (*m.of(&base), *m.of(&ds), *m.of(&dirs));
        let q = [p[0] + d * r[0], p[1] + d * r[1], p[2] + d * r[2]];
        de_pair::<f64>(c, p, q)?;
        de_pair::<f32>(c, p, q)
    });
    // extreme and special magnitudes: never NaN
    let xs = [0.0, -0.0, 1e-30, -1e-30, 1e-7, -1e-7, 25.0, -300.0, 1e3, -1e4, 1e4];
    ctx.scope("extremes", (xs.len() as u64).pow(6) / 11, "signed zeros, subnormal-scale and very large components (all 11^5 combinations with equal lightness): finite, non-negative and symmetric", |i, c| {
        let mut m = Mix(i);
        let v: Vec<f64> = (0..5).map(|_| *m.of(&xs)).collect();
        let l = v[4].abs();
        fn go<T: Prec>(c: &mut Case, v: &[f64], l: f64) -> R {
            let a = lab(T::of(l), T::of(v[0]), T::of(v[1]));
            let b = lab(T::of(l), T::of(v[2]), T::of(v[3]));
            let (d, e): (f64, f64) = (delta_E_2000(a, b).into(), delta_E_1976(a, b).into());
            c.ensure(d.is_finite() && d >= 0.0, || format!("CIEDE2000 of L={} {:?} and {:?} is {:?}", l, &v[..2], &v[2..4], d))?;
            c.ensure(e.is_finite() && e >= 0.0, || format!("CIE76 of L={} {:?} and {:?} is {:?}", l, &v[..2], &v[2..4], e))?;
            if v[0] == v[2] && v[1] == v[3] {
                c.eq((d, e), (0.0, 0.0), || format!("coinciding colours L={} {:?}", l, &v[..2]))?;
            }
            Ok(())
        }
        go::<f64>(c, &v, l)?;
        go::<f32>(c, &v, l)
    });
}
