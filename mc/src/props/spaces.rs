//! C04, C05, C06, C08: colour spaces, adaptation, routes.
use crate::core::*;
use crate::props::curves::{spaces32, spaces64, Prec};
use crate::refm::*;
use colorspace::chromatic_adaptation::{bradford, cat02, von_kries};
use colorspace::chromaticity::XYY;
use colorspace::color_space_rgb::ColorSpaceRGB;
use colorspace::math::Matrix33;
use colorspace::rgb::RGBf;
use colorspace::transform::*;
use colorspace::xyz::XYZ;

pub fn m_of<T: Prec>(m: &Matrix33<T>) -> M3 {
    let x: Vec<f64> = m.x.iter().map(|v| (*v).into()).collect();
    [[x[0], x[1], x[2]], [x[3], x[4], x[5]], [x[6], x[7], x[8]]]
}
fn xyy_of<T: Prec>(c: &XYY<T>) -> [f64; 3] {
    [c.x.into(), c.y.into(), c.Y.into()]
}

fn near_m(c: &mut Case, got: &M3, want: &M3, tol: f64, what: &str) -> R {
    for i in 0..3 {
        for j in 0..3 {
            c.near(got[i][j], want[i][j], tol, || format!("{} entry ({},{})", what, i, j))?;
        }
    }
    Ok(())
}
const ID: M3 = [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]];

fn space_check<T: Prec>(c: &mut Case, s: &ColorSpaceRGB<T>, d: &SpaceDef) -> R {
    let e = T::EPS;
    let n = d.name;
    for (what, got, want) in [("red", &s.red, d.r), ("green", &s.green, d.g), ("blue", &s.blue, d.b), ("white", &s.white, d.w)] {
        let g = xyy_of(got);
        c.near(g[0], want[0], e, || format!("{} {} x", n, what))?;
        c.near(g[1], want[1], e, || format!("{} {} y", n, what))?;
        c.near(g[2], 1.0, 0.0, || format!("{} {} Y", n, what))?;
    }
    let (x2r, r2x) = d.matrices();
    let (gx2r, gr2x) = (m_of(&s.xf_xyz_to_rgb), m_of(&s.xf_rgb_to_xyz));
    let k = if d.mats.is_some() { 1.0 } else { 16.0 };
    near_m(c, &gx2r, &x2r, e * k * m_maxabs(&x2r), &format!("{} XYZ->RGB", n))?;
    near_m(c, &gr2x, &r2x, e * k * m_maxabs(&r2x), &format!("{} RGB->XYZ", n))?;
    // consequences, observed through the conversion functions
    let dev = d.dev + e * 40.0;
    near_m(c, &m_mul(&gx2r, &gr2x), &ID, dev, &format!("{} XYZ->RGB * RGB->XYZ", n))?;
    near_m(c, &m_mul(&gr2x, &gx2r), &ID, dev, &format!("{} RGB->XYZ * XYZ->RGB", n))?;
    let pub_tol = if d.mats.is_some() { 1.2e-4 } else { 0.0 } + e * 40.0;
    let w = xy_to_xyz(d.w);
    let one = RGBf::<T>::new(T::of(1.0), T::of(1.0), T::of(1.0));
    let g = rgb_to_xyz(&s.xf_rgb_to_xyz, one);
    for (i, (got, want)) in [(g.x, w[0]), (g.y, w[1]), (g.z, w[2])].into_iter().enumerate() {
        c.near(got.into(), 100.0 * want, 100.0 * pub_tol, || format!("{} white component {}", n, i))?;
    }
    let back = xyz_to_rgb(&s.xf_xyz_to_rgb, XYZ::<T>::new(T::of(100.0 * w[0]), T::of(100.0 * w[1]), T::of(100.0 * w[2])));
    for (i, got) in [back.r, back.g, back.b].into_iter().enumerate() {
        c.near(got.into(), 1.0, 4.0 * pub_tol, || format!("{} RGB of white, channel {}", n, i))?;
    }
    for (i, p) in [d.r, d.g, d.b].into_iter().enumerate() {
        let mut q = RGBf::<T>::new(T::of(0.0), T::of(0.0), T::of(0.0));
        q[i] = T::of(1.0);
        let x = rgb_to_xyz(&s.xf_rgb_to_xyz, q);
        let v: [f64; 3] = [x.x.into(), x.y.into(), x.z.into()];
        let sum = v[0] + v[1] + v[2];
        let tol = if d.mats.is_some() { 2.5e-4 } else { 0.0 } + e * 40.0;
        c.near(v[0] / sum, p[0], tol, || format!("{} primary {} x", n, i))?;
        c.near(v[1] / sum, p[1], tol, || format!("{} primary {} y", n, i))?;
    }
    c.sample(|| format!("{} {:?}", n, gr2x));
    Ok(())
}

pub fn c04(ctx: &Ctx) {
    let defs = space_defs();
    let (s64, s32) = (spaces64(), spaces32());
    let find = |n: &str| defs.iter().find(|d| d.name == n).unwrap();
    ctx.scope("f64", s64.len() as u64, "every built-in f64 space: primaries, white, both matrices, consequences", |i, c| {
        let s = &s64[i as usize];
        c.outf(s.1.xf_rgb_to_xyz.x[0] + s.1.white.x);
        space_check(c, s.1, find(s.0))
    });
    ctx.scope("f32", s32.len() as u64, "every built-in f32 space", |i, c| {
        let s = &s32[i as usize];
        c.outf(s.1.xf_rgb_to_xyz.x[0] as f64 + s.1.white.x as f64);
        space_check(c, s.1, find(s.0))
    });
    ctx.scope("f32-vs-f64", s32.len() as u64, "f32 and f64 versions agree entry by entry", |i, c| {
        let s = &s32[i as usize];
        let d = s64.iter().find(|t| t.0 == s.0).unwrap();
        let (a, b) = (m_of(&s.1.xf_xyz_to_rgb), m_of(&d.1.xf_xyz_to_rgb));
        near_m(c, &a, &b, 2e-6 * m_maxabs(&b), &format!("{} f32 vs f64 XYZ->RGB", s.0))?;
        let (a, b) = (m_of(&s.1.xf_rgb_to_xyz), m_of(&d.1.xf_rgb_to_xyz));
        near_m(c, &a, &b, 2e-6 * m_maxabs(&b), &format!("{} f32 vs f64 RGB->XYZ", s.0))?;
        for (x, y) in [(&s.1.red, &d.1.red), (&s.1.green, &d.1.green), (&s.1.blue, &d.1.blue), (&s.1.white, &d.1.white)] {
            let (p, q) = (xyy_of(x), xyy_of(y));
            for k in 0..3 {
                c.near(p[k], q[k], 1e-7, || format!("{} primaries/white f32 vs f64", s.0))?;
            }
        }
        Ok(())
    });
    // every colour of a lattice through both matrices of every space
    let lat = [0.0, 0.1, 0.18, 0.5, 0.9, 1.0, 2.0, -0.25];
    let n = lat.len();
    ctx.scope("colours", (s64.len() * n * n * n) as u64, "all RGB triples over 8 values: RGB->XYZ equals the published matrix, and back again", |i, c| {
        let mut m = Mix(i);
        let k = m.pick(s64.len());
        let v = [lat[m.pick(n)], lat[m.pick(n)], lat[m.pick(n)]];
        let d = find(s64[k].0);
        let (_, r2x) = d.matrices();
        let want = m_vec(&r2x, &v);
        fn go<T: Prec>(c: &mut Case, s: &ColorSpaceRGB<T>, v: [f64; 3], want: V3, dev: f64, n: &str) -> R {
            let x = rgb_to_xyz(&s.xf_rgb_to_xyz, RGBf::<T>::new(T::of(v[0]), T::of(v[1]), T::of(v[2])));
            let g: V3 = [x.x.into(), x.y.into(), x.z.into()];
            for k in 0..3 {
                c.near(g[k], 100.0 * want[k], T::EPS * 4000.0, || format!("{} RGB {:?} -> XYZ component {}", n, v, k))?;
            }
            let b = xyz_to_rgb(&s.xf_xyz_to_rgb, x);
            let b: V3 = [b.r.into(), b.g.into(), b.b.into()];
            for k in 0..3 {
                c.near(b[k], v[k], dev * 8.0 + T::EPS * 200.0, || format!("{} RGB {:?} -> XYZ -> RGB channel {}", n, v, k))?;
            }
            Ok(())
        }
        go(c, s64[k].1, v, want, d.dev, d.name)?;
        if let Some(s) = s32.iter().find(|s| s.0 == d.name) {
            go(c, s.1, v, want, d.dev, d.name)?;
        }
        Ok(())
    });
}

// ------------------------------------------------------------------------- C05

fn build_check<T: Prec>(c: &mut Case, p: [[f64; 2]; 4], lum: f64, ptol: f64) -> R {
    let mk = |q: [f64; 2], y: f64| XYY::<T>::new(T::of(q[0]), T::of(q[1]), T::of(y));
    // the luminance written beside a primary plays no part
    let py = [[1.0, 1.0, 1.0], [0.2126, 0.7152, 0.0722], [50.0, 0.25, 3.0]][(lum == 1.0) as usize + 2 * (lum == 0.5) as usize];
    let (r, g, b, w) = (mk(p[0], py[0]), mk(p[1], py[1]), mk(p[2], py[2]), mk(p[3], lum));
    // the primaries as the implementation sees them
    let q: Vec<[f64; 2]> = [&r, &g, &b, &w].iter().map(|z| [z.x.into(), z.y.into()]).collect();
    let want = derive_rgb_to_xyz(q[0], q[1], q[2], q[3]);
    let winv = m_inv(&want);
    let cond = m_maxabs(&want) * m_maxabs(&winv);
    if !cond.is_finite() || cond > if T::EPS < 1e-10 { 2e4 } else { 200.0 } {
        return c.skip();
    }
    let tol = ptol * T::EPS * (1.0 + cond) * (1.0 + cond).sqrt() * (cond / 200.0).max(1.0);
    let s = ColorSpaceRGB::<T>::new(r, g, b, w, Box::new(|v| v + T::of(5.0)), Box::new(|v| v * T::of(3.0)));
    let (gx, gr) = (m_of(&s.xf_xyz_to_rgb), m_of(&s.xf_rgb_to_xyz));
    let what = || format!("primaries {:?} white {:?} Y={}", &q[..3], q[3], lum);
    for i in 0..3 {
        for j in 0..3 {
            c.near(gr[i][j], want[i][j], tol * m_maxabs(&want), || format!("{} RGB->XYZ ({},{})", what(), i, j))?;
            c.near(gx[i][j], winv[i][j], tol * m_maxabs(&winv), || format!("{} XYZ->RGB ({},{})", what(), i, j))?;
        }
    }
    let pr = m_mul(&gx, &gr);
    let id: M3 = ID;
    for i in 0..3 {
        for j in 0..3 {
            c.near(pr[i][j], id[i][j], tol * cond.max(1.0), || format!("{} product ({},{})", what(), i, j))?;
        }
    }
    // white has unit luminance and the given chromaticity
    let x = rgb_to_xyz(&s.xf_rgb_to_xyz, RGBf::<T>::new(T::of(1.0), T::of(1.0), T::of(1.0)));
    let v: V3 = [x.x.into(), x.y.into(), x.z.into()];
    let ww = xy_to_xyz(q[3]);
    for k in 0..3 {
        c.near(v[k] / 100.0, ww[k], tol * m_maxabs(&want) * 4.0, || format!("{} white {}", what(), k))?;
    }
    // recorded as given
    c.eq([s.red.x, s.red.y, s.red.Y], [r.x, r.y, r.Y], || format!("{} recorded red", what()))?;
    c.eq([s.green.x, s.green.y, s.green.Y], [g.x, g.y, g.Y], || format!("{} recorded green", what()))?;
    c.eq([s.blue.x, s.blue.y, s.blue.Y], [b.x, b.y, b.Y], || format!("{} recorded blue", what()))?;
    c.eq([s.white.x, s.white.y, s.white.Y], [w.x, w.y, w.Y], || format!("{} recorded white", what()))?;
    let t = RGBf::<T>::new(T::of(0.25), T::of(-2.0), T::of(7.0));
    let (e, d) = (s.encode(t), s.decode(t));
    c.eq([e.r, e.g, e.b], [T::of(5.25), T::of(3.0), T::of(12.0)], || format!("{} encode uses the given function", what()))?;
    c.eq([d.r, d.g, d.b], [T::of(0.75), T::of(-6.0), T::of(21.0)], || format!("{} decode uses the given function", what()))?;
    c.outf(gr[0][0] + gr[1][1] * 3.0 + gr[2][2] * 7.0);
    c.sample(|| format!("{} -> {:?}", what(), gr));
    Ok(())
}

pub fn c05(ctx: &Ctx) {
    let t: Vec<f64> = vec![-0.25, -0.1, -0.077, 0.0, 0.0001, 0.06, 0.1, 0.15, 0.21, 0.3, 0.4, 0.5, 0.6, 0.68, 0.7347, 0.8, 0.9, 1.0];
    let u: Vec<f64> = vec![-0.25, -0.1, -0.077, -0.02, 0.0, 0.0001, 0.03, 0.06, 0.1, 0.15, 0.18, 0.21, 0.25, 0.3, 0.35, 0.4, 0.45, 0.5, 0.6, 0.64, 0.68, 0.7347, 0.8, 0.9, 1.0];
    let xs = if ctx.thorough { u } else { t };
    let whites = [[0.3127, 0.3290], [0.34570, 0.35850], [0.32168, 0.33767], [1.0 / 3.0, 1.0 / 3.0], [0.314, 0.351], [0.44757, 0.40745], [0.25, 0.25], [0.5, 0.5], [0.25, 0.5]];
    let n = xs.len();
    let np = n * n;
    ctx.scope("grid", (np * np * np) as u64, "all triples of primaries on the grid x 9 whites x white luminance {1, 100, 0.5}, both precisions, condition number <= 20000 (single precision 200)", |i, c| {
        let mut m = Mix(i);
        let mut p = [[0.0; 2]; 3];
        for k in p.iter_mut() {
            *k = [xs[m.pick(n)], xs[m.pick(n)]];
        }
        // orientation-independent area of the primary triangle
        let area = (p[1][0] - p[0][0]) * (p[2][1] - p[0][1]) - (p[2][0] - p[0][0]) * (p[1][1] - p[0][1]);
        if area.abs() < 1e-5 {
            return c.skip();
        }
        let k = i as usize;
        let lum = [1.0, 100.0, 0.5];
        c.states = whites.len() as u64;
        for (wi, w) in whites.iter().enumerate() {
            build_check::<f64>(c, [p[0], p[1], p[2], *w], lum[(k + wi) % 3], 40.0)?;
            if (k + wi) % 4 == 0 {
                build_check::<f32>(c, [p[0], p[1], p[2], *w], lum[(k / 3 + wi) % 3], 60.0)?;
            }
        }
        c.skipped = false;
        Ok(())
    });
    // fine grid around the real primaries, including exact zeros in the last column of the matrix
    let rs = [[0.64, 0.33], [0.7347, 0.2653], [0.68, 0.32], [0.708, 0.292], [0.684, 0.313], [0.713, 0.293]];
    let gs = [[0.30, 0.60], [0.0, 1.0], [0.265, 0.69], [0.17, 0.797], [0.221, 0.848], [0.165, 0.83], [0.21, 0.71]];
    let bs = [[0.15, 0.06], [0.0001, -0.077], [0.131, 0.046], [0.0861, -0.102], [0.128, 0.044], [0.0, 0.0], [0.0, -0.1], [0.1, 0.0]];
    let dx = [-1e-2, -1e-3, 0.0, 1e-6, 1e-3];
    ctx.scope("real-primaries", (rs.len() * gs.len() * bs.len() * whites.len() * dx.len() * dx.len()) as u64, "all combinations of the published primaries and whites, perturbed, both precisions", |i, c| {
        let mut m = Mix(i);
        let (r, g, mut b, w) = (rs[m.pick(rs.len())], gs[m.pick(gs.len())], bs[m.pick(bs.len())], whites[m.pick(whites.len())]);
        b[0] += dx[m.pick(5)];
        b[1] += dx[m.pick(5)];
        build_check::<f64>(c, [r, g, b, w], 1.0, 40.0)?;
        build_check::<f32>(c, [r, g, b, w], 1.0, 60.0)
    });
    // small triangles around the white and away from it, every orientation
    let rad = [0.3, 0.15, 0.07, 0.03, 0.015, 0.008];
    let na = ctx.tier(24usize, 60);
    let offc = [[0.0, 0.0], [0.4, 0.0], [0.0, 0.6], [-0.5, 0.3], [1.5, 0.0], [-1.0, -1.0]];
    ctx.scope("narrow", (rad.len() * na * na * offc.len() * whites.len() * 2) as u64, "triangles of every size down to a radius of 0.008 and every orientation, the white inside or outside, both windings", |i, c| {
        let mut m = Mix(i);
        let (r, a0, a1, o, w, wind) = (*m.of(&rad), m.pick(na), m.pick(na), *m.of(&offc), *m.of(&whites), m.pick(2));
        let tau = std::f64::consts::TAU;
        let at = |a: f64| [w[0] + r * (o[0] + (tau * a).cos()), w[1] + r * (o[1] + (tau * a).sin())];
        let f = a0 as f64 / na as f64;
        let (p, q, t) = (at(f), at(f + 0.31), at(f + 0.31 + 0.64 * (a1 as f64 + 1.0) / (na as f64 + 1.0)));
        let pr = if wind == 0 { [p, q, t, w] } else { [p, t, q, w] };
        let lum = [1.0, 100.0, 0.5][(a0 + a1) % 3];
        build_check::<f64>(c, pr, lum, 400.0)?;
        if !c.skipped {
            build_check::<f32>(c, pr, lum, 300.0)?;
            c.skipped = false;
        }
        Ok(())
    });
    ctx.scope("specified", 18 * 18, "explicit matrices are stored exactly: every single-entry pair, both precisions", |i, c| {
        let mut m = Mix(i);
        let (a, b) = (m.pick(18), m.pick(18));
        fn go<T: Prec>(c: &mut Case, a: usize, b: usize) -> R {
            let mut u = [T::of(0.0); 9];
            let mut v = [T::of(0.0); 9];
            for k in 0..9 {
                u[k] = T::of(if a < 9 && k == a { 7.25 } else { 0.1 * (k as f64) - 0.3 });
                v[k] = T::of(if b < 9 && k == b { -3.5 } else { 1.0 / (k as f64 + 2.0) });
            }
            let y = |x: f64, yy: f64| XYY::<T>::new(T::of(x), T::of(yy), T::of(1.0));
            let s = ColorSpaceRGB::<T>::new_with_specified_matrices(
                y(0.6, 0.3), y(0.2, 0.7), y(0.1, 0.05), y(0.3, 0.31), Matrix33::new(u), Matrix33::new(v),
                Box::new(|q| q + T::of(1.0)), Box::new(|q| q - T::of(2.0)),
            );
            c.eq(s.xf_xyz_to_rgb.x, u, || "stored XYZ->RGB".into())?;
            c.eq(s.xf_rgb_to_xyz.x, v, || "stored RGB->XYZ".into())?;
            c.eq((s.red, s.green, s.blue, s.white), (y(0.6, 0.3), y(0.2, 0.7), y(0.1, 0.05), y(0.3, 0.31)), || "recorded primaries".into())?;
            let t = RGBf::<T>::new(T::of(1.0), T::of(2.0), T::of(3.0));
            c.eq(s.encode(t), t + T::of(1.0), || "encode".into())?;
            c.eq(s.decode(t), t - T::of(2.0), || "decode".into())
        }
        go::<f64>(c, a, b)?;
        go::<f32>(c, a, b)
    });
}

// ------------------------------------------------------------------------- C06

fn whites06(thorough: bool) -> Vec<[f64; 3]> {
    // x, y, Y
    let mut v = vec![
        [0.3127, 0.3290, 1.0],
        [0.34570, 0.35850, 1.0],
        [0.33243, 0.34744, 1.0],
        [0.321626242047397, 0.337736995955436, 1.0],
        [0.314, 0.351, 1.0],
        [0.32168, 0.33767, 1.0],
        [0.44757, 0.40745, 1.0],
        [0.31006, 0.31616, 1.0],
        [1.0 / 3.0, 1.0 / 3.0, 1.0],
        [0.31382, 0.33100, 1.0],
        [0.37208, 0.37529, 1.0],
        [0.25, 0.2525, 1.0],
        [0.3127, 0.3290, 0.5],
        [0.34570, 0.35850, 2.0],
        // same x as D65, other y, and the other way round
        [0.3127, 0.3500, 1.0],
        [0.3300, 0.3290, 1.0],
    ];
    for d in [1e-3, 1e-4, 1e-6, 1e-9, 1e-12] {
        v.push([0.3127 + d, 0.3290, 1.0]);
        v.push([0.3127, 0.3290 - d, 1.0]);
        v.push([0.3127 - d, 0.3290 + d, 1.0]);
        v.push([0.3127, 0.3290, 1.0 + d]);
    }
    {
        let n = if thorough { 20 } else { 8 };
        for i in 0..n {
            for j in 0..n {
                v.push([0.25 + 0.24 / n as f64 * i as f64, 0.25 + 0.24 / n as f64 * j as f64, 1.0]);
            }
        }
    }
    v
}

/// method 0..3, form: bit 0 source as XYZ, bit 1 destination as XYZ
fn cat_call<T: Prec>(method: usize, form: usize, a: [f64; 3], b: [f64; 3]) -> (M3, V3, V3) {
    let ya = XYY::<T>::new(T::of(a[0]), T::of(a[1]), T::of(a[2]));
    let yb = XYY::<T>::new(T::of(b[0]), T::of(b[1]), T::of(b[2]));
    let to = |p: &XYY<T>| -> V3 {
        let q = xyy_of(p);
        let w = xy_to_xyz([q[0], q[1]]);
        [w[0] * q[2], w[1] * q[2], w[2] * q[2]]
    };
    let (wa, wb) = (to(&ya), to(&yb));
    let xa = XYZ::<T>::new(T::of(100.0 * wa[0]), T::of(100.0 * wa[1]), T::of(100.0 * wa[2]));
    let xb = XYZ::<T>::new(T::of(100.0 * wb[0]), T::of(100.0 * wb[1]), T::of(100.0 * wb[2]));
    macro_rules! go {
        ($f:ident) => {
            match form {
                0 => $f::<T, XYY<T>, XYY<T>>(ya, yb),
                1 => $f::<T, XYZ<T>, XYY<T>>(xa, yb),
                2 => $f::<T, XYY<T>, XYZ<T>>(ya, xb),
                _ => $f::<T, XYZ<T>, XYZ<T>>(xa, xb),
            }
        };
    }
    let m = match method {
        0 => go!(bradford),
        1 => go!(von_kries),
        _ => go!(cat02),
    };
    (m_of(&m), wa, wb)
}

fn cat_tol<T: Prec>(method: usize) -> f64 {
    // the published von Kries inverse is rounded to 7 digits
    T::EPS * 40.0 + if method == 1 { 6.0e-6 } else { 0.0 }
}

fn pair_check<T: Prec>(c: &mut Case, method: usize, form: usize, a: [f64; 3], b: [f64; 3]) -> R {
    let cone = [BRADFORD, VON_KRIES, CAT02][method];
    let (m, wa, wb) = cat_call::<T>(method, form, a, b);
    let what = || format!("{} form {} {:?} -> {:?} ({} bit)", ["bradford", "von_kries", "cat02"][method], form, a, b, std::mem::size_of::<T>() * 8);
    let want = adapt(&cone, &wa, &wb);
    let tol = cat_tol::<T>(method);
    for i in 0..3 {
        for j in 0..3 {
            c.near(m[i][j], want[i][j], tol * (1.0 + m_maxabs(&want)), || format!("{} entry ({},{})", what(), i, j))?;
        }
    }
    let g = m_vec(&m, &wa);
    for k in 0..3 {
        c.near(g[k], wb[k], 3.0 * tol * (1.0 + wb[k]), || format!("{} image of the source white, component {}", what(), k))?;
    }
    if a == b && (form == 0 || form == 3) {
        // equal whites: the identity
        for i in 0..3 {
            for j in 0..3 {
                c.near(m[i][j], ID[i][j], T::EPS * 40.0, || format!("{} identity entry ({},{})", what(), i, j))?;
            }
        }
    }
    let (r, _, _) = cat_call::<T>(method, form, b, a);
    let p = m_mul(&r, &m);
    for i in 0..3 {
        for j in 0..3 {
            c.near(p[i][j], ID[i][j], 4.0 * tol * (1.0 + m_maxabs(&m) * m_maxabs(&r)), || format!("{} there and back ({},{})", what(), i, j))?;
        }
    }
    c.outf(m[0][0] + m[1][2]);
    c.sample(what);
    Ok(())
}

pub fn c06(ctx: &Ctx) {
    let w = whites06(ctx.thorough);
    let n = w.len();
    ctx.scope("pairs", (n * n * 3 * 4) as u64, "all ordered pairs of whites (incl. pairs 1e-3..1e-12 apart and equal ones) x 3 methods x 4 argument forms x 2 precisions", |i, c| {
        let mut m = Mix(i);
        let (a, b) = (w[m.pick(n)], w[m.pick(n)]);
        let (me, f) = (m.pick(3), m.pick(4));
        pair_check::<f64>(c, me, f, a, b)?;
        pair_check::<f32>(c, me, f, a, b)
    });
    let k = n.min(36);
    ctx.scope("triples", (k * k * k * 3) as u64, "all ordered triples of whites x 3 methods x 2 precisions: A->B->C equals A->C", |i, c| {
        let mut m = Mix(i);
        let (a, b, d) = (w[m.pick(k)], w[m.pick(k)], w[m.pick(k)]);
        let me = m.pick(3);
        fn go<T: Prec>(c: &mut Case, me: usize, a: [f64; 3], b: [f64; 3], d: [f64; 3]) -> R {
            let (ab, ..) = cat_call::<T>(me, 0, a, b);
            let (bd, ..) = cat_call::<T>(me, 0, b, d);
            let (ad, ..) = cat_call::<T>(me, 0, a, d);
            let p = m_mul(&bd, &ab);
            let tol = cat_tol::<T>(me) * 4.0 * (1.0 + m_maxabs(&ab) * m_maxabs(&bd));
            for i in 0..3 {
                for j in 0..3 {
                    c.near(p[i][j], ad[i][j], tol, || format!("method {} {:?} -> {:?} -> {:?} entry ({},{})", me, a, b, d, i, j))?;
                }
            }
            Ok(())
        }
        go::<f64>(c, me, a, b, d)?;
        go::<f32>(c, me, a, b, d)
    });
    // one-ulp neighbourhoods of a white in each coordinate
    ctx.scope("ulp-neighbours", 3 * 3 * 41 * 2, "source and destination 0..20 ulps apart in x, y or Y", |i, c| {
        let mut m = Mix(i);
        let (me, co, d, which) = (m.pick(3), m.pick(3), m.pick(41) as i64 - 20, m.pick(2));
        let a: [f64; 3] = [0.3127, 0.3290, 1.0];
        let mut b = a;
        if which == 0 {
            b[co] = f64::from_bits((b[co].to_bits() as i64 + d) as u64);
            pair_check::<f64>(c, me, 0, a, b)
        } else {
            b[co] = f32::from_bits(((b[co] as f32).to_bits() as i64 + d) as u32) as f64;
            pair_check::<f32>(c, me, 0, a, b)
        }
    });
}

// ------------------------------------------------------------------------- C08

struct Graph<T: Prec> {
    spaces: Vec<(&'static str, &'static ColorSpaceRGB<T>)>,
    whites: Vec<XYY<T>>,
}
#[derive(Clone, Copy)]
struct RefNode {
    /// to and from "XYZ relative to the node's white, Y=1 scale"
    to_xyz: M3,
    from_xyz: M3,
    white: V3,
    dev: f64,
}

impl<T: Prec> Graph<T> {
    fn len(&self) -> usize {
        self.spaces.len() + self.whites.len()
    }
    fn name(&self, k: usize) -> String {
        if k < self.spaces.len() {
            self.spaces[k].0.to_string()
        } else {
            format!("XYZ{:?}", xyy_of(&self.whites[k - self.spaces.len()]))
        }
    }
    /// one real conversion, colours carried as RGB (linear) or XYZ on the 100 scale
    fn hop(&self, a: usize, b: usize, v: [T; 3]) -> [T; 3] {
        let ns = self.spaces.len();
        match (a < ns, b < ns) {
            (true, true) => {
                let m = rgb_to_rgb_matrix(self.spaces[a].1, self.spaces[b].1);
                let r = m * RGBf::new(v[0], v[1], v[2]);
                [r.r, r.g, r.b]
            }
            (true, false) => {
                let m = rgb_to_xyz_matrix(self.whites[b - ns], self.spaces[a].1);
                let x = rgb_to_xyz(&m, RGBf::new(v[0], v[1], v[2]));
                [x.x, x.y, x.z]
            }
            (false, true) => {
                let m = if (a + b) % 2 == 0 {
                    xyz_to_rgb_matrix(self.whites[a - ns], self.spaces[b].1)
                } else {
                    let cat = cat02(self.whites[a - ns], self.spaces[b].1.white);
                    xyz_to_rgb_matrix_with_cat(&cat, self.spaces[b].1)
                };
                let x = xyz_to_rgb(&m, XYZ::new(v[0], v[1], v[2]));
                [x.r, x.g, x.b]
            }
            (false, false) => {
                let m = cat02(self.whites[a - ns], self.whites[b - ns]);
                let x = m * XYZ::new(v[0], v[1], v[2]);
                [x.x, x.y, x.z]
            }
        }
    }
    fn refs(&self) -> Vec<RefNode> {
        let defs = space_defs();
        let mut out = vec![];
        for s in &self.spaces {
            let d = defs.iter().find(|d| d.name == s.0).unwrap();
            let (x2r, r2x) = d.matrices();
            out.push(RefNode { to_xyz: r2x, from_xyz: x2r, white: xy_to_xyz(d.w), dev: d.dev });
        }
        for w in &self.whites {
            let q = xyy_of(w);
            let h: M3 = [[0.01, 0.0, 0.0], [0.0, 0.01, 0.0], [0.0, 0.0, 0.01]];
            let k: M3 = [[100.0, 0.0, 0.0], [0.0, 100.0, 0.0], [0.0, 0.0, 100.0]];
            out.push(RefNode { to_xyz: h, from_xyz: k, white: xy_to_xyz([q[0], q[1]]), dev: 0.0 });
        }
        out
    }
}

fn ref_hop(a: &RefNode, b: &RefNode) -> M3 {
    m_mul(&b.from_xyz, &m_mul(&adapt(&CAT02, &a.white, &b.white), &a.to_xyz))
}

fn unit(is_xyz: bool) -> f64 {
    if is_xyz {
        100.0
    } else {
        1.0
    }
}

fn routes<T: Prec>(ctx: &Ctx, tag: &str, g: Graph<T>, hops: usize) {
    let n = g.len();
    let refs = g.refs();
    let ns = g.spaces.len();
    let cols: Vec<V3> = vec![[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0], [1.0, 1.0, 1.0], [0.0, 0.0, 0.0], [0.18, 0.4, 0.05], [0.9, -0.2, 2.5]];
    // single conversions against the published matrices
    ctx.scope(&format!("{}-direct", tag), (n * n * cols.len()) as u64, "every ordered pair of spaces/XYZ whites x 7 colours against the published matrices and CAT02", |i, c| {
        let mut m = Mix(i);
        let (a, b, k) = (m.pick(n), m.pick(n), m.pick(cols.len()));
        let s = unit(a >= ns);
        let v = [cols[k][0] * s, cols[k][1] * s, cols[k][2] * s];
        let t = g.hop(a, b, [T::of(v[0]), T::of(v[1]), T::of(v[2])]);
        let want = m_vec(&ref_hop(&refs[a], &refs[b]), &v);
        let mag = want.iter().fold(unit(b >= ns), |m, x| m.max(x.abs()));
        for j in 0..3 {
            c.near(t[j].into(), want[j], T::EPS * 100.0 * mag, || format!("{} -> {} of {:?}, component {}", g.name(a), g.name(b), v, j))?;
        }
        // white to white, black to black
        if k == 3 && a < ns {
            let w = if b < ns { [1.0, 1.0, 1.0] } else { refs[b].white };
            for j in 0..3 {
                c.near(t[j].into(), w[j] * unit(b >= ns), (5e-4 + T::EPS * 100.0) * mag, || format!("white of {} in {}", g.name(a), g.name(b)))?;
            }
        }
        c.outf(t[0].into());
        c.sample(|| format!("{} -> {} of {:?} = {:?}", g.name(a), g.name(b), v, t.map(|q| q.into())));
        Ok(())
    });
    let mut total = n as u64;
    for _ in 0..hops {
        total *= n as u64;
    }
    ctx.scope(&format!("{}-routes", tag), total, "every route of up to the stated number of hops (repeats of a node = shorter routes), 7 colours, against the direct conversion and back to the start", |i, c| {
        let mut m = Mix(i);
        let path: Vec<usize> = (0..=hops).map(|_| m.pick(n)).collect();
        let (a, z) = (path[0], path[hops]);
        let direct = ref_hop(&refs[a], &refs[z]);
        let dev: f64 = path.iter().map(|k| refs[*k].dev).sum();
        for k in [0, 1, 2, 5] {
            let s = unit(a >= ns);
            let v = [cols[k][0] * s, cols[k][1] * s, cols[k][2] * s];
            let mut t = [T::of(v[0]), T::of(v[1]), T::of(v[2])];
            let mut peak: f64 = 1.0;
            for h in 0..hops {
                t = g.hop(path[h], path[h + 1], t);
                c.step();
                let u = unit(path[h + 1] >= ns);
                peak = t.iter().fold(peak, |p, x| p.max((*x).into().abs() / u));
            }
            let want = m_vec(&direct, &v);
            let tol = (dev * 12.0 + T::EPS * 200.0) * peak * unit(z >= ns);
            for j in 0..3 {
                c.near(t[j].into(), want[j], tol, || format!("route {:?} of {:?}, component {}", path.iter().map(|p| g.name(*p)).collect::<Vec<_>>(), v, j))?;
            }
            let b = g.hop(z, a, t);
            for j in 0..3 {
                c.near(b[j].into(), v[j], (dev * 24.0 + T::EPS * 800.0) * peak * 3.0 * s, || format!("route {:?} and back, of {:?}, component {}", path.iter().map(|p| g.name(*p)).collect::<Vec<_>>(), v, j))?;
            }
        }
        c.sample(|| format!("{:?}", path.iter().map(|p| g.name(*p)).collect::<Vec<_>>()));
        Ok(())
    });
}

/// Conversions to and from XYZ relative to many whites, and of many colours of every magnitude.
fn anywhere<T: Prec>(ctx: &Ctx, tag: &str, spaces: Vec<(&'static str, &'static ColorSpaceRGB<T>)>) {
    let defs = space_defs();
    let mut whites: Vec<[f64; 2]> = vec![];
    let n = ctx.tier(12usize, 24);
    for i in 0..=n {
        for j in 0..=n {
            whites.push([0.24 + 0.24 * i as f64 / n as f64, 0.24 + 0.2 * j as f64 / n as f64]);
        }
    }
    let mut own: Vec<[f64; 2]> = defs.iter().map(|d| d.w).collect();
    own.sort_by(|a, b| a.partial_cmp(b).unwrap());
    own.dedup();
    for w in own {
        for d in [0.0, 1e-2, 3e-3, 1e-3, 3e-4, 1e-4, 1e-5, 1e-6, 1e-8, 1e-10] {
            for (sx, sy) in [(1.0, 0.0), (-1.0, 0.0), (0.0, 1.0), (0.0, -1.0), (1.0, 1.0), (1.0, -1.0)] {
                whites.push([w[0] + sx * d, w[1] + sy * d]);
            }
        }
    }
    let nw = whites.len();
    let mut graphs: Vec<Graph<T>> = vec![];
    for s in &spaces {
        graphs.push(Graph { spaces: vec![*s], whites: whites.iter().map(|w| XYY::new(T::of(w[0]), T::of(w[1]), T::of(1.0))).collect() });
    }
    let refs: Vec<Vec<RefNode>> = graphs.iter().map(|g| g.refs()).collect();
    let cols: [V3; 6] = [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0], [1.0, 1.0, 1.0], [0.18, 0.4, 0.05], [0.9, -0.2, 2.5]];
    let scales = [1.0, 1e-3, 1e-6, 1e-9, 1e3];
    ctx.scope(&format!("{}-whites", tag), (spaces.len() * nw * 2) as u64, "every space to and from XYZ relative to a grid of whites and whites 0 to 0.01 around every published one, 6 colours x 5 magnitudes, against the published matrices and CAT02", |i, c| {
        let mut m = Mix(i);
        let (k, w, back) = (m.pick(spaces.len()), m.pick(nw), m.pick(2) == 1);
        let (a, b) = if back { (w + 1, 0) } else { (0, w + 1) };
        let rm = ref_hop(&refs[k][a], &refs[k][b]);
        for col in &cols {
            for sc in scales {
                let s = unit(a > 0) * sc;
                let v = [T::of(col[0] * s), T::of(col[1] * s), T::of(col[2] * s)];
                let t = graphs[k].hop(a, b, v);
                let want = m_vec(&rm, &v.map(|q| q.into()));
                let mag = want.iter().fold(0f64, |m, x| m.max(x.abs())).max(unit(b > 0) * sc);
                for j in 0..3 {
                    c.near(t[j].into(), want[j], T::EPS * 100.0 * mag, || format!("{} -> {} of {:?}, component {}", graphs[k].name(a), graphs[k].name(b), v.map(|q| -> f64 { q.into() }), j))?;
                }
            }
        }
        Ok(())
    });
    let g = Graph::<T> { spaces: spaces.clone(), whites: vec![] };
    let r = g.refs();
    let ns = spaces.len();
    let lat: Vec<f64> = if ctx.thorough {
        vec![-2.0, -0.5, -1e-3, 0.0, 1e-9, 1e-6, 1e-3, 0.0031308, 0.018, 0.18, 0.5, 0.75, 1.0, 1.5, 16.0, 1e4]
    } else {
        vec![-0.5, 0.0, 1e-6, 0.0031308, 0.18, 0.75, 1.0, 16.0]
    };
    let nl = lat.len();
    ctx.scope(&format!("{}-colours", tag), (ns * ns * nl * nl * nl) as u64, "every ordered pair of spaces x every colour of a lattice with negative, tiny and very bright components", |i, c| {
        let mut m = Mix(i);
        let (a, b) = (m.pick(ns), m.pick(ns));
        let v = [T::of(lat[m.pick(nl)]), T::of(lat[m.pick(nl)]), T::of(lat[m.pick(nl)])];
        let t = g.hop(a, b, v);
        let q = v.map(|q| q.into());
        let want = m_vec(&ref_hop(&r[a], &r[b]), &q);
        let mag = want.iter().chain(&q).fold(0f64, |m, x: &f64| m.max(x.abs()));
        for j in 0..3 {
            c.near(t[j].into(), want[j], T::EPS * 100.0 * mag, || format!("{} -> {} of {:?}, component {}", g.name(a), g.name(b), q, j))?;
        }
        Ok(())
    });
}

pub fn c08(ctx: &Ctx) {
    anywhere::<f64>(ctx, "f64", spaces64().iter().map(|s| (s.0, s.1)).collect());
    anywhere::<f32>(ctx, "f32", spaces32().iter().map(|s| (s.0, s.1)).collect());
    let w: [[f64; 2]; 6] = [[0.3127, 0.3290], [0.34570, 0.35850], [0.32168, 0.33767], [0.314, 0.351], [1.0 / 3.0, 1.0 / 3.0], [0.31271, 0.3290]];
    let g64 = Graph::<f64> {
        spaces: spaces64().iter().map(|s| (s.0, s.1)).collect(),
        whites: w.iter().map(|p| XYY::new(p[0], p[1], 1.0)).collect(),
    };
    let g32 = Graph::<f32> {
        spaces: spaces32().iter().map(|s| (s.0, s.1)).collect(),
        whites: w.iter().map(|p| XYY::new(p[0] as f32, p[1] as f32, 1.0)).collect(),
    };
    routes(ctx, "f64", g64, ctx.tier(4, 5));
    routes(ctx, "f32", g32, ctx.tier(4, 5));
    // encoded RGB-to-RGB conversion of colours through the slice function
    let s64 = spaces64();
    let lat = [0.0, 0.02, 0.2, 0.5, 0.8, 1.0];
    let n = lat.len();
    let ns = s64.len();
    let defs = space_defs();
    ctx.scope("encoded", (ns * ns * n * n * n) as u64, "encoded colours between every pair of spaces equal decode, published matrix, encode", |i, c| {
        let mut m = Mix(i);
        let (a, b) = (m.pick(ns), m.pick(ns));
        let v = [lat[m.pick(n)], lat[m.pick(n)], lat[m.pick(n)]];
        let node = |k: usize| {
            let d = defs.iter().find(|d| d.name == s64[k].0).unwrap();
            let (x2r, r2x) = d.matrices();
            RefNode { to_xyz: r2x, from_xyz: x2r, white: xy_to_xyz(d.w), dev: d.dev }
        };
        let lin: V3 = [s64[a].2.decode(v[0], 0.0).0, s64[a].2.decode(v[1], 0.0).0, s64[a].2.decode(v[2], 0.0).0];
        let out = m_vec(&ref_hop(&node(a), &node(b)), &lin);
        let mut got = [RGBf::<f64>::new(9.0, 9.0, 9.0)];
        let cnt = rgb_to_rgb(s64[a].1, s64[b].1, &[RGBf::new(v[0], v[1], v[2])], &mut got);
        c.eq(cnt, 1, || "count".into())?;
        let g = [got[0].r, got[0].g, got[0].b];
        for j in 0..3 {
            let t = s64[b].2.enc_break();
            // curves with infinite slope at 0 or a jump at the break are only compared away from it
            let steep = matches!(s64[b].2, Curve::Gamma(_)) && out[j] < 1e-9;
            if steep || (t.is_finite() && (out[j] - t).abs() < 1e-9) {
                continue;
            }
            let want = s64[b].2.encode(out[j], 0.0).0;
            c.near(g[j], want, 1e-9 * (1.0 + want.abs()), || format!("{} -> {} of encoded {:?}, channel {}", s64[a].0, s64[b].0, v, j))?;
        }
        Ok(())
    });
}
