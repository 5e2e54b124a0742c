//! C25 comparison of spectra, C26 scalar helpers, C27 printed forms.
use crate::core::*;
use colorspace::math;
use colorspace::rgb::*;
use colorspace::spd::*;
use colorspace::vspd::*;
use colorspace::xyz::*;
use float_cmp::{ApproxEq, F64Margin};

fn mk(s: &[(f64, f64)]) -> VSPD {
    VSPD::new(s.iter().map(|(n, v)| Sample::new(*n, *v)).collect())
}
fn up(x: f64, k: i64) -> f64 {
    if x == 0.0 {
        return f64::from_bits(k.unsigned_abs()) * k.signum() as f64;
    }
    f64::from_bits((x.to_bits() as i64 + k) as u64)
}

/// Reference for "within the margin": absolutely, or by the number of doubles between.
fn within(a: f64, b: f64, eps: f64, ulps: i64) -> bool {
    if a == b || (a - b).abs() <= eps {
        return true;
    }
    if a.is_nan() || b.is_nan() || a.is_sign_negative() != b.is_sign_negative() {
        return false;
    }
    ((a.to_bits() as i64) - (b.to_bits() as i64)).abs() <= ulps
}

pub fn c25(ctx: &Ctx) {
    let grids: Vec<Vec<f64>> = {
        let mut g = vec![];
        for n in 2..=ctx.tier(24usize, 80) {
            g.push((0..n).map(|k| 380.0 + 10.0 * k as f64).collect::<Vec<f64>>());
            let gaps = [3.0, 5.0, 10.0, 7.5];
            let mut x = 400.0;
            g.push((0..n).map(|k| { x += gaps[k % 4]; x }).collect());
        }
        g
    };
    let base = |g: &Vec<f64>| -> Vec<(f64, f64)> { g.iter().enumerate().map(|(k, n)| (*n, [0.5, 0.25, 1.0, 0.0, -0.125, 3.0][(k * 5 + 1) % 6])).collect() };
    let margins: [(f64, i64); 8] = [(0.0, 0), (0.0, 1), (0.0, 4), (1e-12, 0), (1e-9, 2), (1e-6, 0), (1e-3, 1), (0.5, 0)];
    // changes applied to one number
    fn change(x: f64, k: usize) -> f64 {
        match k {
            0 => x,
            1 => up(x, 1),
            2 => up(x, -1),
            3 => up(x, 3),
            4 => x + 2e-13,
            5 => x - 3e-10,
            6 => x + 4e-7,
            7 => x - 2e-4,
            8 => x + 0.25,
            9 => x - 1.5,
            10 => -x,
            11 => f64::NAN,
            _ => f64::INFINITY,
        }
    }
    const NCH: usize = 13;
    let judge = move |c: &mut Case, a: &[(f64, f64)], b: &[(f64, f64)], what: &dyn Fn() -> String| -> R {
        let (p, q) = (mk(a), mk(b));
        let same_shape = p.shape() == q.shape();
        let want = a.len() == b.len() && same_shape && a.iter().zip(b).all(|(s, t)| s.0 == t.0 && s.1 == t.1);
        c.eq(p == q, want, || format!("equality of {}", what()))?;
        c.eq(q == p, want, || format!("equality of {}, reversed", what()))?;
        c.eq(p != q, !want, || format!("inequality of {}", what()))?;
        for (eps, ulps) in margins {
            let want = a.len() == b.len() && a.iter().zip(b).all(|(s, t)| within(s.0, t.0, eps, ulps) && within(s.1, t.1, eps, ulps));
            let m = F64Margin { epsilon: eps, ulps };
            c.eq((&p).approx_eq(&q, m), want, || format!("approximate equality within {:e} or {} ulps of {}", eps, ulps, what()))?;
            c.eq((&q).approx_eq(&p, m), want, || format!("approximate equality within {:e} or {} ulps of {}, reversed", eps, ulps, what()))?;
        }
        Ok(())
    };
    let mut one: Vec<(usize, usize)> = vec![];
    for (g, v) in grids.iter().enumerate() {
        one.extend((0..v.len()).map(|j| (g, j)));
    }
    ctx.scope("one", (one.len() * NCH * 2) as u64, "spectra of every size, even and uneven, that differ in at most one wavelength or value, every position x 13 changes: equality and approximate equality under 8 margins, both orders", |i, c| {
        let mut m = Mix(i);
        let ((g, j), k, w) = (*m.of(&one), m.pick(NCH), m.pick(2));
        let a = base(&grids[g]);
        let mut b = a.clone();
        if w == 0 {
            b[j].1 = change(b[j].1, k);
        } else {
            b[j].0 = change(b[j].0, k);
        }
        judge(c, &a, &b, &|| format!("{:?} and {:?}", a, b))
    });
    let big: Vec<(usize, usize)> = [100usize, 128, 129, 200, 256, 257, 401, 421, 471, 512, 1025].iter().filter(|n| **n <= ctx.tier(600, 2000)).flat_map(|n| (0..*n).map(move |j| (*n, j))).collect();
    ctx.scope("one-large", (big.len() * 4) as u64, "spectra of hundreds of samples that differ in one wavelength or value, every position, a tiny or a large change", |i, c| {
        let mut m = Mix(i);
        let ((n, j), k, w) = (*m.of(&big), m.pick(2), m.pick(2));
        let a: Vec<(f64, f64)> = (0..n).map(|k| (340.0 + k as f64, 0.25 + (k % 13) as f64 * 0.0625)).collect();
        let mut b = a.clone();
        let d = [1e-9, 0.25][k];
        if w == 0 {
            b[j].1 += d;
        } else {
            b[j].0 += d;
        }
        judge(c, &a, &b, &|| format!("{} samples, {} of sample {} changed by {}", n, if w == 0 { "value" } else { "wavelength" }, j, d))
    });
    let two: Vec<(usize, usize, usize)> = {
        let mut r = vec![];
        for (g, v) in grids.iter().enumerate().filter(|(_, v)| v.len() <= ctx.tier(12, 24)) {
            for j in 0..v.len() {
                for k in 0..v.len() {
                    if j != k {
                        r.push((g, j, k));
                    }
                }
            }
        }
        r
    };
    ctx.scope("two", (two.len() * 6 * 3) as u64, "spectra that differ in two values: by opposite amounts, by a swap, or one of the two inside and one outside the margin", |i, c| {
        let mut m = Mix(i);
        let ((g, j, k), ch, kind) = (*m.of(&two), m.pick(6) + 3, m.pick(3));
        let a = base(&grids[g]);
        let mut b = a.clone();
        match kind {
            0 => {
                let d = change(b[j].1, ch) - b[j].1;
                b[j].1 += d;
                b[k].1 -= d;
            }
            1 => {
                let t = b[j].1;
                b[j].1 = b[k].1;
                b[k].1 = t;
            }
            _ => {
                b[j].1 += 1e-10;
                b[k].1 = change(b[k].1, ch);
            }
        }
        judge(c, &a, &b, &|| format!("{:?} and {:?}", a, b))
    });
    ctx.scope("length", (grids.len() * grids.len()) as u64, "every pair of sizes and spacings: a spectrum never equals a longer or shorter one or one on other wavelengths", |i, c| {
        let mut m = Mix(i);
        let (a, b) = (base(&grids[m.pick(grids.len())]), base(&grids[m.pick(grids.len())]));
        judge(c, &a, &b, &|| format!("{:?} and {:?}", a, b))
    });
    let over = [0.0, 0.1, 0.5, 0.9];
    ctx.scope("declared", (over.len() * over.len() * 20 * 3) as u64, "spectra with the same samples that declare different ends are not equal but approximately equal", |i, c| {
        let mut m = Mix(i);
        let (p, q, n, iv) = (*m.of(&over), *m.of(&over), 2 + m.pick(20), *m.of(&[5.0, 10.0, 2.0]));
        let v: Vec<f64> = (0..n).map(|k| (k * 3 % 7) as f64).collect();
        let f = |o: f64| VSPD::from_values(SpdShape::new(400.0, 400.0 + iv * (n as f64 - 1.0 + o), iv), &v);
        let (a, b) = (f(p), f(q));
        c.eq(a == b, p == q, || format!("equality of {} samples every {} nm with ends {} and {}", n, iv, a.end(), b.end()))?;
        c.eq((&a).approx_eq(&b, F64Margin { epsilon: 0.0, ulps: 0 }), true, || format!("approximate equality of {} samples every {} nm with ends {} and {}", n, iv, a.end(), b.end()))?;
        let d = a.clone();
        c.eq(d == a, true, || "a clone equals its original".into())
    });
    let vals = [0.0, -0.0, 1.0, 1.0 + f64::EPSILON, 0.1, -0.1, 380.0, 1e-310, 1e300, f64::INFINITY, f64::NAN];
    let nv = vals.len();
    ctx.scope("samples", (nv * nv * nv * nv) as u64, "every pair of samples over 11 wavelengths and values: equal exactly when both agree, approximately when both are within the margin", |i, c| {
        let mut m = Mix(i);
        let (a, b) = ((*m.of(&vals), *m.of(&vals)), (*m.of(&vals), *m.of(&vals)));
        let (p, q) = (Sample::new(a.0, a.1), Sample::new(b.0, b.1));
        c.eq(p == q, a.0 == b.0 && a.1 == b.1, || format!("equality of samples {:?} and {:?}", a, b))?;
        // two not-a-numbers with the same bits are zero doubles apart: no claim
        if [a.0, a.1, b.0, b.1].iter().any(|x| x.is_nan()) {
            return Ok(());
        }
        for (eps, ulps) in margins {
            let want = within(a.0, b.0, eps, ulps) && within(a.1, b.1, eps, ulps);
            c.eq(p.approx_eq(q, F64Margin { epsilon: eps, ulps }), want, || format!("approximate equality of samples {:?} and {:?} within {:e} or {} ulps", a, b, eps, ulps))?;
        }
        Ok(())
    });
}

// ----------------------------------------------------------------------------- C26

fn same32(a: f32, b: f32) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
}
fn same64(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
}

/// Equal, or (for anything but the exact functions) within 4 units in the last place.
fn ulp32(a: f32, b: f32) -> bool {
    a == b || same32(a, b) || (a.is_finite() && b.is_finite() && a.is_sign_negative() == b.is_sign_negative() && a.to_bits().abs_diff(b.to_bits()) <= 4)
}
fn ulp64(a: f64, b: f64) -> bool {
    a == b || same64(a, b) || (a.is_finite() && b.is_finite() && a.is_sign_negative() == b.is_sign_negative() && a.to_bits().abs_diff(b.to_bits()) <= 4)
}

/// Integer powers multiply up to |k| rounding errors; near overflow and underflow the order of
/// the multiplications decides, so there only the side is compared.
fn powi_near(g: f64, w: f64, x: f64, k: i32, eps: f64, tiny: f64, huge: f64) -> bool {
    if g == w || (g.is_nan() && w.is_nan()) {
        return true;
    }
    let size = x.abs().powf(k.abs() as f64);
    let near = |v: f64| !(v < huge / 4.0) || v < tiny * 4.0;
    if near(size) || near(1.0 / size) {
        let (a, b) = (g.abs(), w.abs());
        return (a <= 8.0 * tiny && b <= 8.0 * tiny) || (a >= huge / 8.0 && b >= huge / 8.0) || (a - b).abs() <= 1e-3 * b;
    }
    (g - w).abs() <= eps * (k.abs() as f64 + 4.0) * w.abs()
}

pub fn c26(ctx: &Ctx) {
    // one argument, single precision: every value (thorough) or every 2^k-th bit pattern
    let sh = ctx.tier(2u32, 0);
    let per = 1u64 << (16 - sh.min(16));
    ctx.scope("one-f32", 65536, "sqrt, sqr, abs, sin, asin, cos, acos, tan, exp of single-precision values of every sign and exponent (quick: every 4th bit pattern, thorough: all 2^32) are the standard functions", move |i, c| {
        for j in 0..per {
            let x = f32::from_bits(((i << 16) | (j << sh) | (j & ((1 << sh) - 1))) as u32);
            let g = [math::sqrt(x), math::sqr(x), math::abs(x), math::sin(x), math::asin(x), math::cos(x), math::acos(x), math::tan(x), math::exp(x)];
            let w = [x.sqrt(), x * x, x.abs(), x.sin(), x.asin(), x.cos(), x.acos(), x.tan(), x.exp()];
            for k in 0..9 {
                if !(if k < 3 { same32(g[k], w[k]) } else { ulp32(g[k], w[k]) }) {
                    return Err(format!("function {} of {:?}: got {:?}, expected {:?}", ["sqrt", "sqr", "abs", "sin", "asin", "cos", "acos", "tan", "exp"][k], x, g[k], w[k]));
                }
            }
        }
        c.states = per;
        c.steps(9 * per);
        Ok(())
    });
    let sig = ctx.tier(8u32, 12);
    ctx.scope("one-f64", 4096, "the same of doubles of every sign and exponent, leading significands of 8 (thorough 12) bits", move |i, c| {
        for j in 0..1u64 << sig {
            let x = f64::from_bits((i << 52) | (j << (52 - sig)) | (j * 0x9E37 & 0xffff));
            let g = [math::sqrt(x), math::sqr(x), math::abs(x), math::sin(x), math::asin(x), math::cos(x), math::acos(x), math::tan(x), math::exp(x)];
            let w = [x.sqrt(), x * x, x.abs(), x.sin(), x.asin(), x.cos(), x.acos(), x.tan(), x.exp()];
            for k in 0..9 {
                if !(if k < 3 { same64(g[k], w[k]) } else { ulp64(g[k], w[k]) }) {
                    return Err(format!("function {} of {:?}: got {:?}, expected {:?}", ["sqrt", "sqr", "abs", "sin", "asin", "cos", "acos", "tan", "exp"][k], x, g[k], w[k]));
                }
            }
        }
        c.states = 1 << sig;
        c.steps(9 << sig);
        Ok(())
    });
    // two and three arguments over a lattice of every quadrant, scale and special value
    let mut v: Vec<f64> = vec![0.0, -0.0, 1.0, -1.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::MIN_POSITIVE, 5e-324, f64::MAX, -f64::MAX];
    let n = ctx.tier(60, 300);
    for k in 0..n {
        let t = 10f64.powf(-12.0 + 20.0 * k as f64 / n as f64);
        v.push(t);
        v.push(-t);
    }
    for k in 1..ctx.tier(12, 40) {
        v.push(k as f64);
        v.push(k as f64 * 0.25);
        v.push(-0.5 * k as f64);
        v.push(k as f64 / 3.0);
    }
    let nv = v.len();
    ctx.scope("two", (nv * nv) as u64, "atan2, pow and hypot of every ordered pair of a lattice over all signs and magnitudes with the special values, both precisions", |i, c| {
        let mut m = Mix(i);
        let (x, y) = (*m.of(&v), *m.of(&v));
        let (p, q) = (x as f32, y as f32);
        let g = [math::atan2(x, y), math::pow(x, y), math::hypot(x, y)];
        let w = [x.atan2(y), x.powf(y), x.hypot(y)];
        let h = [math::atan2(p, q), math::pow(p, q), math::hypot(p, q)];
        let u = [p.atan2(q), p.powf(q), p.hypot(q)];
        for k in 0..3 {
            let n = ["atan2", "pow", "hypot"][k];
            c.ensure(ulp64(g[k], w[k]), || format!("{}({:?}, {:?}): got {:?}, expected {:?}", n, x, y, g[k], w[k]))?;
            c.ensure(ulp32(h[k], u[k]), || format!("{}({:?}, {:?}): got {:?}, expected {:?}", n, p, q, h[k], u[k]))?;
        }
        Ok(())
    });
    ctx.scope("powi", (nv * 81) as u64, "integer powers -40..40 of every lattice value, both precisions", |i, c| {
        let mut m = Mix(i);
        let (x, k) = (*m.of(&v), m.pick(81) as i32 - 40);
        let (g, h) = (math::powi(x, k), math::powi(x as f32, k));
        c.ensure(powi_near(g, x.powi(k), x, k, 2.3e-16, f64::MIN_POSITIVE, f64::MAX), || format!("powi({:?}, {}): got {:?}, expected {:?}", x, k, g, x.powi(k)))?;
        c.ensure(powi_near(h as f64, (x as f32).powi(k) as f64, x as f32 as f64, k, 1.2e-7, f32::MIN_POSITIVE as f64, f32::MAX as f64), || format!("powi({:?}, {}): got {:?}, expected {:?}", x as f32, k, h, (x as f32).powi(k)))
    });
    let l: Vec<f64> = v.iter().copied().enumerate().filter(|(k, _)| *k < 11 || k % ctx.tier(5, 6) == 0).map(|(_, x)| x).collect();
    let nl = l.len();
    ctx.scope("clamp", (nl * nl * nl) as u64, "every triple of lattice values with ordered bounds: the value inside, the nearer bound outside; floats and integers", |i, c| {
        let mut m = Mix(i);
        let (x, a, b) = (*m.of(&l), *m.of(&l), *m.of(&l));
        if !(a <= b) || x.is_nan() {
            return c.skip();
        }
        let w = if x < a { a } else if x > b { b } else { x };
        c.ensure(math::clamp(x, a, b) == w, || format!("clamp({:?}, {:?}, {:?}): got {:?}", x, a, b, math::clamp(x, a, b)))?;
        let (xf, af, bf) = (x as f32, a as f32, b as f32);
        let w = if xf < af { af } else if xf > bf { bf } else { xf };
        c.ensure(math::clamp(xf, af, bf) == w, || format!("clamp({:?}, {:?}, {:?}): got {:?}", xf, af, bf, math::clamp(xf, af, bf)))?;
        if x.abs() < 1e9 && a.abs() < 1e9 && b.abs() < 1e9 {
            let (x, a, b) = (x as i64, a as i64, b as i64);
            c.eq(math::clamp(x, a, b), x.max(a).min(b), || format!("clamp({}, {}, {})", x, a, b))?;
        }
        Ok(())
    });
    let f: Vec<f32> = l.iter().map(|x| *x as f32).filter(|x| x.is_finite() && x.abs() < 1e30).collect();
    let nf = f.len();
    let nt = ctx.tier(65u64, 257);
    ctx.scope("lerp", nf as u64 * nf as u64 * nt, "lerp of every pair of lattice values at every k/N from -1/2 to 3/2: the ends exactly, the weighted mean between and beyond", |i, c| {
        let mut m = Mix(i);
        let (a, b) = (*m.of(&f), *m.of(&f));
        let t = -0.5 + 2.0 * m.pick(nt as usize) as f32 / (nt - 1) as f32;
        let g = math::lerp(a, b, t);
        if t == 0.0 {
            c.eq(g, a, || format!("lerp({:?}, {:?}, 0)", a, b))?;
        }
        if t == 1.0 {
            c.eq(g, b, || format!("lerp({:?}, {:?}, 1)", a, b))?;
        }
        let w = (1.0 - t as f64) * a as f64 + t as f64 * b as f64;
        c.near(g as f64, w, 1e-6 * (a.abs() as f64 + b.abs() as f64) + 1e-44, || format!("lerp({:?}, {:?}, {})", a, b, t))
    });
}

// ----------------------------------------------------------------------------- C27

/// The numbers written in a text, in order.
fn numbers(s: &str) -> Vec<&str> {
    s.split(|ch: char| !(ch.is_ascii_alphanumeric() || ch == '.' || ch == '-' || ch == '+'))
        .map(|t| t.trim_matches(|c: char| c == '.'))
        .filter(|t| t.parse::<f64>().is_ok())
        .collect()
}
fn reads64(c: &mut Case, text: &str, want: &[f64], what: &dyn Fn() -> String) -> R {
    let n = numbers(text);
    c.eq(n.len(), want.len(), || format!("numbers printed for {}: {:?}", what(), text))?;
    for (k, (t, w)) in n.iter().zip(want).enumerate() {
        let g: f64 = t.parse().unwrap();
        c.ensure(same64(g, *w), || format!("number {} printed for {}: {:?} instead of {:?}", k, what(), t, w))?;
    }
    Ok(())
}
fn reads32(c: &mut Case, text: &str, want: &[f32], what: &dyn Fn() -> String) -> R {
    let n = numbers(text);
    c.eq(n.len(), want.len(), || format!("numbers printed for {}: {:?}", what(), text))?;
    for (k, (t, w)) in n.iter().zip(want).enumerate() {
        let g: f32 = t.parse().unwrap();
        c.ensure(same32(g, *w), || format!("number {} printed for {}: {:?} instead of {:?}", k, what(), t, w))?;
    }
    Ok(())
}

pub fn c27(ctx: &Ctx) {
    let mut v: Vec<f64> = vec![0.0, -0.0, 1.0, -1.0, 0.1, 0.5, 1.0 / 3.0, -2.0 / 3.0, 1e-7, 123456.789, 1e16, 1e22, 5e-324, f64::MAX, f64::MIN_POSITIVE, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 255.0, 0.0031308];
    for k in 0..ctx.tier(12, 60) {
        v.push(f64::from_bits(0x3fb9_9999_9999_9999 + (k as u64) * 0x0123_4567_89ab) * if k % 3 == 0 { -1.0 } else { 1.0 });
    }
    let n = v.len();
    ctx.scope("colours", (n * n * n) as u64, "every triple of values, both precisions: RGB and XYZ print their three components in order, and reading them back gives the same numbers", |i, c| {
        let mut m = Mix(i);
        let t = [*m.of(&v), *m.of(&v), *m.of(&v)];
        let f = t.map(|x| x as f32);
        reads64(c, &format!("{}", RGBf64::new(t[0], t[1], t[2])), &t, &|| format!("RGB {:?}", t))?;
        reads64(c, &format!("{}", XYZf64::new(t[0], t[1], t[2])), &t, &|| format!("XYZ {:?}", t))?;
        reads32(c, &format!("{}", RGBf32::new(f[0], f[1], f[2])), &f, &|| format!("RGB {:?}", f))?;
        reads32(c, &format!("{}", XYZf32::new(f[0], f[1], f[2])), &f, &|| format!("XYZ {:?}", f))
    });
    ctx.scope("codes", 65536, "every 16-bit and 8-bit code in every channel", |i, c| {
        let k = i as u16;
        for p in 0..3 {
            let mut t = [7u16, 40000, 321];
            t[p] = k;
            let s = format!("{}", RGBu16 { r: t[0], g: t[1], b: t[2] });
            c.eq(numbers(&s), t.map(|x| x.to_string()).to_vec().iter().map(|x| x.as_str()).collect::<Vec<_>>(), || format!("{:?}", t))?;
            let mut t = [7u8, 200, 33];
            t[p] = (k % 256) as u8;
            let s = format!("{}", RGBu8 { r: t[0], g: t[1], b: t[2] });
            c.eq(numbers(&s), t.map(|x| x.to_string()).to_vec().iter().map(|x| x.as_str()).collect::<Vec<_>>(), || format!("{:?}", t))?;
        }
        Ok(())
    });
    let maxn = ctx.tier(600usize, 2000);
    ctx.scope("spectra", (maxn * 4) as u64, "spectra of every size, even and uneven, display and debug: range, interval and every sample in order", |i, c| {
        let mut m = Mix(i);
        let (n, kind) = (2 + m.pick(maxn), m.pick(4));
        let mut x = 380.0;
        let s: Vec<(f64, f64)> = (0..n)
            .map(|k| {
                let r = (x, v[(k * 7 + n) % v.len()]);
                x += if kind % 2 == 0 { 2.5 } else { [1.0, 5.0, 0.1][k % 3] };
                r
            })
            .collect();
        let p = mk(&s);
        let mut want = vec![p.start(), p.end()];
        if let Interval::Uniform(q) = p.interval() {
            want.push(q);
        }
        want.extend(s.iter().flat_map(|q| [q.0, q.1]));
        let t = if kind < 2 { format!("{}", p) } else { format!("{:?}", p) };
        reads64(c, &t, &want, &|| format!("a spectrum of {} samples", n))?;
        let last = p.last();
        reads64(c, &format!("{} {:?}", last, last), &[last.nm, last.v, last.nm, last.v], &|| "a sample".into())?;
        let h = p.shape();
        let want = match h.interval {
            Interval::Uniform(q) => vec![h.start, h.end, q],
            Interval::Varying => vec![h.start, h.end],
        };
        reads64(c, &format!("{}", h), &want, &|| "a range".into())
    });
    ctx.scope("fixed", (40 * n * 2) as u64, "fixed-grid spectra: every value at every position, display and debug", |i, c| {
        let mut m = Mix(i);
        let (j, x, dbg) = (m.pick(40), *m.of(&v) as f32, m.pick(2));
        let mut a = [0f32; 40];
        for (k, t) in a.iter_mut().enumerate() {
            *t = k as f32 / 40.0;
        }
        a[j] = x;
        let s = SPD::new(a);
        let t = if dbg == 1 { format!("{:?}", s) } else { format!("{}", s) };
        reads32(c, &t, &a, &|| format!("a fixed-grid spectrum with {:?} at {}", x, j))
    });
}
