//! C03: transfer curves.
use crate::core::*;
use crate::refm::Curve;
use colorspace::color_space_rgb::{decode, encode, model_f32, model_f64, ColorSpaceRGB};
use colorspace::math::Real;
use colorspace::rgb::RGBf;

pub fn spaces64() -> Vec<(&'static str, &'static ColorSpaceRGB<f64>, Curve)> {
    use model_f64::*;
    vec![
        ("SRGB", &*SRGB, Curve::Srgb),
        ("SRGB_DRV", &*SRGB_DRV, Curve::Srgb),
        ("ITUR_BT709", &*ITUR_BT709, Curve::Bt709),
        ("ITUR_BT2020", &*ITUR_BT2020, Curve::Bt709),
        ("DCI_P3", &*DCI_P3, Curve::Gamma(2.6)),
        ("DCI_P3_D65", &*DCI_P3_D65, Curve::Gamma(2.6)),
        ("ACES", &*ACES, Curve::Linear),
        ("ACES_CG", &*ACES_CG, Curve::Linear),
        ("ADOBE_RGB_1998", &*ADOBE_RGB_1998, Curve::Gamma(2.19921875)),
        ("ALEXA_WIDE_GAMUT", &*ALEXA_WIDE_GAMUT, Curve::LogC),
    ]
}
pub fn spaces32() -> Vec<(&'static str, &'static ColorSpaceRGB<f32>, Curve)> {
    use model_f32::*;
    vec![
        ("SRGB", &*SRGB, Curve::Srgb),
        ("ITUR_BT709", &*ITUR_BT709, Curve::Bt709),
        ("ITUR_BT2020", &*ITUR_BT2020, Curve::Bt709),
        ("DCI_P3", &*DCI_P3, Curve::Gamma(2.6)),
        ("DCI_P3_D65", &*DCI_P3_D65, Curve::Gamma(2.6)),
        ("ACES", &*ACES, Curve::Linear),
        ("ACES_CG", &*ACES_CG, Curve::Linear),
        ("ADOBE_RGB_1998", &*ADOBE_RGB_1998, Curve::Gamma(2.19921875)),
        ("ALEXA_WIDE_GAMUT", &*ALEXA_WIDE_GAMUT, Curve::LogC),
    ]
}

/// Error bound of an encode in precision `eps` (unit roundoff * 2).
fn enc_tol(cv: Curve, x: f64, want: f64, eps: f64) -> f64 {
    let lnx = if x.abs() > 0.0 { x.abs().ln().abs() } else { 0.0 };
    match cv {
        Curve::Linear => 0.0,
        Curve::Gamma(_) => eps * want.abs() * (4.0 + lnx),
        Curve::Srgb | Curve::Bt709 => {
            if x <= cv.enc_break() * (1.0 + 8.0 * eps) {
                eps * want.abs() * 4.0 + if (x - cv.enc_break()).abs() < 1e-5 { eps } else { 0.0 }
            } else {
                eps * (want.abs() + 0.2) * (4.0 + lnx)
            }
        }
        Curve::LogC => eps * (want.abs() + 1.0) * 8.0,
    }
}
fn dec_tol(cv: Curve, y: f64, want: f64, eps: f64) -> f64 {
    let lny = if y.abs() > 0.0 { y.abs().ln().abs() } else { 0.0 };
    match cv {
        Curve::Linear => 0.0,
        Curve::Gamma(_) => eps * want.abs() * (4.0 + 3.0 * lny),
        Curve::Srgb | Curve::Bt709 => eps * want.abs() * (12.0 + 3.0 * lny),
        Curve::LogC => {
            let e = ((y - 0.385537) / 0.247190).abs();
            eps * (want.abs() + 0.02) * (12.0 + 6.0 * e)
        }
    }
}

fn close(got: f64, want: (f64, Option<f64>), tol: impl Fn(f64) -> f64, maxf: f64) -> bool {
    let one = |w: f64| {
        // next to the overflow threshold intermediate results may overflow
        if w.abs() > maxf * 0.01 && got.abs() >= maxf * 0.99 {
            return true;
        }
        (got - w).abs() <= tol(w)
    };
    one(want.0) || want.1.map_or(false, one)
}

/// smallest normal: below it only absolute agreement is required
pub trait Prec: Real + Into<f64> + Send + Sync + 'static {
    const EPS: f64;
    const TINY: f64;
    const MAXF: f64;
    fn of(x: f64) -> Self;
}
impl Prec for f32 {
    const EPS: f64 = f32::EPSILON as f64;
    const TINY: f64 = 1.0e-37;
    const MAXF: f64 = f32::MAX as f64;
    fn of(x: f64) -> f32 {
        x as f32
    }
}
impl Prec for f64 {
    const EPS: f64 = f64::EPSILON;
    const TINY: f64 = 1.0e-300;
    const MAXF: f64 = f64::MAX;
    fn of(x: f64) -> f64 {
        x
    }
}

fn chk_enc<T: Prec>(cv: Curve, x: f64, got: f64) -> bool {
    close(got, cv.encode(x, T::EPS), |w| enc_tol(cv, x, w, T::EPS) + T::TINY, T::MAXF)
}
fn chk_dec<T: Prec>(cv: Curve, y: f64, got: f64) -> bool {
    close(got, cv.decode(y, T::EPS), |w| dec_tol(cv, y, w, T::EPS) + T::TINY, T::MAXF)
}

/// decode(encode(x)) against x: the published constants leave tiny steps at the
/// break points, so the round trip is looser just there.
fn rt_tol(cv: Curve, x: f64, eps: f64) -> f64 {
    let lnx = if x > 0.0 { x.ln().abs() } else { 0.0 };
    let base = match cv {
        Curve::Linear => 0.0,
        Curve::Gamma(_) => eps * x * (16.0 + 6.0 * lnx),
        Curve::Srgb | Curve::Bt709 => eps * (x.abs() * (16.0 + 6.0 * lnx) + if x > cv.enc_break() { 0.02 + 0.3 * x.sqrt() } else { 0.0 }),
        // slope of the inverse is ln10/c * (x + b/a), values of order 0.1..1
        Curve::LogC => eps * 30.0 * (x.abs() + 0.02) * (1.0 + (x.abs() + 0.01).ln().abs()),
    };
    let step = match cv {
        Curve::Srgb => 5.0e-9,
        Curve::LogC => 1.0e-6,
        _ => 0.0,
    };
    let t = cv.enc_break();
    if (x - t).abs() < 1.0e-5 {
        base + step
    } else {
        base
    }
}

pub fn scalar_fns<T: Prec>() -> Vec<(&'static str, Curve, fn(T) -> T, fn(T) -> T)> {
    vec![
        ("srgb", Curve::Srgb, encode::srgb_t::<T>, decode::srgb_t::<T>),
        ("bt709", Curve::Bt709, encode::bt709_t::<T>, decode::bt709_t::<T>),
        ("bt2020", Curve::Bt709, encode::bt2020_t::<T>, decode::bt2020_t::<T>),
        ("linear", Curve::Linear, encode::linear_t::<T>, decode::linear_t::<T>),
        ("alexa_logc_v3", Curve::LogC, encode::alexa_logc_v3_t::<T>, decode::alexa_logc_v3_t::<T>),
    ]
}
#[allow(clippy::type_complexity)]
pub fn rgb_fns<T: Prec>() -> Vec<(&'static str, Curve, fn(RGBf<T>) -> RGBf<T>, fn(RGBf<T>) -> RGBf<T>)> {
    vec![
        ("srgb", Curve::Srgb, encode::srgb::<T>, decode::srgb::<T>),
        ("bt709", Curve::Bt709, encode::bt709::<T>, decode::bt709::<T>),
        ("bt2020", Curve::Bt709, encode::bt2020::<T>, decode::bt2020::<T>),
        ("linear", Curve::Linear, encode::linear::<T>, decode::linear::<T>),
        ("alexa_logc_v3", Curve::LogC, encode::alexa_logc_v3::<T>, decode::alexa_logc_v3::<T>),
    ]
}

fn one<T: Prec>(c: &mut Case, name: &str, cv: Curve, enc: &dyn Fn(T) -> T, dec: &dyn Fn(T) -> T, x: T) -> R {
    let xd: f64 = x.into();
    let piecewise = matches!(cv, Curve::Srgb | Curve::Bt709 | Curve::LogC | Curve::Linear);
    if xd < 0.0 && !piecewise {
        return Ok(());
    }
    // intermediate products may overflow here
    if xd.abs() > T::MAXF / 16.0 {
        return Ok(());
    }
    let e: f64 = enc(x).into();
    let d: f64 = dec(x).into();
    c.steps(2);
    if !chk_enc::<T>(cv, xd, e) {
        return Err(format!("{} encode({:?}) = {:?}, published curve gives {:?}", name, xd, e, cv.encode(xd, T::EPS)));
    }
    if !chk_dec::<T>(cv, xd, d) {
        return Err(format!("{} decode({:?}) = {:?}, published curve gives {:?}", name, xd, d, cv.decode(xd, T::EPS)));
    }
    if xd.abs() < T::MAXF.sqrt().sqrt() && e.is_finite() {
        let r: f64 = dec(enc(x)).into();
        c.step();
        if !((r - xd).abs() <= rt_tol(cv, xd, T::EPS) + T::TINY) {
            return Err(format!("{} decode(encode({:?})) = {:?}", name, xd, r));
        }
    }
    Ok(())
}

pub fn c03(ctx: &Ctx) {
    // 1. every f32 in [2^-14, 8) (thorough: every non-negative f32 and every negative one above -2)
    const B: u64 = 1 << 14;
    let f = scalar_fns::<f32>();
    let nf = f.len();
    let (lo, hi) = (2f32.powi(-14).to_bits() as u64, 8f32.to_bits() as u64);
    ctx.scope("f32-dense", (hi - lo) / B * nf as u64, "every f32 in [2^-14, 8) for every scalar curve: encode, decode, decode(encode)", |i, c| {
        let k = (i % nf as u64) as usize;
        let blk = i / nf as u64;
        let (name, cv, e, d) = f[k];
        c.states = B;
        let (mut pe, mut pd) = (f32::NEG_INFINITY, f32::NEG_INFINITY);
        for j in 0..B {
            let x = f32::from_bits((lo + blk * B + j) as u32);
            let (ge, gd) = (e(x), d(x));
            let xd = x as f64;
            if !chk_enc::<f32>(cv, xd, ge as f64) {
                return Err(format!("{} encode({:?}) = {:?}, published curve gives {:?}", name, x, ge, cv.encode(xd, f32::EPSILON as f64)));
            }
            if !chk_dec::<f32>(cv, xd, gd as f64) {
                return Err(format!("{} decode({:?}) = {:?}, published curve gives {:?}", name, x, gd, cv.decode(xd, f32::EPSILON as f64)));
            }
            let r = d(ge);
            if !((r as f64 - xd).abs() <= rt_tol(cv, xd, f32::EPSILON as f64)) {
                return Err(format!("{} decode(encode({:?})) = {:?}", name, x, r));
            }
            // rounding and the published steps at the break allow this much descent
            let slack = 4e-7 * (1.0 + ge.abs());
            if ge < pe - slack || (gd < pd - 4e-7 * (1.0 + gd.abs()) && (xd - cv.dec_break()).abs() > 1e-6) {
                return Err(format!("{} decreases at {:?}", name, x));
            }
            pe = ge;
            pd = gd;
        }
        c.steps(3 * B);
        c.outf(e(f32::from_bits((lo + blk * B) as u32)) as f64);
        c.sample(|| format!("{}: {} values from {:?}", name, B, f32::from_bits((lo + blk * B) as u32)));
        Ok(())
    });
    // 2. whole range with a lattice of significands
    let bits = ctx.tier(16u32, 18);
    let per_sign = 255u64 << bits;
    ctx.scope("f32-range", 2 * per_sign / 256 * nf as u64, "all exponents, both signs, significands of 16 (thorough 18) bits", |i, c| {
        let k = (i % nf as u64) as usize;
        let blk = i / nf as u64;
        let (name, cv, e, d) = f[k];
        c.states = 256;
        for j in 0..256u64 {
            let v = blk * 256 + j;
            let neg = v >= per_sign;
            let m = (v % per_sign) as u32;
            let x = f32::from_bits(m << (23 - bits) | if neg { 1 << 31 } else { 0 });
            if !x.is_finite() || (neg && cv == Curve::LogC && x < -1e30) {
                continue;
            }
            one::<f32>(c, name, cv, &e, &d, x)?;
        }
        Ok(())
    });
    let f64s = scalar_fns::<f64>();
    let bits = ctx.tier(16u32, 18);
    let exps = 160u64; // 2^-120 .. 2^40
    let per_sign = exps << bits;
    ctx.scope("f64-range", 2 * per_sign / 256 * nf as u64, "2^-120..2^40, both signs, significands of 16 (thorough 18) bits, plus tail bits set", |i, c| {
        let k = (i % nf as u64) as usize;
        let blk = i / nf as u64;
        let (name, cv, e, d) = f64s[k];
        c.states = 256;
        for j in 0..256u64 {
            let v = blk * 256 + j;
            let neg = v >= per_sign;
            let m = v % per_sign;
            let ex = (m >> bits) + (1023 - 120);
            let sig = m & ((1 << bits) - 1);
            for tail in [0u64, (1 << (52 - bits)) - 1] {
                let x = f64::from_bits((neg as u64) << 63 | ex << 52 | sig << (52 - bits) | tail);
                one::<f64>(c, name, cv, &e, &d, x)?;
            }
        }
        Ok(())
    });
    // 3. the neighbourhood of every break point, both precisions
    let nb = ctx.tier(200_000i64, 2_000_000);
    ctx.scope("breaks", nf as u64 * 6, "all values within 200000 (thorough 2000000) ulps of each break, 0 and 1, both precisions", |i, c| {
        let mut m = Mix(i);
        let k = m.pick(nf);
        let which = m.pick(6);
        let cv = f[k].1;
        let t = match which % 3 {
            0 => cv.enc_break(),
            1 => cv.dec_break(),
            _ => 1.0,
        };
        let t = if t.is_finite() { t } else { 0.5 };
        c.states = 2 * nb as u64;
        for d in -nb..nb {
            if which < 3 {
                let x = f64::from_bits((t.to_bits() as i64 + d) as u64);
                one::<f64>(c, f64s[k].0, cv, &f64s[k].2, &f64s[k].3, x)?;
            } else {
                let x = f32::from_bits(((t as f32).to_bits() as i64 + d) as u32);
                one::<f32>(c, f[k].0, cv, &f[k].2, &f[k].3, x)?;
            }
        }
        // fixed points
        if !matches!(cv, Curve::LogC) {
            for (x, tol) in [(0.0, 0.0), (1.0, 1.0)] {
                let e: f64 = f64s[k].2(x);
                let d: f64 = f64s[k].3(x);
                c.near(e, x, tol * 1e-15, || format!("{} encode({})", f64s[k].0, x))?;
                c.near(d, x, tol * 1e-15, || format!("{} decode({})", f64s[k].0, x))?;
                let e: f32 = f[k].2(x as f32);
                let d: f32 = f[k].3(x as f32);
                c.near(e as f64, x, tol * 5e-7, || format!("{} f32 encode({})", f[k].0, x))?;
                c.near(d as f64, x, tol * 5e-7, || format!("{} f32 decode({})", f[k].0, x))?;
            }
        }
        Ok(())
    });
    // 4. colour-level functions and the encode/decode of every built-in space: all mixtures
    let lat: Vec<f64> = vec![0.0, 1e-6, 0.001, 0.0031307, 0.0031309, 0.01, 0.0105, 0.0107, 0.0179, 0.0181, 0.0404, 0.0405, 0.05, 0.08, 0.082, 0.1, 0.1495, 0.15, 0.18, 0.25, 0.391, 0.5, 0.735, 0.9, 1.0, 1.5, 4.0, 40.0, -0.01, -0.5];
    let n = lat.len();
    let s64 = spaces64();
    let s32 = spaces32();
    let g64 = rgb_fns::<f64>();
    let g32 = rgb_fns::<f32>();
    let total = s64.len() + s32.len() + g64.len() + g32.len();
    ctx.scope("colours", (n * n * n * total) as u64, "all RGB triples over 30 values for all 19 built-in spaces and 10 colour-level curves", |i, c| {
        let mut m = Mix(i);
        let w = m.pick(total);
        let v = [lat[m.pick(n)], lat[m.pick(n)], lat[m.pick(n)]];
        fn go<T: Prec>(c: &mut Case, name: &str, cv: Curve, e: &dyn Fn(RGBf<T>) -> RGBf<T>, d: &dyn Fn(RGBf<T>) -> RGBf<T>, v: [f64; 3]) -> R {
            let x = RGBf::<T>::new(T::of(v[0]), T::of(v[1]), T::of(v[2]));
            let (ge, gd) = (e(x), d(x));
            let rt = d(ge);
            c.steps(3);
            let arr = |q: RGBf<T>| -> [f64; 3] { [q.r.into(), q.g.into(), q.b.into()] };
            let (xs, es, ds, rs) = (arr(x), arr(ge), arr(gd), arr(rt));
            for k in 0..3 {
                if xs[k] < 0.0 && matches!(cv, Curve::Gamma(_)) {
                    continue;
                }
                if !chk_enc::<T>(cv, xs[k], es[k]) {
                    return Err(format!("{} encode({:?}) channel {} = {:?}, published curve gives {:?}", name, xs, k, es[k], cv.encode(xs[k], T::EPS)));
                }
                if !chk_dec::<T>(cv, xs[k], ds[k]) {
                    return Err(format!("{} decode({:?}) channel {} = {:?}, published curve gives {:?}", name, xs, k, ds[k], cv.decode(xs[k], T::EPS)));
                }
                if !((rs[k] - xs[k]).abs() <= rt_tol(cv, xs[k], T::EPS)) {
                    return Err(format!("{} decode(encode({:?})) channel {} = {:?}", name, xs, k, rs[k]));
                }
            }
            c.outf(es[0] + 3.0 * es[1] + 7.0 * es[2]);
            Ok(())
        }
        let mut w = w;
        if w < s64.len() {
            let s = s64[w];
            return go::<f64>(c, s.0, s.2, &|x| s.1.encode(x), &|x| s.1.decode(x), v);
        }
        w -= s64.len();
        if w < s32.len() {
            let s = s32[w];
            return go::<f32>(c, s.0, s.2, &|x| s.1.encode(x), &|x| s.1.decode(x), v);
        }
        w -= s32.len();
        if w < g64.len() {
            let s = g64[w];
            return go::<f64>(c, s.0, s.1, &s.2, &s.3, v);
        }
        let s = g32[w - g64.len()];
        go::<f32>(c, s.0, s.1, &s.2, &s.3, v)
    });
    // 5. each built-in space, densely on greys and single channels
    let (lo2, hi2) = (2f32.powi(-12).to_bits() >> 7, 4f32.to_bits() >> 7);
    let ntot = s64.len() + s32.len();
    let nblk = ((hi2 - lo2) / 1024) as u64;
    ctx.scope("space-dense", nblk * ntot as u64, "every 16-bit-significand value in [2^-12,4) through every built-in space, in all channels", |i, c| {
        let w = (i % ntot as u64) as usize;
        let blk = (i / ntot as u64) as u32;
        c.states = 1024;
        for j in 0..1024u32 {
            let x = f32::from_bits((lo2 + blk * 1024 + j) << 7);
            let y = f32::from_bits((lo2 + (blk * 1024 + j * 7 + 13) % (hi2 - lo2)) << 7);
            if w < s64.len() {
                let s = s64[w];
                for ch in 0..3 {
                    let mk = |t: f64| {
                        let mut q = RGBf::new(y as f64, y as f64, y as f64);
                        q[ch] = t;
                        q
                    };
                    one::<f64>(c, s.0, s.2, &|t| s.1.encode(mk(t))[ch], &|t| s.1.decode(mk(t))[ch], x as f64)?;
                }
            } else {
                let s = s32[w - s64.len()];
                for ch in 0..3 {
                    let mk = |t: f32| {
                        let mut q = RGBf::new(y, y, y);
                        q[ch] = t;
                        q
                    };
                    one::<f32>(c, s.0, s.2, &|t| s.1.encode(mk(t))[ch], &|t| s.1.decode(mk(t))[ch], x)?;
                }
            }
        }
        Ok(())
    });
    if ctx.thorough {
        let pos = 0x7f80_0000u64;
        ctx.scope("f32-all-nonneg", pos / B * nf as u64, "every non-negative finite f32", |i, c| {
            let k = (i % nf as u64) as usize;
            let blk = i / nf as u64;
            let (name, cv, e, d) = f[k];
            c.states = B;
            for j in 0..B {
                one::<f32>(c, name, cv, &e, &d, f32::from_bits((blk * B + j) as u32))?;
            }
            Ok(())
        });
    }
}
