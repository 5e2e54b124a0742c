//! C18 (fixed-grid spectra), C19 (uplifting), C20 (daylight).
use crate::core::*;
use crate::props::curves::Prec;
use crate::props::spectra::spec_of;
use crate::refm::*;
use crate::refspec::*;
use colorspace::chromaticity::XYY;
use colorspace::spd::*;
use colorspace::uplifting::*;
use colorspace::vspd::{SpdShape, VSPD};
use colorspace::xyz::XYZf32;
use colorspace::{cmf, illuminant, RGBf64};

// ----------------------------------------------------------------------------- C18

fn view(illum: &VSPD) -> Viewing {
    let o = &*cmf::CIE_1931_2_DEGREE;
    Viewing::new(&spec_of(illum), [&spec_of(&o.x_bar), &spec_of(&o.y_bar), &spec_of(&o.z_bar)])
}

const N: usize = 40;
type S40 = [f32; N];

/// Reference weights: the E308 tristimulus values of the unit impulse at each sample.
fn weights() -> Vec<[f64; 3]> {
    let v = view(&illuminant::spd::D65);
    (0..N)
        .map(|j| {
            let nm: Vec<f64> = (0..N).map(|k| 380.0 + 10.0 * k as f64).collect();
            let y: Vec<f64> = (0..N).map(|k| (k == j) as u8 as f64).collect();
            v.xyz(&Spec::of(nm, y)).0
        })
        .collect()
}

fn x3(v: XYZf32) -> [f64; 3] {
    [v.x as f64, v.y as f64, v.z as f64]
}

/// Run every conversion path on the spectrum at two different address alignments.
fn paths(s: &S40, mut f: impl FnMut(&'static str, usize, [f64; 3]) -> R) -> R {
    #[repr(align(64))]
    struct Buf([u8; 512]);
    let mut b = Buf([0; 512]);
    for off in [0usize, 16] {
        let p = unsafe { b.0.as_mut_ptr().add(off) as *mut SPD };
        unsafe { p.write(SPD::new(*s)) };
        let r: &SPD = unsafe { &*p };
        f("to_xyz", off, x3(r.to_xyz()))?;
        f("spd_to_xyz", off, x3(spd_to_xyz(r)))?;
        f("spd_to_xyz_scalar", off, x3(spd_to_xyz_scalar(r)))?;
        #[cfg(target_feature = "avx")]
        f("spd_to_xyz_avx", off, x3(spd_to_xyz_avx(r)))?;
    }
    Ok(())
}

fn fixed_one(c: &mut Case, w: &[[f64; 3]], s: &S40, what: &dyn Fn() -> String) -> R {
    let mut want = [0.0f64; 3];
    let mut mag = [0.0f64; 3];
    for k in 0..N {
        for ch in 0..3 {
            let t = w[k][ch] * s[k] as f64;
            want[ch] += t;
            mag[ch] += t.abs();
        }
    }
    // the published weights carry single precision of the largest weight
    let top: f64 = s.iter().fold(0.0f64, |m, v| m.max(v.abs() as f64));
    paths(s, |name, off, g| {
        for ch in 0..3 {
            c.near(g[ch], want[ch], 1.5e-6 * mag[ch] + 4e-7 * top + 1e-42, || format!("{} of {} at alignment {}: component {}", name, what(), off, ch))?;
        }
        c.outf(g[1]);
        Ok(())
    })
}

pub fn c18(ctx: &Ctx) {
    let w = weights();
    let mags: &[f32] = &[1.0, -1.0, 0.5, 2.0, 100.0, -37.25, 1e-3, 1e6, -1e-20, 1e30, f32::MIN_POSITIVE, 1e-40, 0.1, 0.9999999];
    ctx.scope("weights", (N * 3) as u64, "every stored weight against the E308 weight of that ordinate", |i, c| {
        let (k, ch) = ((i / 3) as usize, (i % 3) as usize);
        let t: &SPD = match ch {
            0 => &W_X,
            1 => &W_Y,
            _ => &W_Z,
        };
        c.near(t.values[k] as f64, w[k][ch], 1e-6 * w[k][ch].abs() + 2e-7, || format!("weight {} of {} nm", ["X", "Y", "Z"][ch], 380 + 10 * k))
    });
    ctx.scope("grid", N as u64, "the published grid constants against the wavelength of every sample", |i, c| {
        c.eq(&(SPD_START + i as f32 * SPD_INTERVAL), &(380.0 + 10.0 * i as f32), || format!("wavelength of sample {} from the constants", i))?;
        c.eq(&(SPD_SAMPLES as f32, SPD_END), &(40.0, 770.0), || "grid constants".into())
    });
    ctx.scope("impulse", (N * mags.len()) as u64, "an impulse at every sample x 14 magnitudes, every path, two alignments", |i, c| {
        let mut m = Mix(i);
        let v = *m.of(mags);
        let k = m.pick(N);
        let mut s = [0.0; N];
        s[k] = v;
        fixed_one(c, &w, &s, &|| format!("impulse {:?} at {}", v, k))
    });
    ctx.scope("vspd-impulse", (N * mags.len()) as u64, "the same impulses through the variable-spectrum pipeline of the crate itself", |i, c| {
        let mut m = Mix(i);
        let v = *m.of(mags);
        let k = m.pick(N);
        let mut s = [0.0; N];
        s[k] = v;
        let y: Vec<f64> = s.iter().map(|v| *v as f64).collect();
        let r = VSPD::from_values(SpdShape::new(380.0, 770.0, 10.0), &y).to_xyz(&illuminant::spd::D65, &cmf::CIE_1931_2_DEGREE);
        let r = [r.x, r.y, r.z];
        paths(&s, |name, _, g| {
            for ch in 0..3 {
                c.near(g[ch], r[ch], 4e-6 * v.abs() as f64 + 1e-42, || format!("{} against VSPD::to_xyz, impulse {:?} at {}, component {}", name, v, k, ch))?;
            }
            Ok(())
        })
    });
    let pm: &[f32] = ctx.tier(&[1.0, -1.0, 0.25, -3.0, 1e3, 1e-3, 0.9999999, 1e8, -1e-9, 7.5], &[1.0, -1.0, 0.25, -3.0, 1e3, 1e-3, 0.9999999, 1e8, -1e-9, 7.5, 0.1, 0.3, -0.7, 1e-20, 1e20, 33.3, 2e-7, 0.5, 2.0, 1e5]);
    ctx.scope("pair", (N * N * pm.len() * pm.len()) as u64, "two impulses at every pair of samples x every pair of magnitudes", |i, c| {
        let mut m = Mix(i);
        let (a, b) = (*m.of(pm), *m.of(pm));
        let (j, k) = (m.pick(N), m.pick(N));
        let mut s = [0.0; N];
        s[j] += a;
        s[k] += b;
        fixed_one(c, &w, &s, &|| format!("impulses {:?} at {} and {:?} at {}", a, j, b, k))
    });
    ctx.scope("triple", (N * N * N * 4) as u64, "three impulses at every triple of samples x 4 sign patterns", |i, c| {
        let mut m = Mix(i);
        let sg = m.pick(4);
        let mut s = [0.0; N];
        for (t, v) in [0.75, -0.5f32, 1.25].iter().enumerate() {
            let k = m.pick(N);
            s[k] += if sg >> t & 1 == 1 { -*v } else { *v };
        }
        fixed_one(c, &w, &s, &|| format!("{:?}", s))
    });
    ctx.scope("lanes", 1 << 15, "samples 1 or 0.5 over all 2^8 lane masks x 2^5 register masks x 4 backgrounds", |i, c| {
        let mut m = Mix(i);
        let bg = *m.of(&[0.0f32, 0.5, -1.0, 3.0]);
        let (lm, bm) = (m.pick(256), m.pick(32));
        let mut s = [bg; N];
        for k in 0..N {
            if lm >> (k % 8) & 1 == 1 && bm >> (k / 8) & 1 == 1 {
                s[k] += 1.0 + k as f32 / 64.0;
            }
        }
        fixed_one(c, &w, &s, &|| format!("{:?}", s))
    });
    ctx.scope("constant", mags.len() as u64 + 2000, "constant spectra of 2014 levels: every sample, Y = 100 v, D65 white", |i, c| {
        let v = if (i as usize) < mags.len() { mags[i as usize] } else { (i as f32 - 1000.0) / 500.0 };
        let s = SPD::constant(v);
        for k in 0..N {
            c.eq(s.values[k].to_bits(), v.to_bits(), || format!("constant({:?}) sample {}", v, k))?;
        }
        let (mut y100, white) = (100.0 * v as f64, [95.0465, 100.0, 108.897]);
        paths(&s.values, |name, _, g| {
            c.near(g[1], y100, 3e-6 * y100.abs() + 1e-40, || format!("{}: Y of constant {:?}", name, v))?;
            for ch in 0..3 {
                c.near(g[ch], white[ch] * v as f64, 3e-5 * y100.abs() + 1e-40, || format!("{}: white of constant {:?}, component {}", name, v, ch))?;
            }
            Ok(())
        })?;
        y100 += 0.0;
        c.outf(y100);
        fixed_one(c, &w, &s.values, &|| format!("constant {:?}", v))
    });
    ctx.scope("combination", 40 * 40 * 24, "a sum of scaled spectra converts to the sum of the scaled results", |i, c| {
        let mut m = Mix(i);
        let (j, k) = (m.pick(40), m.pick(40));
        let (a, b) = ([1.0f32, -2.0, 0.5, 8.0][m.pick(4)], [1.0f32, 0.25, -4.0][m.pick(3)]);
        let ph = m.pick(2);
        let p = |q: usize| -> S40 { std::array::from_fn(|t| ((t * (q + 1) + 3 * ph) % 17) as f32 / 16.0) };
        let (s, t) = (p(j), p(k));
        let u: S40 = std::array::from_fn(|q| a * s[q] + b * t[q]);
        let (gs, gt, gu) = (x3(SPD::new(s).to_xyz()), x3(SPD::new(t).to_xyz()), x3(SPD::new(u).to_xyz()));
        for ch in 0..3 {
            let want = a as f64 * gs[ch] + b as f64 * gt[ch];
            c.near(gu[ch], want, 4e-6 * 110.0 * (a.abs() + b.abs()) as f64, || format!("patterns {} and {}: {} s + {} t", j, k, a, b))?;
        }
        Ok(())
    });
    // element operations
    let el: &[f32] = &[0.0, -0.0, 1.0, -1.0, 0.5, 3.0, -7.25, 1e20, 1e-30, f32::MIN_POSITIVE, f32::INFINITY, f32::NEG_INFINITY, f32::NAN, f32::MAX, 1.0000001, 0.99999994];
    let same = |a: f32, b: f32| a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan());
    ctx.scope("multiply", (N * el.len() * el.len()) as u64, "every pair of 16 values at every sample among distinct neighbours, both operand orders", |i, c| {
        let mut m = Mix(i);
        let (a, b, k) = (*m.of(el), *m.of(el), m.pick(N));
        let mut s: S40 = std::array::from_fn(|t| 1.0 + t as f32);
        let mut t: S40 = std::array::from_fn(|t| 0.5 - 0.03125 * t as f32);
        s[k] = a;
        t[k] = b;
        let (s, t) = (SPD::new(s), SPD::new(t));
        for (p, q) in [(&s, &t), (&t, &s)] {
            let r = p * q;
            for j in 0..N {
                let want = p.values[j] * q.values[j];
                c.ensure(same(r.values[j], want), || format!("product with {:?} * {:?} at {}: sample {} is {:?}, expected {:?}", a, b, k, j, r.values[j], want))?;
            }
        }
        Ok(())
    });
    ctx.scope("equality", (N * el.len() * el.len()) as u64, "spectra that differ in at most one sample, every sample x every pair of 16 values", |i, c| {
        let mut m = Mix(i);
        let (a, b, k) = (*m.of(el), *m.of(el), m.pick(N));
        let mut s: S40 = std::array::from_fn(|t| 1.0 + t as f32);
        let mut t = s;
        s[k] = a;
        t[k] = b;
        let (s, t) = (SPD::new(s), SPD::new(t));
        c.eq(s == t, a == b, || format!("equality of spectra with {:?} and {:?} at {}", a, b, k))?;
        c.eq(s != t, a != b, || format!("inequality of spectra with {:?} and {:?} at {}", a, b, k))?;
        let u = s.clone();
        c.eq(u == s, a == a, || format!("equality of a clone with {:?} at {}", a, k))
    });
    ctx.scope("equality-2", (N * N * 2) as u64, "spectra that differ in two samples by opposite amounts or by a swap, every pair", |i, c| {
        let mut m = Mix(i);
        let (j, k, sw) = (m.pick(N), m.pick(N), m.pick(2));
        let s: S40 = std::array::from_fn(|t| 1.0 + t as f32);
        let mut t = s;
        if sw == 1 {
            t.swap(j, k);
        } else {
            t[j] += 1.0;
            t[k] -= 1.0;
        }
        c.eq(SPD::new(s) == SPD::new(t), j == k, || format!("spectra differing at {} and {}", j, k))
    });
    ctx.scope("iteration", (N * el.len()) as u64, "iteration order, count, mutation through iter_mut, construction, cloning with every value at every sample", |i, c| {
        let mut m = Mix(i);
        let (a, k) = (*m.of(el), m.pick(N));
        let mut v: S40 = std::array::from_fn(|t| 10.0 + t as f32);
        v[k] = a;
        let mut s = SPD::new(v);
        let bits = |x: &[f32]| x.iter().map(|q| q.to_bits()).collect::<Vec<_>>();
        let it: Vec<f32> = s.iter().copied().collect();
        c.eq(bits(&it), bits(&v), || format!("iter with {:?} at {}", a, k))?;
        c.eq(bits(&s.values), bits(&v), || "new".into())?;
        c.eq(bits(&s.clone().values), bits(&v), || "clone".into())?;
        for (j, q) in s.iter_mut().enumerate() {
            *q = (j * 3) as f32 + a;
        }
        let want: S40 = std::array::from_fn(|j| (j * 3) as f32 + a);
        c.ensure(s.values.iter().zip(want.iter()).all(|(x, y)| same(*x, *y)), || format!("iter_mut: {:?}", s.values))
    });
    ctx.assume("reference weights are computed by the reference model from the bundled D65 and 1931 observer tables, which C24 pins");
}

// ----------------------------------------------------------------------------- C19

/// linear sRGB from XYZ (Y of white 100), by the published sRGB primaries and white.
fn srgb_from_xyz() -> M3 {
    m_inv(&derive_rgb_to_xyz([0.64, 0.33], [0.30, 0.60], [0.15, 0.06], [0.3127, 0.3290]))
}

pub fn c19(ctx: &Ctx) {
    let basis = my_basis();
    let b: [Vec<f64>; 3] = [basis.0.values().collect(), basis.1.values().collect(), basis.2.values().collect()];
    let nm: Vec<f64> = (0..81).map(|k| 380.0 + 5.0 * k as f64).collect();
    let pubs: [&VSPD; 3] = [&MY_RED, &MY_GREEN, &MY_BLUE];
    let v65 = view(&illuminant::spd::D65);
    let m = srgb_from_xyz();
    ctx.scope("basis", 3 * 81, "every sample of both published copies of the basis, repeated calls", |i, c| {
        let (k, j) = ((i / 81) as usize, (i % 81) as usize);
        let again = my_basis();
        let again = [&again.0, &again.1, &again.2][k];
        for (s, which) in [(again, "my_basis()"), (pubs[k], "published copy")] {
            let p = spec_of(s);
            c.eq(p.nm.len(), 81, || format!("{} {}: samples", which, k))?;
            c.eq(p.nm[j], nm[j], || format!("{} {}: wavelength {}", which, k, j))?;
            c.eq(p.shape, Shape { start: 380.0, end: 780.0, interval: Some(5.0) }, || format!("{} {}: shape", which, k))?;
            c.near(p.v[j], b[k][j], 1e-15, || format!("{} {} at {} nm", which, k, nm[j]))?;
        }
        c.ensure(b[k][j] >= 0.0 && b[k][j] <= 1.0, || format!("basis {} at {} nm is {}", k, nm[j], b[k][j]))?;
        let s = b[0][j] + b[1][j] + b[2][j];
        c.near(s, 1.0, 2e-5, || format!("sum of the basis at {} nm", nm[j]))
    });
    let one = |c: &mut Case, rgb: V3, cube: bool| -> R {
        let what = || format!("uplift of {:?}", rgb);
        let s = uplift_my(RGBf64::new(rgb[0], rgb[1], rgb[2]));
        let p = spec_of(&s);
        c.eq(p.nm == nm, true, || format!("{}: wavelengths {:?}", what(), p.nm))?;
        c.eq(p.shape, Shape { start: 380.0, end: 780.0, interval: Some(5.0) }, || format!("{}: shape", what()))?;
        let mag = rgb[0].abs() + rgb[1].abs() + rgb[2].abs();
        for j in 0..81 {
            let want = rgb[0] * b[0][j] + rgb[1] * b[1][j] + rgb[2] * b[2][j];
            c.near(p.v[j], want, 1e-14 * mag, || format!("{}: at {} nm", what(), nm[j]))?;
            if cube {
                c.ensure(p.v[j] >= 0.0 && p.v[j] <= 1.0 + 2e-5, || format!("{}: reflectance {} at {} nm", what(), p.v[j], nm[j]))?;
            }
            if rgb[0] == rgb[1] && rgb[1] == rgb[2] {
                c.near(p.v[j], rgb[0], 2e-5 * rgb[0].abs(), || format!("{}: grey at {} nm", what(), nm[j]))?;
            }
        }
        // back to the colour, by the crate and by the reference
        let x = s.to_xyz(&illuminant::spd::D65, &cmf::CIE_1931_2_DEGREE);
        let (r, _) = v65.xyz(&p);
        let mt = colorspace::transform::xyz_to_rgb_matrix(colorspace::SRGB.white, &colorspace::SRGB);
        let g = colorspace::transform::xyz_to_rgb(&mt, x);
        let q = m_vec(&m, &[r[0] / 100.0, r[1] / 100.0, r[2] / 100.0]);
        for (got, ch) in [(g.r, 0), (g.g, 1), (g.b, 2)] {
            c.near(got, rgb[ch], 2.5e-4 * mag, || format!("{}: channel {} after a round trip", what(), ch))?;
            c.near(q[ch], rgb[ch], 4e-4 * mag, || format!("{}: channel {} after a round trip by the reference pipeline", what(), ch))?;
        }
        c.outf(g.g);
        Ok(())
    };
    let n = ctx.tier(33u64, 97);
    ctx.scope("cube", n.pow(3), "uplift and return of every colour of a lattice over the unit cube", |i, c| {
        let mut x = Mix(i);
        let mut g = || x.pick(n as usize) as f64 / (n - 1) as f64;
        let rgb = [g(), g(), g()];
        one(c, rgb, true)
    });
    let ext: &[f64] = &[-2.0, -0.5, -0.0, 0.0, 1e-12, 1e-3, 0.18, 0.5, 1.0, 1.0000000001, 1.5, 7.0, 1e3, 1e6];
    ctx.scope("outside", (ext.len() as u64).pow(3), "linearity outside the cube: every triple of 14 values incl. negative and very large", |i, c| {
        let mut x = Mix(i);
        one(c, [*x.of(ext), *x.of(ext), *x.of(ext)], false)
    });
    let gn = ctx.tier(20001u64, 100001);
    ctx.scope("greys", gn, "every grey level of a fine scale", |i, c| {
        let v = i as f64 / (gn - 1) as f64;
        one(c, [v, v, v], true)
    });
    ctx.scope("edges", 3 * 4 * gn, "fine scales along every edge of the cube", |i, c| {
        let mut x = Mix(i);
        let (ax, p, q) = (x.pick(3), x.pick(2), x.pick(2));
        let v = x.pick(gn as usize) as f64 / (gn - 1) as f64;
        let mut rgb = [0.0; 3];
        rgb[ax] = v;
        rgb[(ax + 1) % 3] = p as f64;
        rgb[(ax + 2) % 3] = q as f64;
        one(c, rgb, true)
    });
}

// ----------------------------------------------------------------------------- C20

fn locus(t: f64) -> Option<(f64, f64)> {
    if !(t >= 4000.0 && t <= 25000.0) {
        return None;
    }
    let (a, b, c, d) = if t <= 7000.0 { (-4.6070e9, 2.9678e6, 0.09911e3, 0.244063) } else { (-2.0064e9, 1.9018e6, 0.24748e3, 0.237040) };
    let u = 1.0 / t;
    let x = ((a * u + b) * u + c) * u + d;
    Some((x, (-3.0 * x + 2.870) * x - 0.275))
}

fn cct_one<T: Prec>(c: &mut Case, t: T) -> R {
    let tf: f64 = t.into();
    let r: Result<XYY<T>, _> = illuminant::xy::cct(t);
    match (r, locus(tf)) {
        (Err(_), None) => {
            c.step();
            Ok(())
        }
        (Ok(v), None) => Err(format!("cct({:?}) is outside the domain but gave {:?}", tf, v)),
        (Err(_), Some(_)) => Err(format!("cct({:?}) is inside the domain but was refused", tf)),
        (Ok(v), Some((x, y))) => {
            let (gx, gy, gl): (f64, f64, f64) = (v.x.into(), v.y.into(), v.Y.into());
            let e = T::EPS;
            c.near(gx, x, 6.0 * e, || format!("x of cct({:?})", tf))?;
            c.near(gy, y, 12.0 * e, || format!("y of cct({:?})", tf))?;
            c.outf(gx);
            c.eq(gl, 1.0, || format!("luminance of cct({:?})", tf))
        }
    }
}

pub fn c20(ctx: &Ctx) {
    ctx.scope("cct-f32", 1 << 16, "every one of the 2^32 single-precision values", |i, c| {
        for k in 0..65536u32 {
            cct_one::<f32>(c, f32::from_bits((i as u32) << 16 | k))?;
        }
        c.states = 65536;
        Ok(())
    });
    let per = ctx.tier(1024u64, 1 << 14);
    ctx.scope("cct-f64", 21000, "a fine lattice of double-precision temperatures over the whole domain", |i, c| {
        for k in 0..per {
            cct_one::<f64>(c, 4000.0 + i as f64 + k as f64 / per as f64)?;
        }
        c.states = per;
        Ok(())
    });
    let edges: &[f64] = &[0.0, -0.0, 4000.0, 7000.0, 25000.0, -4000.0, -7000.0, -25000.0, 1.0, 1e-300, 1e300, f64::MAX, f64::MIN, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, -f64::NAN, f64::MIN_POSITIVE, 6504.0, 6500.0, 5000.0, 3999.0, 25001.0, 10000.0];
    ctx.scope("cct-edges", edges.len() as u64 * 4001, "every special value and the 2000 doubles on either side of it", |i, c| {
        let mut m = Mix(i);
        let b = *m.of(edges);
        let d = m.pick(4001) as i64 - 2000;
        cct_one::<f64>(c, f64::from_bits((b.to_bits() as i64).wrapping_add(d) as u64))
    });
    ctx.scope("cct-exponents", 2 * 2048 * 64, "every sign and exponent of a double x 64 leading significands", |i, c| cct_one::<f64>(c, f64::from_bits(i << 46)));
    // whites
    let consts: [(&str, XYY<f64>, f64, f64); 6] = [
        ("D50", illuminant::xy::D50, 0.34570, 0.35850),
        ("D55", illuminant::xy::D55, 0.33243, 0.34744),
        ("D60", illuminant::xy::D60, 0.321626242047397, 0.337736995955436),
        ("D65", illuminant::xy::D65, 0.31270, 0.32900),
        ("DCI_P3", illuminant::xy::DCI_P3, 0.31400, 0.35100),
        ("ACES", illuminant::xy::ACES, 0.32168, 0.33767),
    ];
    ctx.scope("whites", 6, "every bundled chromaticity", |i, c| {
        let (n, w, x, y) = &consts[i as usize];
        c.near(w.x, *x, 1e-12, || format!("x of {}", n))?;
        c.near(w.y, *y, 1e-12, || format!("y of {}", n))?;
        c.eq(w.Y, 1.0, || format!("Y of {}", n))
    });
    let spds: [(&str, &VSPD, f64, usize); 4] = [
        ("D50", &illuminant::spd::D50, 5000.0, 0),
        ("D55", &illuminant::spd::D55, 5500.0, 1),
        ("D60", &illuminant::spd::D60, 6000.0, 2),
        ("D65", &illuminant::spd::D65, 6500.0, 3),
    ];
    ctx.scope("daylight-spectra", 4, "chromaticity of each bundled daylight spectrum against its constant and against the locus", |i, c| {
        let (n, s, t, k) = spds[i as usize];
        let t = t * 1.4388 / 1.438;
        // as a radiant spectrum, by direct 1 nm and 5 nm summation
        let v = view(s);
        let flat = Spec::of(vec![360.0, 780.0], vec![1.0, 1.0]);
        let (x, _) = v.xyz(&flat);
        let sum = x[0] + x[1] + x[2];
        let (cx, cy) = (x[0] / sum, x[1] / sum);
        let w = consts[k].1;
        c.near(cx, w.x, 3e-4, || format!("x of the {} spectrum against its chromaticity", n))?;
        c.near(cy, w.y, 3e-4, || format!("y of the {} spectrum against its chromaticity", n))?;
        let l = illuminant::xy::cct(t).map_err(|_| format!("cct({}) refused", t))?;
        c.near(cx, l.x, 3e-4, || format!("x of the {} spectrum against the locus", n))?;
        c.near(cy, l.y, 3e-4, || format!("y of the {} spectrum against the locus", n))?;
        // and as the crate sees it
        let one = VSPD::constant(SpdShape::new(360.0, 780.0, 5.0), 1.0).to_xyz(s, &cmf::CIE_1931_2_DEGREE);
        let q: XYY<f64> = one.into();
        c.near(q.x, w.x, 3e-4, || format!("x of white under {}", n))?;
        c.near(q.y, w.y, 3e-4, || format!("y of white under {}", n))?;
        c.near(one.y, 100.0, 1e-9, || format!("Y of white under {}", n))?;
        c.sample(|| format!("{}: spectrum ({}, {}), constant ({}, {}), locus ({}, {})", n, cx, cy, w.x, w.y, l.x, l.y));
        Ok(())
    });
}
