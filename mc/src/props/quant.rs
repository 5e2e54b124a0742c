//! C01, C02: float <-> integer storage.
use crate::core::*;
use colorspace::rgb::*;

/// Is `code` an acceptable quantisation of `x` to `full`?
/// `slack` is half a unit in the last place of the product in the source precision.
fn code_ok(code: u32, x: f64, full: f64, slack: f64) -> bool {
    if x.is_nan() || x <= 0.0 {
        return code == 0;
    }
    if x >= 1.0 {
        return code == full as u32;
    }
    let p = x * full;
    if code as f64 > full {
        return false;
    }
    if p == p.floor() + 0.5 {
        // exact halves round up
        return code as f64 == p + 0.5 || (slack > 0.0 && x != 0.5 && (code as f64 - p).abs() <= 0.5);
    }
    (code as f64 - p).abs() <= 0.5 + slack
}

fn slack32(x: f64, full: f64) -> f64 {
    let p = (x * full) as f32;
    if !(p > 0.0) {
        return 0.0;
    }
    let ulp = f32::from_bits(p.to_bits() + 1) as f64 - p as f64;
    ulp * 0.501
}

fn chk32(c: &mut Case, v: [f32; 3]) -> R {
    let col = rgbf32(v[0], v[1], v[2]);
    let a = RGBu8::from(col);
    let b = RGBu16::from(col);
    let a = [a.r as u32, a.g as u32, a.b as u32];
    let b = [b.r as u32, b.g as u32, b.b as u32];
    for k in 0..3 {
        let x = v[k] as f64;
        // cheap exact test first; fall back to the tolerant one
        let x8 = x * 255.0;
        if !((a[k] as f64 - x8).abs() < 0.4999 && x > 0.0 && x < 1.0) && !code_ok(a[k], x, 255.0, slack32(x, 255.0)) {
            return Err(format!("RGBu8::from({:?}) channel {}: got {} for {:?}", col, k, a[k], v[k]));
        }
        let x16 = x * 65535.0;
        if !((b[k] as f64 - x16).abs() < 0.49 && x > 0.0 && x < 1.0) && !code_ok(b[k], x, 65535.0, slack32(x, 65535.0)) {
            return Err(format!("RGBu16::from({:?}) channel {}: got {} for {:?}", col, k, b[k], v[k]));
        }
    }
    c.steps(6);
    Ok(())
}

fn chk64(c: &mut Case, v: [f64; 3]) -> R {
    let col = rgbf64(v[0], v[1], v[2]);
    let a = RGBu8::from(col);
    let b = RGBu16::from(col);
    let a = [a.r as u32, a.g as u32, a.b as u32];
    let b = [b.r as u32, b.g as u32, b.b as u32];
    for k in 0..3 {
        let sl = |f: f64| {
            let p = (v[k] * f).abs();
            if p.is_finite() { p * 2.3e-16 } else { 0.0 }
        };
        if !code_ok(a[k], v[k], 255.0, sl(255.0)) {
            return Err(format!("RGBu8::from({:?}) channel {}: got {} for {:?}", col, k, a[k], v[k]));
        }
        if !code_ok(b[k], v[k], 65535.0, sl(65535.0)) {
            return Err(format!("RGBu16::from({:?}) channel {}: got {} for {:?}", col, k, b[k], v[k]));
        }
    }
    c.out(a[0] as u64 | (b[1] as u64) << 8 | (b[2] as u64) << 32);
    c.steps(6);
    Ok(())
}

/// f64 values around every decision point of both storage types, plus a lattice
/// of short significands over every exponent, plus specials.
pub fn f64_interesting() -> Vec<f64> {
    let mut v = vec![0.0, -0.0, 1.0, -1.0, 0.5, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN, f64::MIN_POSITIVE, -f64::MIN_POSITIVE, f64::EPSILON, f64::from_bits(1), -f64::from_bits(1)];
    for full in [255u32, 65535] {
        for k in 0..full {
            let t = (k as f64 + 0.5) / full as f64;
            for d in -3i64..=3 {
                v.push(f64::from_bits((t.to_bits() as i64 + d) as u64));
            }
            v.push(k as f64 / full as f64);
        }
    }
    for d in -8i64..=8 {
        v.push(f64::from_bits((1.0f64.to_bits() as i64 + d) as u64));
    }
    for e in -1074..=1023i32 {
        let b = 2f64.powi(e);
        for m in 0..16 {
            let x = b * (1.0 + m as f64 / 16.0);
            v.push(x);
            v.push(-x);
        }
    }
    v
}

pub fn c01(ctx: &Ctx) {
    const BLK: u64 = 1 << 16;
    ctx.scope("f32-all", (1u64 << 32) / BLK, "every f32 bit pattern in every channel, mixed with two other bijective enumerations", |blk, c| {
        c.states = BLK;
        let mut prev: Option<(f32, RGBu8, RGBu16)> = None;
        for j in 0..BLK {
            let i = (blk * BLK + j) as u32;
            let v = [f32::from_bits(i), f32::from_bits(i.wrapping_mul(0x9E37_79B1).wrapping_add(0x3f00_0001)), f32::from_bits(i.rotate_left(11).wrapping_mul(0x85EB_CA6B) ^ 0x3e80_0000)];
            chk32(c, v)?;
            if j % 4096 == 0 {
                c.out(RGBu16::from(rgbf32(v[0], v[1], v[2])).r as u64);
            }
            // adjacent values: order preserved
            if i & 0x7fff_ffff < 0x7f80_0000 && j % 16 == 0 {
                let g = rgbf32(v[0], v[0], v[0]);
                let (a, b) = (RGBu8::from(g), RGBu16::from(g));
                if let Some((px, pa, pb)) = prev {
                    let up = v[0] >= px;
                    let ok = if up { a.r >= pa.r && b.r >= pb.r && a.g >= pa.g && b.b >= pb.b } else { a.r <= pa.r && b.r <= pb.r && a.g <= pa.g && b.b <= pb.b };
                    if !ok {
                        return Err(format!("not monotone between {:?} and {:?}", px, v[0]));
                    }
                }
                prev = Some((v[0], a, b));
            }
        }
        c.sample(|| format!("block of {} bit patterns from {:#010x}", BLK, blk * BLK));
        Ok(())
    });
    let v = f64_interesting();
    let n = v.len();
    ctx.scope("f64-boundaries", n as u64, "all rounding boundaries of both types +-3 ulp, all exponents x 16 significands, specials; 3 rotations", |i, c| {
        let i = i as usize;
        let (a, b, d) = (v[i], v[(i + 1) % n], v[(i * 7 + 3) % n]);
        chk64(c, [a, b, d])?;
        chk64(c, [d, a, b])?;
        chk64(c, [b, d, a])?;
        c.sample(|| format!("{:?}", [a, b, d]));
        Ok(())
    });
    // all channel mixtures of special values
    let s: Vec<f64> = vec![0.0, -0.0, 1.0, 0.5, -1.0, 2.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 0.1, 0.999999, 1.0000001, 1e-30, -1e-30, 255.0, 256.0, 65536.0, 1e10, -1e10, 3.4e38, 1e300];
    let ns = s.len();
    ctx.scope("special-triples", (ns * ns * ns) as u64, "all triples over 21 special values, both precisions", |i, c| {
        let mut m = Mix(i);
        let (a, b, d) = (s[m.pick(ns)], s[m.pick(ns)], s[m.pick(ns)]);
        chk64(c, [a, b, d])?;
        chk32(c, [a as f32, b as f32, d as f32])
    });
    {
    // dense [0,1] interval in all three channels at once (the interesting range)
    let n01 = 0x3f80_0001u64;
    const B2: u64 = 1 << 14;
    ctx.scope("f32-unit-offset", n01 / B2 + 1, "every f32 in [0,1] with its two successors in the other channels", |blk, c| {
        c.states = B2;
        for j in 0..B2 {
            let i = ((blk * B2 + j) % n01) as u32;
            chk32(c, [f32::from_bits(i + 1), f32::from_bits(i), f32::from_bits(i + 2)])?;
        }
        Ok(())
    });
        // f64: every value with a 24-bit significand in [2^-20, 2)
        const B3: u64 = 1 << 14;
        let lo = (2f32.powi(-20)).to_bits() as u64;
        let hi = 2f32.to_bits() as u64;
        ctx.scope("f64-24bit", (hi - lo) / B3, "every f64 with <= 24 significant bits in [2^-20,2), each also nudged by one ulp up and down", |blk, c| {
            c.states = 3 * B3;
            for j in 0..B3 {
                let x = f32::from_bits((lo + blk * B3 + j) as u32) as f64;
                chk64(c, [x, f64::from_bits(x.to_bits() + 1), f64::from_bits(x.to_bits() - 1)])?;
            }
            Ok(())
        });
    }
}

fn rt8(c: &mut Case, k: [u8; 3]) -> R {
    let u = rgbu8(k[0], k[1], k[2]);
    let f = RGBf32::from(u);
    let d = RGBf64::from(u);
    let fs = [f.r, f.g, f.b];
    let ds = [d.r, d.g, d.b];
    for i in 0..3 {
        let want = k[i] as f64 / 255.0;
        let want32 = k[i] as f32 / 255.0;
        if ds[i] != want || fs[i] != want32 || (k[i] == 255 && (ds[i] != 1.0 || fs[i] != 1.0)) || (k[i] == 0 && (ds[i] != 0.0 || fs[i] != 0.0)) {
            return Err(format!("{:?} channel {} expands to {:?} / {:?}, expected {:?}", u, i, fs[i], ds[i], want));
        }
    }
    c.steps(4);
    if RGBu8::from(f) != u || RGBu8::from(d) != u {
        return Err(format!("{:?} does not survive: via f32 {:?}, via f64 {:?}", u, RGBu8::from(f), RGBu8::from(d)));
    }
    // narrowing then storing as well
    if RGBu8::from(RGBf32::from(d)) != u {
        return Err(format!("{:?} does not survive f64 -> f32 -> u8", u));
    }
    Ok(())
}

fn rt16(c: &mut Case, k: [u16; 3]) -> R {
    let u = rgbu16(k[0], k[1], k[2]);
    let f = RGBf32::from(u);
    let d = RGBf64::from(u);
    let fs = [f.r, f.g, f.b];
    let ds = [d.r, d.g, d.b];
    for i in 0..3 {
        let want = k[i] as f64 / 65535.0;
        let want32 = k[i] as f32 / 65535.0;
        if ds[i] != want || fs[i] != want32 || (k[i] == 65535 && (ds[i] != 1.0 || fs[i] != 1.0)) || (k[i] == 0 && (ds[i] != 0.0 || fs[i] != 0.0)) {
            return Err(format!("{:?} channel {} expands to {:?} / {:?}, expected {:?}", u, i, fs[i], ds[i], want));
        }
    }
    c.steps(4);
    if RGBu16::from(f) != u || RGBu16::from(d) != u {
        return Err(format!("{:?} does not survive: via f32 {:?}, via f64 {:?}", u, RGBu16::from(f), RGBu16::from(d)));
    }
    if RGBu16::from(RGBf32::from(d)) != u {
        return Err(format!("{:?} does not survive f64 -> f32 -> u16", u));
    }
    Ok(())
}

pub fn c02(ctx: &Ctx) {
    ctx.scope("u8-all", 1 << 16, "all 2^24 8-bit colours, both precisions", |i, c| {
        c.states = 256;
        for b in 0..256u32 {
            rt8(c, [(i >> 8) as u8, i as u8, b as u8])?;
        }
        c.out(i);
        c.sample(|| format!("r={} g={} b=0..255", i >> 8, i & 255));
        Ok(())
    });
    ctx.scope("u16-all", 1 << 16, "all 2^16 codes in each channel, against 64 companions each", |i, c| {
        c.states = 64;
        for k in 0..64u32 {
            let i = i as u32;
            let o = (k * 1024 + (i % 1024)) as u16;
            rt16(c, [i as u16, o, (i.wrapping_mul(40503) ^ k.wrapping_mul(7919)) as u16])?;
            rt16(c, [o, (i.wrapping_mul(30011) + k) as u16, i as u16])?;
            rt16(c, [(i.wrapping_mul(51407) + k) as u16, i as u16, o])?;
        }
        c.out(i);
        Ok(())
    });
    let nb = ctx.tier(1u64 << 12, 1 << 16);
    ctx.scope("u16-pairs", 65536, "every 16-bit value in one channel x a lattice of other-channel values, equal and complementary channels", |i, c| {
        c.states = nb;
        let step = 65536 / nb;
        for k in 0..nb {
            let (a, o) = (i as u16, (k * step) as u16);
            rt16(c, [a, o, o])?;
            rt16(c, [o, a, 65535 - o])?;
            rt16(c, [o, o, a])?;
        }
        Ok(())
    });
    // narrowing
    ctx.scope("narrow", 1 << 16, "around every 16-bit-prefix f32: the 6 positions within the gap to its successor", |i, c| {
        let mut vals = vec![];
        for low in [0u32, 1, 0x7fff, 0xffff] {
            let a = f32::from_bits((i as u32) << 16 | low);
            if !a.is_finite() || a.to_bits() & 0x7fff_ffff >= 0x7f7f_ffff {
                continue;
            }
            let b = f32::from_bits(a.to_bits() + 1) as f64;
            let a = a as f64;
            let mid = a + (b - a) * 0.5;
            vals.extend([a, a + (b - a) * 0.25, f64::from_bits(mid.to_bits() - 1), mid, f64::from_bits(mid.to_bits() + 1), a + (b - a) * 0.75, b]);
        }
        if vals.is_empty() {
            return c.skip();
        }
        let n = vals.len();
        for k in 0..n {
            let v = [vals[k], vals[(k + 1) % n], vals[(k + 2) % n]];
            let g = RGBf32::from(rgbf64(v[0], v[1], v[2]));
            let gx = colorspace::XYZf32::from(colorspace::XYZf64::new(v[0], v[1], v[2]));
            for (j, (got, gx)) in [(g.r, gx.x), (g.g, gx.y), (g.b, gx.z)].into_iter().enumerate() {
                let want = v[j] as f32;
                c.eq(got.to_bits(), want.to_bits(), || format!("narrowing {:?} channel {}: {:?}", v, j, got))?;
                c.eq(gx.to_bits(), want.to_bits(), || format!("narrowing XYZ {:?} channel {}: {:?}", v, j, gx))?;
            }
        }
        Ok(())
    });
}
