//! C09: batch conversions.
use crate::core::*;
use crate::props::curves::{spaces32, spaces64, Prec};
use colorspace::color_space_rgb::ColorSpaceRGB;
use colorspace::math::Matrix33;
use colorspace::rgb::*;
use colorspace::transform::*;
use colorspace::xyz::XYZ;

/// Destination elements: what can be written to, how to mark and compare them.
pub trait Dest: Clone + Send {
    fn sentinel() -> Self;
    fn same_bits(&self, o: &Self) -> bool;
    /// agrees with the element converted alone (`tol` relative to unit scale)
    fn agrees(&self, alone: &Self, tol: f64) -> bool;
    fn show(&self) -> String;
}
fn fclose(a: f64, b: f64, tol: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan()) || (a - b).abs() <= tol * (1.0 + a.abs().max(b.abs()))
}
macro_rules! dest_float {
    ($t:ty, $f:ty, $s:expr) => {
        impl Dest for $t {
            fn sentinel() -> Self {
                <$t>::new($s, $s, $s)
            }
            fn same_bits(&self, o: &Self) -> bool {
                self.r.to_bits() == o.r.to_bits() && self.g.to_bits() == o.g.to_bits() && self.b.to_bits() == o.b.to_bits()
            }
            fn agrees(&self, o: &Self, tol: f64) -> bool {
                fclose(self.r as f64, o.r as f64, tol) && fclose(self.g as f64, o.g as f64, tol) && fclose(self.b as f64, o.b as f64, tol)
            }
            fn show(&self) -> String {
                format!("({:?},{:?},{:?})", self.r, self.g, self.b)
            }
        }
    };
}
dest_float!(RGBf32, f32, f32::from_bits(0x7fc1_2345));
dest_float!(RGBf64, f64, f64::from_bits(0x7ff8_1234_5678_9abc));
macro_rules! dest_int {
    ($t:ty) => {
        impl Dest for $t {
            fn sentinel() -> Self {
                <$t>::from(RGBf64::new(0.2345, 0.777, 0.0123))
            }
            fn same_bits(&self, o: &Self) -> bool {
                self.r == o.r && self.g == o.g && self.b == o.b
            }
            // the colours used are not on rounding boundaries, but leave room for one code
            fn agrees(&self, o: &Self, _tol: f64) -> bool {
                let d = |a: i64, b: i64| (a - b).abs();
                d(self.r as i64, o.r as i64) + d(self.g as i64, o.g as i64) + d(self.b as i64, o.b as i64) <= 1
            }
            fn show(&self) -> String {
                format!("({},{},{})", self.r, self.g, self.b)
            }
        }
    };
}
dest_int!(RGBu8);
dest_int!(RGBu16);

/// Element k of the generated inputs: three unrelated low-discrepancy channels,
/// with every 7th element out of range and every 11th a repeat of its predecessor.
fn elem(k: usize) -> [f64; 3] {
    let k = if k % 11 == 10 { k - 1 } else { k };
    let f = |a: f64| ((k as f64 + 1.0) * a).fract();
    let v = [f(0.618033988), f(0.414213562), f(0.732050807)];
    match k % 7 {
        5 => [v[0] * 3.0, -0.002 * v[1], v[2]],
        6 => [v[0], v[1] * 2.0, v[2] * 0.001],
        _ => v,
    }
}
fn rgb<T: Prec>(v: [f64; 3]) -> RGBf<T> {
    RGBf::<T>::new(T::of(v[0]), T::of(v[1]), T::of(v[2]))
}

fn run_pair<T: Prec, U: Dest + From<RGBf<T>>>(c: &mut Case, sa: &ColorSpaceRGB<T>, sb: &ColorSpaceRGB<T>, from: &[RGBf<T>], to_len: usize, alone: &dyn Fn(usize) -> U, what: &dyn Fn() -> String) -> R {
    let mut to: Vec<U> = vec![U::sentinel(); to_len];
    let n = from.len().min(to_len);
    let got = rgb_to_rgb(sa, sb, from, &mut to[..]);
    c.eq(got, n, || format!("{}: returned count", what()))?;
    for k in 0..n {
        let w = alone(k);
        if !to[k].agrees(&w, T::EPS * 16.0) {
            return Err(format!("{}: element {} is {}, alone it converts to {}", what(), k, to[k].show(), w.show()));
        }
    }
    c.steps(n as u64);
    for k in n..to_len {
        if !to[k].same_bits(&U::sentinel()) {
            return Err(format!("{}: output element {} beyond the input was overwritten with {}", what(), k, to[k].show()));
        }
    }
    Ok(())
}
fn alone<T: Prec, U: Dest + From<RGBf<T>>>(sa: &ColorSpaceRGB<T>, sb: &ColorSpaceRGB<T>, v: RGBf<T>) -> U {
    let mut one = [U::sentinel()];
    rgb_to_rgb(sa, sb, &[v], &mut one);
    one[0].clone()
}

fn lengths<T: Prec, U: Dest + From<RGBf<T>> + Sync>(ctx: &Ctx, name: &str, sa: &'static ColorSpaceRGB<T>, sb: &'static ColorSpaceRGB<T>, nmax: usize)
where
    RGBf<T>: Sync,
{
    let ins: Vec<RGBf<T>> = (0..nmax).map(|k| rgb::<T>(elem(k))).collect();
    let outs: Vec<U> = ins.iter().map(|v| alone::<T, U>(sa, sb, *v)).collect();
    let m = nmax as u64 + 1;
    ctx.scope(name, m * m, "every (input length, output length) pair", |i, c| {
        let (nf, nt) = ((i % m) as usize, (i / m) as usize);
        run_pair::<T, U>(c, sa, sb, &ins[..nf], nt, &|k| outs[k].clone(), &|| format!("{} input length {} output length {}", name, nf, nt))?;
        c.out(mix(nf as u64, nt as u64));
        Ok(())
    });
}

fn sequences<T: Prec, U: Dest + From<RGBf<T>> + Sync>(ctx: &Ctx, name: &str, sa: &'static ColorSpaceRGB<T>, sb: &'static ColorSpaceRGB<T>, depth: u32)
where
    RGBf<T>: Sync,
{
    // colours that share channels, are zero, differ by an ulp or exceed the range
    let al: Vec<[f64; 3]> = vec![
        [0.31, 0.52, 0.73],
        [0.31, 0.52, 0.1],
        [0.31, 0.9, 0.73],
        [0.05, 0.52, 0.73],
        [0.73, 0.31, 0.52],
        [0.0, 0.0, 0.0],
        [0.31, 0.52, 0.73 + 1.0e-4],
        [1.6, -0.01, 0.52],
    ];
    let n = al.len();
    let vals: Vec<RGBf<T>> = al.iter().map(|v| rgb::<T>(*v)).collect();
    let outs: Vec<U> = vals.iter().map(|v| alone::<T, U>(sa, sb, *v)).collect();
    ctx.scope(name, (n as u64).pow(depth), "every sequence of the stated length over 8 near-colliding colours", |i, c| {
        let mut m = Mix(i);
        let idx: Vec<usize> = (0..depth).map(|_| m.pick(n)).collect();
        let from: Vec<RGBf<T>> = idx.iter().map(|k| vals[*k]).collect();
        run_pair::<T, U>(c, sa, sb, &from, from.len(), &|k| outs[idx[k]].clone(), &|| format!("{} colours {:?}", name, idx.iter().map(|k| al[*k]).collect::<Vec<_>>()))
    });
}

/// Colours on a grid that contains every pattern of equal channels, so that whatever a
/// conversion carries from one element to the next is exposed by some neighbour.
fn grid(vals: &[f64]) -> Vec<[f64; 3]> {
    let n = vals.len();
    (0..n * n * n).map(|i| [vals[i % n], vals[i / n % n], vals[i / n / n]]).collect()
}
const TRI: [f64; 3] = [0.0, 0.5, 1.0];
/// Values that cancel in pairs and triples.
const SYM: [f64; 13] = [-2.0, -1.0, -0.5, -0.25, -0.04, 0.0, 0.04, 0.25, 0.5, 0.75, 1.0, 2.0, 65504.0];
const SEPT: [f64; 7] = [-0.25, 0.0, 0.04, 0.5, 0.5001, 1.0, 1.5];

/// Every ordered pair over the 343-colour grid and every ordered triple over the 27-colour grid.
fn neighbours<T: Prec, U: Dest + From<RGBf<T>> + Sync>(ctx: &Ctx, name: &str, sa: &'static ColorSpaceRGB<T>, sb: &'static ColorSpaceRGB<T>)
where
    RGBf<T>: Sync,
{
    for (al, len) in [(grid(&SYM), 1u32), (grid(&SEPT), 2), (grid(&TRI), 3)] {
        let n = al.len();
        let vals: Vec<RGBf<T>> = al.iter().map(|v| rgb::<T>(*v)).collect();
        let outs: Vec<U> = vals.iter().map(|v| alone::<T, U>(sa, sb, *v)).collect();
        ctx.scope(&format!("{} {}-sequences", name, len), (n as u64).pow(len), "every sequence of the stated length over a grid of colours with every pattern of equal channels", |i, c| {
            let mut m = Mix(i);
            let idx: Vec<usize> = (0..len).map(|_| m.pick(n)).collect();
            let from: Vec<RGBf<T>> = idx.iter().map(|k| vals[*k]).collect();
            if len == 1 {
                // the single conversion, step by step
                let w: U = sb.encode(rgb_to_rgb_matrix(sa, sb) * sa.decode(from[0])).into();
                let size = al[idx[0]].iter().fold(1.0f64, |m, v| m.max(v.abs()));
                if !outs[idx[0]].agrees(&w, T::EPS * 64.0 * size * size) {
                    return Err(format!("{}: colour {:?} becomes {}, decoded, transformed and encoded it is {}", name, al[idx[0]], outs[idx[0]].show(), w.show()));
                }
            }
            run_pair::<T, U>(c, sa, sb, &from, from.len(), &|k| outs[idx[k]].clone(), &|| format!("{} colours {:?}", name, idx.iter().map(|k| al[*k]).collect::<Vec<_>>()))
        });
    }
}

fn xyz_slices<T: Prec>(ctx: &Ctx, name: &str, nmax: usize, mats: Vec<Matrix33<T>>, depth: u32)
where
    Matrix33<T>: Sync,
{
    let xyz = |v: [f64; 3]| XYZ::<T>::new(T::of(v[0] * 95.0), T::of(v[1] * 100.0), T::of(v[2] * 108.0));
    let cmp = |c: &mut Case, got: &[RGBf<T>], want: &[XYZ<T>], m: &Matrix33<T>, what: &dyn Fn() -> String| -> R {
        c.eq(got.len(), want.len(), || format!("{}: result length", what()))?;
        for (k, x) in want.iter().enumerate() {
            let w = xyz_to_rgb(m, *x);
            let (g, w): ([f64; 3], [f64; 3]) = ([got[k].r.into(), got[k].g.into(), got[k].b.into()], [w.r.into(), w.g.into(), w.b.into()]);
            for ch in 0..3 {
                if !fclose(g[ch], w[ch], T::EPS * 16.0) {
                    return Err(format!("{}: element {} channel {} is {:?}, alone {:?}", what(), k, ch, g[ch], w[ch]));
                }
            }
        }
        c.steps(want.len() as u64);
        Ok(())
    };
    let nm = mats.len();
    ctx.scope(&format!("{}-lengths", name), ((nmax + 1) * nm) as u64, "every slice length x matrix", |i, c| {
        let mut m = Mix(i);
        let (mi, n) = (m.pick(nm), m.pick(nmax + 1));
        let xs: Vec<XYZ<T>> = (0..n).map(|k| xyz(elem(k))).collect();
        let got = xyz_slice_to_rgb(&mats[mi], &xs);
        cmp(c, &got, &xs, &mats[mi], &|| format!("{} length {}", name, n))
    });
    let al = [[0.3, 0.5, 0.7], [0.3, 0.5, 0.1], [0.3, 0.9, 0.7], [0.05, 0.5, 0.7], [0.0, 0.0, 0.0], [0.7, 0.3, 0.5]];
    ctx.scope(&format!("{}-sequences", name), 6u64.pow(depth), "every sequence of the stated length over 6 near-colliding colours", |i, c| {
        let mut m = Mix(i);
        let xs: Vec<XYZ<T>> = (0..depth).map(|_| xyz(al[m.pick(6)])).collect();
        let got = xyz_slice_to_rgb(&mats[0], &xs);
        cmp(c, &got, &xs, &mats[0], &|| format!("{} sequence {}", name, i))
    });
    for (al, len) in [(grid(&SYM), 1u32), (grid(&SEPT), 2), (grid(&TRI), 3)] {
        let n = al.len();
        ctx.scope(&format!("{}-{}-sequences", name, len), (n as u64).pow(len), "every sequence of the stated length over a grid of colours with every pattern of equal components", |i, c| {
            let mut m = Mix(i);
            let v: Vec<[f64; 3]> = (0..len).map(|_| al[m.pick(n)]).collect();
            let xs: Vec<XYZ<T>> = v.iter().map(|v| XYZ::<T>::new(T::of(v[0] * 100.0), T::of(v[1] * 100.0), T::of(v[2] * 100.0))).collect();
            let got = xyz_slice_to_rgb(&mats[0], &xs);
            cmp(c, &got, &xs, &mats[0], &|| format!("{} colours {:?}", name, v))
        });
    }
}

#[cfg(all(target_arch = "x86_64", target_feature = "avx"))]
fn planes(ctx: &Ctx) {
    use colorspace::math::M3f32;
    use simdeez::avx2::Avx2;
    use simdeez::sse2::Sse2;
    let mats: Vec<M3f32> = vec![
        Matrix33::new([3.2406, -1.5372, -0.4986, -0.9689, 1.8758, 0.0415, 0.0557, -0.2040, 1.0570]),
        Matrix33::new([1.0, 2.0, 4.0, 8.0, 16.0, 32.0, 64.0, 128.0, 256.0]),
        Matrix33::new([0.0, 0.0, 1.0, 1.0, 0.0, 0.0, 0.0, 1.0, 0.0]),
    ];
    fn one<S: simdeez::Simd>(c: &mut Case, mt: &M3f32, n: usize, off: [usize; 3], tag: &str) -> R {
        let mk = |ch: usize, o: usize| -> Vec<f32> { (0..n + o).map(|k| if k < o { f32::NAN } else { (elem(k - o)[ch] * 100.0) as f32 }).collect() };
        let (x, y, z) = (mk(0, off[0]), mk(1, off[1]), mk(2, off[2]));
        let (r, g, b) = xyz_slice_to_rgb_avx_planes::<S>(mt, &x[off[0]..], &y[off[1]..], &z[off[2]..]);
        c.eq((r.len(), g.len(), b.len()), (n, n, n), || format!("{} planes of {}: result lengths", tag, n))?;
        for k in 0..n {
            let w = xyz_to_rgb(mt, XYZ::<f32>::new(x[off[0] + k], y[off[1] + k], z[off[2] + k]));
            for (ch, (got, want)) in [(r[k], w.r), (g[k], w.g), (b[k], w.b)].into_iter().enumerate() {
                let scale: f64 = (0..3).map(|j| (mt.x[ch * 3 + j] as f64 * [x[off[0] + k], y[off[1] + k], z[off[2] + k]][j] as f64 / 100.0).abs()).sum();
                if !((got as f64 - want as f64).abs() <= 16.0 * f32::EPSILON as f64 * scale + 1e-30) {
                    return Err(format!("{} planes of {} (offsets {:?}): element {} channel {} is {:?}, alone {:?}", tag, n, off, k, ch, got, want));
                }
            }
        }
        c.steps(3 * n as u64);
        Ok(())
    }
    let nmax = ctx.tier(1100, 4200);
    ctx.scope("planes-lengths", (nmax + 1) * 3 * 8, "AVX2 planes: every length x 3 matrices x 8 slice alignments", |i, c| {
        let mut m = Mix(i);
        let (mi, o, n) = (m.pick(3), m.pick(8), m.pick(nmax as usize + 1));
        one::<Avx2>(c, &mats[mi], n, [o, (o * 3) % 8, (o * 5) % 8], "AVX2")?;
        if n < 80 {
            one::<Sse2>(c, &mats[mi], n, [o, (o * 3) % 8, (o * 5) % 8], "SSE2")?;
        }
        Ok(())
    });
    let big: Vec<usize> = (8..ctx.tier(21, 23)).flat_map(|p| [(1usize << p) - 1, 1 << p, (1 << p) + 1, (1 << p) + 7]).collect();
    ctx.scope("planes-large", big.len() as u64, "AVX2 planes around powers of two", |i, c| one::<Avx2>(c, &mats[0], big[i as usize], [0, 0, 0], "AVX2"));
    let q = ctx.tier(26u64, 70);
    ctx.scope("planes-mismatch", q * q * q, "every combination of plane lengths: unequal ones are refused", |i, c| {
        let mut m = Mix(i);
        let l = [m.pick(q as usize), m.pick(q as usize), m.pick(q as usize)];
        let (x, y, z) = (vec![1.0f32; l[0]], vec![2.0f32; l[1]], vec![3.0f32; l[2]]);
        if l[0] == l[1] && l[1] == l[2] {
            let r = xyz_slice_to_rgb_avx_planes::<Avx2>(&mats[0], &x, &y, &z);
            return c.eq((r.0.len(), r.1.len(), r.2.len()), (l[0], l[0], l[0]), || "lengths".into());
        }
        c.refused(|| xyz_slice_to_rgb_avx_planes::<Avx2>(&mats[0], &x, &y, &z), || format!("plane lengths {:?}", l))
    });
}

pub fn c09(ctx: &Ctx) {
    ctx.assume("an element converted alone is the single-element call; its value is decided by C03/C04/C08");
    #[cfg(all(target_arch = "x86_64", target_feature = "avx"))]
    planes(ctx);
    let (s64, s32) = (spaces64(), spaces32());
    let f64s = |n: &str| s64.iter().find(|s| s.0 == n).unwrap().1;
    let f32s = |n: &str| s32.iter().find(|s| s.0 == n).unwrap().1;
    let nm = ctx.tier(300, 1100);
    lengths::<f32, RGBf32>(ctx, "f32->f32", f32s("SRGB"), f32s("ACES_CG"), nm);
    lengths::<f32, RGBu8>(ctx, "f32->u8", f32s("ACES"), f32s("SRGB"), nm);
    lengths::<f32, RGBu16>(ctx, "f32->u16", f32s("ITUR_BT2020"), f32s("SRGB"), nm);
    lengths::<f64, RGBf64>(ctx, "f64->f64", f64s("SRGB"), f64s("ACES"), nm);
    lengths::<f64, RGBf32>(ctx, "f64->f32", f64s("SRGB"), f64s("ITUR_BT709"), nm);
    lengths::<f64, RGBu8>(ctx, "f64->u8", f64s("ACES_CG"), f64s("SRGB"), nm);
    lengths::<f64, RGBu16>(ctx, "f64->u16", f64s("ACES_CG"), f64s("SRGB"), nm);
    let d = ctx.tier(6, 7);
    sequences::<f32, RGBf32>(ctx, "seq f32->f32", f32s("SRGB"), f32s("SRGB"), d);
    sequences::<f32, RGBu8>(ctx, "seq f32->u8", f32s("ACES"), f32s("SRGB"), d);
    sequences::<f64, RGBf64>(ctx, "seq f64->f64", f64s("SRGB"), f64s("ALEXA_WIDE_GAMUT"), d);
    sequences::<f64, RGBu16>(ctx, "seq f64->u16", f64s("SRGB"), f64s("SRGB"), d);
    neighbours::<f64, RGBf64>(ctx, "grid f64->f64", f64s("SRGB"), f64s("ACES_CG"));
    neighbours::<f32, RGBf32>(ctx, "grid f32->f32", f32s("ITUR_BT709"), f32s("ACES"));
    neighbours::<f32, RGBu8>(ctx, "grid f32->u8", f32s("ACES_CG"), f32s("SRGB"));
    neighbours::<f64, RGBu16>(ctx, "grid f64->u16", f64s("SRGB"), f64s("SRGB"));
    neighbours::<f64, RGBf64>(ctx, "grid linear f64->f64", f64s("ACES"), f64s("ACES_CG"));
    // every ordered pair of spaces at every small length
    let k = s64.len();
    let lm = ctx.tier(64, 260);
    ctx.scope("pairs-f64", (k * k * (lm + 1)) as u64, "every ordered pair of f64 spaces x every length", |i, c| {
        let mut m = Mix(i);
        let (a, b, n) = (m.pick(k), m.pick(k), m.pick(lm + 1));
        let (sa, sb) = (s64[a].1, s64[b].1);
        let from: Vec<RGBf64> = (0..n).map(|q| rgb::<f64>(elem(q + 3))).collect();
        run_pair::<f64, RGBf64>(c, sa, sb, &from, n, &|q| alone(sa, sb, from[q]), &|| format!("{} -> {} length {}", s64[a].0, s64[b].0, n))
    });
    let k = s32.len();
    ctx.scope("pairs-f32", (k * k * (lm + 1)) as u64, "every ordered pair of f32 spaces x every length", |i, c| {
        let mut m = Mix(i);
        let (a, b, n) = (m.pick(k), m.pick(k), m.pick(lm + 1));
        let (sa, sb) = (s32[a].1, s32[b].1);
        let from: Vec<RGBf32> = (0..n).map(|q| rgb::<f32>(elem(q + 3))).collect();
        run_pair::<f32, RGBf32>(c, sa, sb, &from, n, &|q| alone(sa, sb, from[q]), &|| format!("{} -> {} length {}", s32[a].0, s32[b].0, n))
    });
    // chunk boundaries
    let big: Vec<usize> = (7..ctx.tier(21, 23)).flat_map(|p| [(1usize << p) - 1, 1 << p, (1 << p) + 1]).collect();
    ctx.scope("large", big.len() as u64 * 3, "lengths around powers of two: equal, shorter and longer output", |i, c| {
        let mut m = Mix(i);
        let (o, n) = (m.pick(3), *m.of(&big));
        let nt = [n, n - n / 3, n + 5][o];
        let (sa, sb) = (f32s("SRGB"), f32s("ITUR_BT2020"));
        let from: Vec<RGBf32> = (0..n).map(|q| rgb::<f32>(elem(q))).collect();
        run_pair::<f32, RGBf32>(c, sa, sb, &from, nt, &|q| alone(sa, sb, from[q]), &|| format!("length {} into {}", n, nt))?;
        let xs: Vec<XYZ<f64>> = (0..n).map(|q| { let v = elem(q); XYZ::new(v[0] * 90.0, v[1] * 100.0, v[2] * 110.0) }).collect();
        let m64 = &f64s("SRGB").xf_xyz_to_rgb;
        let got = xyz_slice_to_rgb(m64, &xs);
        c.eq(got.len(), n, || "xyz slice length".into())?;
        for q in 0..n {
            let w = xyz_to_rgb(m64, xs[q]);
            if !got[q].agrees(&w, 1e-14) {
                return Err(format!("xyz slice of {}: element {} is {}, alone {}", n, q, got[q], w));
            }
        }
        Ok(())
    });
    let depth = ctx.tier(7, 9);
    xyz_slices::<f64>(ctx, "xyz-f64", ctx.tier(3000, 9000), s64.iter().map(|s| s.1.xf_xyz_to_rgb).collect(), depth);
    xyz_slices::<f32>(ctx, "xyz-f32", ctx.tier(3000, 9000), s32.iter().map(|s| s.1.xf_xyz_to_rgb).collect(), depth);
}
