//! C21: colour arithmetic is component-wise.
use crate::core::*;
use crate::props::curves::Prec;
use colorspace::math::{Bounded, Float, One, Zero};
use colorspace::rgb::*;
use colorspace::xyz::*;
use float_cmp::{ApproxEq, F32Margin, F64Margin};

type A<T> = [T; 3];

fn r<T: Prec>(a: A<T>) -> RGBf<T> {
    RGBf::new(a[0], a[1], a[2])
}
fn ur<T: Prec>(c: RGBf<T>) -> A<T> {
    [c.r, c.g, c.b]
}
fn x<T: Prec>(a: A<T>) -> XYZ<T> {
    XYZ::new(a[0], a[1], a[2])
}
fn ux<T: Prec>(c: XYZ<T>) -> A<T> {
    [c.x, c.y, c.z]
}

struct Bin<T>(&'static str, fn(A<T>, A<T>) -> A<T>, fn(T, T) -> T);
struct Sca<T>(&'static str, fn(A<T>, T) -> A<T>, fn(T, T) -> T);
struct Una<T>(&'static str, fn(A<T>) -> A<T>, fn(T) -> T);

struct Ops<T> {
    bits: u32,
    bin: Vec<Bin<T>>,
    sca: Vec<Sca<T>>,
    una: Vec<Una<T>>,
}

fn ops<T: Prec>(bits: u32) -> Ops<T> {
    let bin = vec![
        Bin::<T>("rgb + rgb", |a, b| ur(r(a) + r(b)), |a, b| a + b),
        Bin("rgb - rgb", |a, b| ur(r(a) - r(b)), |a, b| a - b),
        Bin("rgb * rgb", |a, b| ur(r(a) * r(b)), |a, b| a * b),
        Bin("rgb / rgb", |a, b| ur(r(a) / r(b)), |a, b| a / b),
        Bin(
            "rgb += rgb",
            |a, b| {
                let mut c = r(a);
                c += r(b);
                ur(c)
            },
            |a, b| a + b,
        ),
        Bin("xyz + xyz", |a, b| ux(x(a) + x(b)), |a, b| a + b),
        Bin("xyz - xyz", |a, b| ux(x(a) - x(b)), |a, b| a - b),
        Bin("xyz * xyz", |a, b| ux(x(a) * x(b)), |a, b| a * b),
        Bin("xyz / xyz", |a, b| ux(x(a) / x(b)), |a, b| a / b),
        Bin(
            "xyz += xyz",
            |a, b| {
                let mut c = x(a);
                c += x(b);
                ux(c)
            },
            |a, b| a + b,
        ),
    ];
    let sca = vec![
        Sca::<T>("rgb + scalar", |a, s| ur(r(a) + s), |a, s| a + s),
        Sca("rgb - scalar", |a, s| ur(r(a) - s), |a, s| a - s),
        Sca("rgb * scalar", |a, s| ur(r(a) * s), |a, s| a * s),
        Sca("rgb / scalar", |a, s| ur(r(a) / s), |a, s| a / s),
        Sca("xyz + scalar", |a, s| ux(x(a) + s), |a, s| a + s),
        Sca("xyz - scalar", |a, s| ux(x(a) - s), |a, s| a - s),
        Sca("xyz * scalar", |a, s| ux(x(a) * s), |a, s| a * s),
        Sca("xyz / scalar", |a, s| ux(x(a) / s), |a, s| a / s),
        Sca("rgb powf", |a, s| ur(r(a).powf(s)), |a, s| Float::powf(a, s)),
    ];
    let una = vec![
        Una::<T>("-rgb", |a| ur(-r(a)), |a| -a),
        Una("-xyz", |a| ux(-x(a)), |a| -a),
        Una("rgb abs", |a| ur(r(a).abs()), |a| Float::abs(a)),
        Una("xyz abs", |a| ux(x(a).abs()), |a| Float::abs(a)),
        Una("rgbf", |a| ur(rgbf(a[0], a[1], a[2])), |a| a),
        Una("xyz", |a| ux(xyz(a[0], a[1], a[2])), |a| a),
        Una("rgb from_scalar, component by component", |a| [r(a), RGBf::from_scalar(a[1]), RGBf::from_scalar(a[2])].map(|c| c.r), |a| a),
        Una("rgb from_scalar g", |a| [a[0], RGBf::from_scalar(a[1]).g, RGBf::from_scalar(a[2]).g], |a| a),
        Una("rgb from_scalar b", |a| [RGBf::from_scalar(a[0]).b, RGBf::from_scalar(a[1]).b, RGBf::from_scalar(a[2]).b], |a| a),
        Una("xyz from_scalar x", |a| [XYZ::from_scalar(a[0]).x, XYZ::from_scalar(a[1]).x, XYZ::from_scalar(a[2]).x], |a| a),
        Una("xyz from_scalar y", |a| [XYZ::from_scalar(a[0]).y, XYZ::from_scalar(a[1]).y, XYZ::from_scalar(a[2]).y], |a| a),
        Una("xyz from_scalar z", |a| [XYZ::from_scalar(a[0]).z, XYZ::from_scalar(a[1]).z, XYZ::from_scalar(a[2]).z], |a| a),
        Una("rgb index", |a| [r(a)[0], r(a)[1], r(a)[2]], |a| a),
        Una("xyz index", |a| [x(a)[0], x(a)[1], x(a)[2]], |a| a),
        Una(
            "rgb index_mut",
            |a| {
                let mut c = r([T::of(9.0); 3]);
                for k in [2, 0, 1] {
                    c[k] = a[k];
                }
                ur(c)
            },
            |a| a,
        ),
        Una(
            "xyz index_mut",
            |a| {
                let mut c = x([T::of(9.0); 3]);
                for k in [2, 0, 1] {
                    c[k] = a[k];
                }
                ux(c)
            },
            |a| a,
        ),
        Una("rgb index_mut one at a time", |a| one_at_a_time(a), |a| a),
        Una("xyz index_mut one at a time", |a| one_at_a_time_x(a), |a| a),
    ];
    Ops { bits, bin, sca, una }
}

/// Write each component alone into a colour; every other component must stay.
fn one_at_a_time<T: Prec>(a: A<T>) -> A<T> {
    let mut out = [T::of(0.0); 3];
    for k in 0..3 {
        let mut c = r([T::of(5.0), T::of(6.0), T::of(7.0)]);
        c[k] = a[k];
        let v = ur(c);
        for j in 0..3 {
            assert!(j == k || v[j] == T::of(5.0 + j as f64), "writing component {} changed component {}", k, j);
        }
        out[k] = v[k];
    }
    out
}
fn one_at_a_time_x<T: Prec>(a: A<T>) -> A<T> {
    let mut out = [T::of(0.0); 3];
    for k in 0..3 {
        let mut c = x([T::of(5.0), T::of(6.0), T::of(7.0)]);
        c[k] = a[k];
        let v = ux(c);
        for j in 0..3 {
            assert!(j == k || v[j] == T::of(5.0 + j as f64), "writing component {} changed component {}", k, j);
        }
        out[k] = v[k];
    }
    out
}

/// equal as numbers, or both not a number
fn same<T: Prec>(a: T, b: T) -> bool {
    a == b || (a != a && b != b)
}

fn judge<T: Prec>(c: &mut Case, got: A<T>, want: A<T>, what: &dyn Fn() -> String) -> R {
    for k in 0..3 {
        c.ensure(same(got[k], want[k]), || format!("{}: component {} is {:?}, expected {:?}", what(), k, Into::<f64>::into(got[k]), Into::<f64>::into(want[k])))?;
        c.outf(got[k].into());
    }
    if c.want_sample && c.sample.is_none() {
        c.sample = Some(what());
    }
    Ok(())
}

fn show<T: Prec>(a: A<T>) -> [f64; 3] {
    a.map(|v| v.into())
}

fn values<T: Prec>() -> Vec<T> {
    let one = T::of(1.0);
    let e = T::epsilon();
    vec![
        T::of(0.0),
        T::of(-0.0),
        one,
        -one,
        T::of(0.5),
        T::of(0.1),
        T::of(-0.3),
        T::of(2.0),
        T::of(3.0),
        T::of(-7.25),
        one + e,
        one - e,
        T::of(100.0),
        T::of(1e6),
        T::of(-1e20),
        T::of(1e-20),
        T::of(0.18),
        T::of(255.0),
        <T as Float>::min_positive_value(),
        <T as Float>::min_positive_value() / T::of(8.0),
        <T as Float>::max_value(),
        <T as Float>::min_value(),
        T::infinity(),
        T::neg_infinity(),
        T::nan(),
    ]
}

fn explore<T: Prec>(ctx: &Ctx, o: &Ops<T>) {
    let b = o.bits;
    let vs = values::<T>();
    let n = vs.len() as u64;
    let rest: [A<T>; 3] = [[T::of(1.5), T::of(-2.25), T::of(0.375)], [T::of(0.0), T::of(1.0), T::of(1.0)], [T::of(-8.0), T::of(0.125), T::of(64.0)]];
    ctx.scope(&format!("binary-{}", b), n * n * 3 * 3, "every pair of 25 values incl. specials in every channel among other values, every operator", |i, c| {
        let mut m = Mix(i);
        let (p, q, ch, bg) = (*m.of(&vs), *m.of(&vs), m.pick(3), m.pick(3));
        let (mut u, mut v) = (rest[bg], rest[(bg + 1) % 3]);
        u[ch] = p;
        v[ch] = q;
        for op in &o.bin {
            let want = [op.2(u[0], v[0]), op.2(u[1], v[1]), op.2(u[2], v[2])];
            judge(c, op.1(u, v), want, &|| format!("{}-bit {} of {:?} and {:?}", b, op.0, show(u), show(v)))?;
        }
        for op in &o.sca {
            let want = [op.2(u[0], q), op.2(u[1], q), op.2(u[2], q)];
            judge(c, op.1(u, q), want, &|| format!("{}-bit {} of {:?} and {:?}", b, op.0, show(u), Into::<f64>::into(q)))?;
        }
        Ok(())
    });
    let k = ctx.tier(9u64, 12);
    let small: Vec<T> = [1.0, -2.0, 0.0, 0.5, 3.0, 1e3, -0.25, 7.0, 1e-3, -3.0, 65504.0, 0.1].iter().map(|v| T::of(*v)).collect();
    ctx.scope(&format!("binary-joint-{}", b), k.pow(6), "every combination of all six components over a small alphabet, every operator", |i, c| {
        let mut m = Mix(i);
        let s = &small[..k as usize];
        let mut g = || *m.of(s);
        let u = [g(), g(), g()];
        let v = [g(), g(), g()];
        for op in &o.bin {
            let want = [op.2(u[0], v[0]), op.2(u[1], v[1]), op.2(u[2], v[2])];
            judge(c, op.1(u, v), want, &|| format!("{}-bit {} of {:?} and {:?}", b, op.0, show(u), show(v)))?;
        }
        Ok(())
    });
    ctx.scope(&format!("unary-{}", b), n.pow(3), "every triple of 25 values incl. specials: unary operators, constructors, indexing", |i, c| {
        let mut m = Mix(i);
        let u = [*m.of(&vs), *m.of(&vs), *m.of(&vs)];
        for op in &o.una {
            let want = u.map(|v| op.2(v));
            judge(c, op.1(u), want, &|| format!("{}-bit {} of {:?}", b, op.0, show(u)))?;
        }
        let z = u.map(|v| v == T::of(0.0));
        c.eq(r(u).is_zero(), z[0] && z[1] && z[2], || format!("rgb is_zero of {:?}", show(u)))?;
        c.eq(x(u).is_zero(), z[0] && z[1] && z[2], || format!("xyz is_zero of {:?}", show(u)))?;
        if u.iter().all(|v| *v == *v) {
            // largest component, normalisation, clamping
            let mx = u.iter().fold(u[0], |m, v| if *v > m { *v } else { m });
            let g = hmax(r(u));
            c.ensure(same(g, mx), || format!("{}-bit hmax of {:?}: {:?}", b, show(u), Into::<f64>::into(g)))?;
            if mx != T::of(0.0) && Float::is_finite(mx) {
                let nz = normalize(r(u));
                for k in 0..3 {
                    let (got, want): (f64, f64) = (ur(nz)[k].into(), (u[k] / mx).into());
                    let ok = same(got, want) || (got - want).abs() <= 2.0 * T::EPS * want.abs() + T::TINY * T::EPS;
                    c.ensure(ok || mx.into().abs() < T::TINY, || format!("{}-bit normalize of {:?}: component {} is {:?}", b, show(u), k, got))?;
                }
            }
            for (lo, hi) in [(0.0, 1.0), (-1.0, 0.5), (0.25, 0.25), (-1e30, 2.0)] {
                let (lo, hi) = (T::of(lo), T::of(hi));
                let want = u.map(|v| if v < lo { lo } else if v > hi { hi } else { v });
                judge(c, ur(clamprgb(r(u), lo, hi)), want, &|| format!("{}-bit clamp of {:?} to [{:?},{:?}]", b, show(u), Into::<f64>::into(lo), Into::<f64>::into(hi)))?;
            }
        }
        Ok(())
    });
    ctx.scope(&format!("index-out-of-range-{}", b), 70, "indices beyond the third component are refused", |i, c| {
        let k = if i < 64 { 3 + i as usize } else { [usize::MAX, usize::MAX / 2, 1 << 32, (1 << 32) + 1, 256, 257][i as usize - 64] };
        let u = [T::of(1.0), T::of(2.0), T::of(3.0)];
        c.refused(|| r(u)[k], || format!("rgb[{}]", k))?;
        c.refused(|| x(u)[k], || format!("xyz[{}]", k))?;
        c.refused(
            || {
                let mut v = r(u);
                v[k] = T::of(0.0);
            },
            || format!("rgb[{}] = ", k),
        )?;
        c.refused(
            || {
                let mut v = x(u);
                v[k] = T::of(0.0);
            },
            || format!("xyz[{}] = ", k),
        )
    });
    ctx.scope(&format!("constants-{}", b), 1, "zero, one, smallest and largest colours", |_, c| {
        judge(c, ur(RGBf::<T>::zero()), [T::of(0.0); 3], &|| "rgb zero".into())?;
        judge(c, ux(XYZ::<T>::zero()), [T::of(0.0); 3], &|| "xyz zero".into())?;
        judge(c, ur(RGBf::<T>::one()), [T::of(1.0); 3], &|| "rgb one".into())?;
        judge(c, ux(XYZ::<T>::one()), [T::of(1.0); 3], &|| "xyz one".into())?;
        judge(c, ur(<RGBf<T> as Bounded>::min_value()), [<T as Float>::min_value(); 3], &|| "rgb min".into())?;
        judge(c, ux(<XYZ<T> as Bounded>::min_value()), [<T as Float>::min_value(); 3], &|| "xyz min".into())?;
        judge(c, ur(<RGBf<T> as Bounded>::max_value()), [<T as Float>::max_value(); 3], &|| "rgb max".into())?;
        judge(c, ux(<XYZ<T> as Bounded>::max_value()), [<T as Float>::max_value(); 3], &|| "xyz max".into())
    });
    // reinterpreting a flat slice
    let maxlen = ctx.tier(3000usize, 12000);
    ctx.scope(&format!("cast-{}", b), maxlen as u64 * 4, "flat slices of every length at four offsets: triples in order, same memory, refusal of other lengths", |i, c| {
        let mut m = Mix(i);
        let (off, len) = (m.pick(4), m.pick(maxlen));
        let data: Vec<T> = (0..len + 4).map(|k| T::of(k as f64 * 1.25 - 3.0)).collect();
        let s = &data[off..off + len];
        if len % 3 != 0 {
            return c.refused(|| RGBf::<T>::cast_slice(s).len(), || format!("cast of {} values", len));
        }
        let v = RGBf::<T>::cast_slice(s);
        c.eq(v.len(), len / 3, || format!("colours in a slice of {} values", len))?;
        c.ensure(len == 0 || v.as_ptr() as usize == s.as_ptr() as usize, || format!("cast of {} values points elsewhere", len))?;
        for (k, q) in v.iter().enumerate() {
            c.eq(show(ur(*q)), show([s[3 * k], s[3 * k + 1], s[3 * k + 2]]), || format!("colour {} of {} values at offset {}", k, len, off))?;
        }
        Ok(())
    });
}

macro_rules! sums {
    ($ctx:ident, $name:expr, $ty:ty, $t:ty, $mk:ident, $un:ident) => {
        let maxn = $ctx.tier(2000u64, 8000);
        $ctx.scope($name, maxn, "sums of every number of colours, exactly representable and rounded values", |i, c| {
            let n = i as usize;
            // every partial sum exactly representable: any order gives the same
            let v: Vec<A<$t>> = (0..n).map(|k| [(k % 7) as $t, ((k * k) % 11) as $t * 0.5 - 2.0, -((k % 5) as $t) * 0.25]).collect();
            let mut want = [0.0 as $t; 3];
            for q in &v {
                for k in 0..3 {
                    want[k] += q[k];
                }
            }
            let g: $ty = v.iter().map(|q| $mk(*q)).sum();
            judge(c, $un(g), want, &|| format!("sum of {} colours", n))?;
            let v: Vec<A<$t>> = (0..n).map(|k| [0.1 * (k as $t + 1.0), 1.0 / (k as $t + 3.0), -0.7 + 0.013 * k as $t]).collect();
            let mut want = [0.0f64; 3];
            let mut mag = 0.0f64;
            for q in &v {
                for k in 0..3 {
                    want[k] += q[k] as f64;
                    mag += (q[k] as f64).abs();
                }
            }
            let g: $ty = v.iter().map(|q| $mk(*q)).sum();
            let g = $un(g);
            for k in 0..3 {
                c.near(g[k] as f64, want[k], (n as f64 + 2.0) * <$t as Prec>::EPS * mag, || format!("rounded sum of {} colours, component {}", n, k))?;
            }
            // one special value anywhere
            for (j, s) in [(0usize, <$t>::NAN), (n / 2, <$t>::INFINITY), (n.saturating_sub(1), <$t>::NAN)] {
                if n == 0 {
                    continue;
                }
                for ch in 0..3 {
                    let mut v: Vec<A<$t>> = (0..n).map(|k| [1.0, 2.0, k as $t]).collect();
                    v[j][ch] = s;
                    let g: $ty = v.iter().map(|q| $mk(*q)).sum();
                    let g = $un(g);
                    for k in 0..3 {
                        let want = if k == ch { s } else { v.iter().map(|q| q[k]).sum() };
                        c.ensure(same(g[k], want), || format!("sum of {} colours with {:?} at {}: component {} is {:?}", n, s, j, k, g[k]))?;
                    }
                }
            }
            Ok(())
        });
    };
}

macro_rules! approx {
    ($ctx:ident, $name:expr, $t:ty, $margin:ident, $bits:ty) => {
        let base: Vec<$t> = vec![0.0, 1.0, -1.0, 0.5, 100.0, 1e-10, <$t>::MIN_POSITIVE, <$t>::MAX, <$t>::INFINITY, <$t>::NAN];
        let dul: Vec<i64> = vec![0, 1, -1, 2, -2, 3, 5, -5, 100, -100];
        let margins: Vec<$margin> = vec![
            $margin { epsilon: 0.0, ulps: 0 },
            $margin { epsilon: 0.0, ulps: 1 },
            $margin { epsilon: 0.0, ulps: 2 },
            $margin { epsilon: 0.0, ulps: 4 },
            $margin { epsilon: 1e-6, ulps: 0 },
            $margin { epsilon: 1e-3, ulps: 2 },
            $margin { epsilon: 0.0, ulps: 100 },
        ];
        let nb = base.len();
        $ctx.scope($name, (nb * dul.len() * dul.len() * dul.len() * margins.len()) as u64, "approximate equality: every pattern of differences of the three components x margins is the conjunction of the component comparisons", |i, c| {
            let mut m = Mix(i);
            let bv = *m.of(&base);
            let d = [*m.of(&dul), *m.of(&dul), *m.of(&dul)];
            let mg = *m.of(&margins);
            let u = [bv, 1.0, -3.0];
            let step = |v: $t, d: i64| <$t>::from_bits((v.to_bits() as i64).wrapping_add(d) as $bits);
            for rot in 0..3 {
                let a = [u[rot], u[(rot + 1) % 3], u[(rot + 2) % 3]];
                let b = [step(a[0], d[0]), step(a[1], d[1]), step(a[2], d[2])];
                let want = (0..3).all(|k| a[k].approx_eq(b[k], mg));
                c.eq(r(a).approx_eq(r(b), mg), want, || format!("rgb {:?} against {:?}", a, b))?;
                c.eq(x(a).approx_eq(x(b), mg), want, || format!("xyz {:?} against {:?}", a, b))?;
            }
            Ok(())
        });
    };
}

pub fn c21(ctx: &Ctx) {
    explore::<f64>(ctx, &ops(64));
    let mut o = ops::<f32>(32);
    o.sca.push(Sca("scalar + rgb", |a, s| ur(s + r(a)), |a, s| s + a));
    o.sca.push(Sca("scalar - rgb", |a, s| ur(s - r(a)), |a, s| s - a));
    o.sca.push(Sca("scalar * rgb", |a, s| ur(s * r(a)), |a, s| s * a));
    o.sca.push(Sca("scalar / rgb", |a, s| ur(s / r(a)), |a, s| s / a));
    explore::<f32>(ctx, &o);
    sums!(ctx, "sum-rgb-32", RGBf32, f32, r, ur);
    sums!(ctx, "sum-rgb-64", RGBf64, f64, r, ur);
    sums!(ctx, "sum-xyz-32", XYZf32, f32, x, ux);
    approx!(ctx, "approx-32", f32, F32Margin, u32);
    approx!(ctx, "approx-64", f64, F64Margin, u64);
    let vs = values::<f64>();
    let nv = vs.len();
    ctx.scope("narrow-xyz", (nv * nv * nv) as u64, "every triple of 25 values narrowed from double to single precision", |i, c| {
        let mut m = Mix(i);
        let u = [*m.of(&vs), *m.of(&vs), *m.of(&vs)];
        let g: XYZf32 = x(u).into();
        judge(c, ux(g), u.map(|v| v as f32), &|| format!("XYZf32 from {:?}", u))?;
        let g: RGBf32 = r(u).into();
        judge(c, ur(g), u.map(|v| v as f32), &|| format!("RGBf32 from {:?}", u))
    });
    let maxlen = ctx.tier(3000usize, 12000);
    ctx.scope("cast-u8", maxlen as u64 * 4, "flat byte slices of every length at four offsets", |i, c| {
        let mut m = Mix(i);
        let (off, len) = (m.pick(4), m.pick(maxlen));
        let data: Vec<u8> = (0..len + 4).map(|k| (k * 7 + k / 256) as u8).collect();
        let s = &data[off..off + len];
        if len % 3 != 0 {
            return c.refused(|| RGBu8::cast_slice(s).len(), || format!("cast of {} bytes", len));
        }
        let v = RGBu8::cast_slice(s);
        c.eq(v.len(), len / 3, || format!("colours in a slice of {} bytes", len))?;
        c.ensure(len == 0 || v.as_ptr() as usize == s.as_ptr() as usize, || format!("cast of {} bytes points elsewhere", len))?;
        for (k, q) in v.iter().enumerate() {
            c.eq([q.r, q.g, q.b], [s[3 * k], s[3 * k + 1], s[3 * k + 2]], || format!("colour {} of {} bytes at offset {}", k, len, off))?;
        }
        Ok(())
    });
    ctx.scope("constructors", 256 * 27, "integer and concrete constructors keep components in order", |i, c| {
        let mut m = Mix(i);
        let k = m.pick(256);
        let t = [m.pick(3), m.pick(3), m.pick(3)];
        let f = |q: usize| (k * (q + 1)) % 256;
        let (a, b, d) = (f(t[0]), f(t[1]), f(t[2]));
        let u = rgbu8(a as u8, b as u8, d as u8);
        c.eq([u.r, u.g, u.b], [a as u8, b as u8, d as u8], || "rgbu8".into())?;
        let u = rgbu16(a as u16 * 257, b as u16 * 257, d as u16 * 257);
        c.eq([u.r, u.g, u.b], [a as u16 * 257, b as u16 * 257, d as u16 * 257], || "rgbu16".into())?;
        let (p, q, s) = (a as f32 / 7.0, b as f32 / 7.0, d as f32 / 7.0);
        c.eq(ur(rgbf32(p, q, s)), [p, q, s], || "rgbf32".into())?;
        let w = rgbaf32(p, q, s, 0.25);
        c.eq([w.r, w.g, w.b, w.a], [p, q, s, 0.25], || "rgbaf32".into())?;
        let (p, q, s) = (a as f64 / 7.0, b as f64 / 7.0, d as f64 / 7.0);
        c.eq(ur(rgbf64(p, q, s)), [p, q, s], || "rgbf64".into())
    });
}
