//! C07: 3x3 linear algebra.
use crate::core::*;
use crate::props::curves::Prec;
use crate::refm::*;
use colorspace::math::Matrix33;
use colorspace::rgb::RGBf;
use colorspace::xyz::XYZ;

fn det_i(a: &[i64; 9]) -> i64 {
    a[0] * (a[4] * a[8] - a[5] * a[7]) - a[1] * (a[3] * a[8] - a[5] * a[6]) + a[2] * (a[3] * a[7] - a[4] * a[6])
}
fn adj_i(a: &[i64; 9]) -> [i64; 9] {
    [
        a[4] * a[8] - a[5] * a[7],
        a[2] * a[7] - a[1] * a[8],
        a[1] * a[5] - a[2] * a[4],
        a[5] * a[6] - a[3] * a[8],
        a[0] * a[8] - a[2] * a[6],
        a[2] * a[3] - a[0] * a[5],
        a[3] * a[7] - a[4] * a[6],
        a[1] * a[6] - a[0] * a[7],
        a[0] * a[4] - a[1] * a[3],
    ]
}

fn int_matrix<T: Prec>(c: &mut Case, a: &[i64; 9], scale: f64, exact: bool) -> R {
    let d = det_i(a);
    let adj = adj_i(a);
    let mut x = [T::of(0.0); 9];
    for k in 0..9 {
        x[k] = T::of(a[k] as f64 * scale);
    }
    let m = Matrix33::new(x);
    let s3 = scale * scale * scale;
    let gd: f64 = m.determinant().into();
    let bits = std::mem::size_of::<T>() * 8;
    c.steps(4);
    if exact {
        if gd != d as f64 * s3 {
            return Err(format!("determinant of {:?}*{} ({} bit): got {:?}, expected {:?}", a, scale, bits, gd, d as f64 * s3));
        }
        let t = m.transposed();
        for i in 0..3 {
            for j in 0..3 {
                if t[j][i] != m[i][j] || m[i][j] != x[i * 3 + j] {
                    return Err(format!("transpose/index of {:?} at ({},{})", a, i, j));
                }
            }
        }
    }
    let invs = [("inverse", m.inverse()), ("gj_inverse", m.gj_inverse())];
    for (n, r) in invs {
        match r {
            None => {
                if d != 0 {
                    return Err(format!("{} of {:?}*{} ({} bit): reported singular, determinant is {}", n, a, scale, bits, d));
                }
            }
            Some(r) => {
                if d == 0 {
                    return Err(format!("{} of {:?}*{} ({} bit): returned {:?} for a singular matrix", n, a, scale, bits, r.x));
                }
                let big = adj.iter().fold(0.0f64, |m, v| m.max((*v as f64 / d as f64).abs())) / scale.abs();
                for k in 0..9 {
                    let want = adj[k] as f64 / d as f64 / scale;
                    let g: f64 = r.x[k].into();
                    if !((g - want).abs() <= T::EPS * 64.0 * big) {
                        return Err(format!("{} of {:?}*{} ({} bit) entry {}: got {:?}, expected {:?}", n, a, scale, bits, k, g, want));
                    }
                }
            }
        }
    }
    Ok(())
}

fn decode(mut i: u64, lo: i64, n: u64) -> [i64; 9] {
    let mut a = [0; 9];
    for v in a.iter_mut() {
        *v = (i % n) as i64 + lo;
        i /= n;
    }
    a
}

/// Gauss-Jordan elimination of a singular matrix may leave a rounding residue
/// when a multiplier is not a dyadic rational; such matrices are not required to
/// be recognised by that routine.
fn fr_inverse<T: Prec>(c: &mut Case, v: [f64; 9], what: &str) -> R {
    let x = v.map(T::of);
    let vf = x.map(|q| q.into());
    let a = m_from(&vf);
    let want = m_inv(&a);
    let cond = m_maxabs(&a) * m_maxabs(&want);
    if !(cond < 1.0e4) {
        return c.skip();
    }
    let m = Matrix33::new(x);
    for (n, r) in [("inverse", m.inverse()), ("gj_inverse", m.gj_inverse())] {
        match r {
            None => return Err(format!("{} of {:?} ({}): reported singular", n, vf, what)),
            Some(r) => {
                for k in 0..9 {
                    let g: f64 = r.x[k].into();
                    c.near(g, want[k / 3][k % 3], T::EPS * 32.0 * cond * m_maxabs(&want), || format!("{} of {:?} ({}) entry {}", n, vf, what, k))?;
                }
            }
        }
    }
    Ok(())
}

pub fn c07(ctx: &Ctx) {
    let n2 = 5u64.pow(9);
    ctx.scope("int-5", n2 / 25, "every matrix with entries in {-2..2}: determinant, transpose, indexing, both inverses, f64 and f32", |blk, c| {
        c.states = 25;
        for j in 0..25 {
            let a = decode(blk * 25 + j, -2, 5);
            int_matrix::<f64>(c, &a, 1.0, true)?;
            int_matrix::<f32>(c, &a, 1.0, true)?;
            c.out(det_i(&a) as u64);
        }
        c.sample(|| format!("{:?}", decode(blk * 25, -2, 5)));
        Ok(())
    });
    let n1 = 3u64.pow(9);
    let scales: Vec<f64> = vec![0.5, 2.0, -1.0, 1024.0, 1.0 / 1024.0, 2f64.powi(30), 2f64.powi(-30), -4.0, 3.0, 0.1];
    // scales at which every product is still exact, far below and above the resolution at one
    let far = [2f64.powi(-60), 2f64.powi(60), -(2f64.powi(-200)), 2f64.powi(200)];
    let far32 = [2f64.powi(-20), 2f64.powi(20), -(2f64.powi(-38)), 2f64.powi(36)];
    ctx.scope("int-3-scaled", n1, "every matrix with entries in {-1,0,1} x 14 scales (f64) and 10 (f32)", |i, c| {
        let a = decode(i, -1, 3);
        for (k, s) in scales.iter().enumerate() {
            int_matrix::<f64>(c, &a, *s, k < 9)?;
            if k < 5 || k == 7 {
                int_matrix::<f32>(c, &a, *s, true)?;
            }
        }
        for (s, t) in far.iter().zip(&far32) {
            int_matrix::<f64>(c, &a, *s, true)?;
            int_matrix::<f32>(c, &a, *t, true)?;
        }
        Ok(())
    });
    {
        let n3 = 7u64.pow(9);
        ctx.scope("int-7", n3 / 343, "every matrix with entries in {-3..3}, non-singular inverses and determinants, f64", |blk, c| {
            c.states = 343;
            for j in 0..343 {
                let a = decode(blk * 343 + j, -3, 7);
                let d = det_i(&a);
                let x = a.map(|v| v as f64);
                let m = Matrix33::new(x);
                if m.determinant() != d as f64 {
                    return Err(format!("determinant of {:?}", a));
                }
                if d == 0 {
                    if m.inverse().is_some() {
                        return Err(format!("inverse of singular {:?}", a));
                    }
                    continue;
                }
                let adj = adj_i(&a);
                let (Some(p), Some(q)) = (m.inverse(), m.gj_inverse()) else {
                    return Err(format!("{:?} reported singular", a));
                };
                for k in 0..9 {
                    let w = adj[k] as f64 / d as f64;
                    if (p.x[k] - w).abs() > 1e-12 || (q.x[k] - w).abs() > 1e-12 {
                        return Err(format!("inverse of {:?} entry {}", a, k));
                    }
                }
            }
            c.steps(3 * 343);
            Ok(())
        });
    }
    // affine shapes: the last column is (nearly) (0,0,1)
    let vals = [-1.5, -0.25, 0.0, 0.3, 1.0, 7.0];
    let cols: Vec<[f64; 3]> = vec![
        [0.0, 0.0, 1.0],
        [0.0, 0.0, 1.0 + 1e-9],
        [0.0, 0.0, 1.0 - 1e-9],
        [1e-9, 0.0, 1.0],
        [0.0, 1e-9, 1.0],
        [-1e-9, 0.0, 1.0],
        [0.0, -1e-9, 1.0],
        [-0.5, 0.0, 1.0],
        [0.0, -0.5, 1.0],
        [-0.5, -0.5, 1.0],
        [0.5, -0.5, 1.0],
        [0.0, 0.0, -1.0],
        [0.0, 0.0, 0.5],
        [0.0, 0.0, 2.0],
        [1e-14, 0.0, 1.0],
        [0.0, -1e-14, 1.0],
    ];
    ctx.scope("affine", (6u64.pow(6)) * cols.len() as u64, "all 6^6 left parts x 16 last columns at or near (0,0,1), condition < 1e4", |i, c| {
        let mut m = Mix(i);
        let col = cols[m.pick(cols.len())];
        let mut v = [0.0; 9];
        for k in 0..9 {
            v[k] = if k % 3 == 2 { col[k / 3] } else { vals[m.pick(6)] };
        }
        fr_inverse::<f64>(c, v, "affine")?;
        fr_inverse::<f32>(c, v, "affine f32")?;
        c.sample(|| format!("{:?}", v));
        Ok(())
    });
    // graded and permuted magnitudes
    let mags = [1e-3, 1.0, 37.0, 1e3];
    let perms = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]];
    ctx.scope("permuted", (64 * 6 * 64) as u64 * 4, "permutation patterns with graded magnitudes and small off-pattern entries", |i, c| {
        let mut m = Mix(i);
        let g = [mags[m.pick(4)], mags[m.pick(4)], mags[m.pick(4)]];
        let p = perms[m.pick(6)];
        let mut noise = m.pick(64) as u64;
        let amp = [0.0, 1e-6, 1e-2, 0.3][m.pick(4)];
        let mut v = [0.0; 9];
        for r in 0..3 {
            for q in 0..3 {
                v[r * 3 + q] = if p[r] == q {
                    g[r]
                } else {
                    let b = noise & 1;
                    noise >>= 1;
                    amp * g[r] * if b == 1 { 1.0 } else { -0.5 }
                };
            }
        }
        fr_inverse::<f64>(c, v, "permuted")
    });
    // products
    ctx.scope("product-01", 512 * 512, "all ordered pairs of 0/1 matrices, exact", |i, c| {
        let mk = |b: u64| -> [f64; 9] {
            let mut x = [0.0; 9];
            for (k, v) in x.iter_mut().enumerate() {
                *v = (b >> k & 1) as f64;
            }
            x
        };
        let (a, b) = (mk(i % 512), mk(i / 512));
        let want = m_mul(&m_from(&a), &m_from(&b));
        let g = Matrix33::new(a) * Matrix33::new(b);
        let h = Matrix33::new(a.map(|v| v as f32)) * Matrix33::new(b.map(|v| v as f32));
        for k in 0..9 {
            c.eq(g.x[k], want[k / 3][k % 3], || format!("product of {:?} and {:?} entry {}", a, b, k))?;
            c.eq(h.x[k] as f64, want[k / 3][k % 3], || format!("f32 product of {:?} and {:?} entry {}", a, b, k))?;
        }
        Ok(())
    });
    let pr = [2.0, 3.0, 5.0, 7.0, 11.0, 13.0, 17.0, 19.0, 23.0];
    ctx.scope("product-3", n1, "every {-1,0,1} matrix times a generic one on both sides, and applied to colours; scalar operations; narrowing", |i, c| {
        let a = decode(i, -1, 3).map(|v| v as f64);
        let (ma, mp) = (m_from(&a), m_from(&pr));
        let (l, r) = (Matrix33::new(a) * Matrix33::new(pr), Matrix33::new(pr) * Matrix33::new(a));
        let (wl, wr) = (m_mul(&ma, &mp), m_mul(&mp, &ma));
        let f = Matrix33::<f32>::from(Matrix33::new(a) * 0.1);
        let s = Matrix33::new(a);
        let (add, sub, mul, div, neg) = (s + 0.75, s - 0.75, s * -3.0, s / 4.0, -s);
        for k in 0..9 {
            let (ii, j) = (k / 3, k % 3);
            c.eq(l.x[k], wl[ii][j], || format!("{:?} * primes entry {}", a, k))?;
            c.eq(r.x[k], wr[ii][j], || format!("primes * {:?} entry {}", a, k))?;
            c.eq(f.x[k], (a[k] * 0.1) as f32, || format!("narrowed {:?} entry {}", a, k))?;
            c.eq((add.x[k], sub.x[k], mul.x[k], div.x[k], neg.x[k]), (a[k] + 0.75, a[k] - 0.75, a[k] * -3.0, a[k] / 4.0, -a[k]), || format!("scalar operation on {:?} entry {}", a, k))?;
        }
        for v in [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0], [2.0, -3.0, 7.0], [0.5, 0.25, 0.125]] {
            let w = m_vec(&ma, &v);
            let x = s * XYZ::new(v[0], v[1], v[2]);
            let q = s * RGBf::new(v[0], v[1], v[2]);
            c.eq([x.x, x.y, x.z], w, || format!("{:?} * XYZ {:?}", a, v))?;
            c.eq([q.r, q.g, q.b], w, || format!("{:?} * RGB {:?}", a, v))?;
            let s32 = Matrix33::new(a.map(|t| t as f32));
            let x = s32 * XYZ::new(v[0] as f32, v[1] as f32, v[2] as f32);
            let q = s32 * RGBf::new(v[0] as f32, v[1] as f32, v[2] as f32);
            c.eq([x.x as f64, x.y as f64, x.z as f64], w, || format!("f32 {:?} * XYZ {:?}", a, v))?;
            c.eq([q.r as f64, q.g as f64, q.b as f64], w, || format!("f32 {:?} * RGB {:?}", a, v))?;
        }
        Ok(())
    });
    ctx.scope("index", 9 * 9, "mutable indexing changes exactly the addressed entry; identity; real-valued application", |i, c| {
        let mut m = Mix(i);
        let (a, b) = (m.pick(9), m.pick(9));
        let mut t = Matrix33::new(pr);
        t[a / 3][a % 3] = -1.0;
        t[b / 3][b % 3] = -2.0;
        for k in 0..9 {
            let want = if k == b { -2.0 } else if k == a { -1.0 } else { pr[k] };
            c.eq(t[k / 3][k % 3], want, || format!("entry {} after writing {} and {}", k, a, b))?;
            c.eq(t.x[k], want, || format!("storage {} after writing {} and {}", k, a, b))?;
        }
        let id = Matrix33::<f64>::make_identity();
        c.eq((id * t).x, t.x, || "identity * m".into())?;
        c.eq((t * id).x, t.x, || "m * identity".into())?;
        c.refused(|| t[3][0], || "row index 3".into())
    });
    ctx.assume("Gauss-Jordan: exact recognition of singular integer matrices is required for entries in -2..2; real matrices are required to invert when their condition number is below 1e4");
}
