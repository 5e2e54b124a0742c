//! C22: results do not depend on call history or on concurrent callers.
//!
//! Nothing here touches the crate before forking: every history starts from a
//! process in which no table has been initialised and no function called.
use crate::core::*;
use colorspace::chromatic_adaptation::*;
use colorspace::chromaticity::*;
use colorspace::color_space_rgb::{decode, encode, model_f32, model_f64, ColorSpaceRGB};
use colorspace::interpolation::*;
use colorspace::lab::*;
use colorspace::math::*;
use colorspace::rgb::*;
use colorspace::spd::*;
use colorspace::transform::*;
use colorspace::uplifting::*;
use colorspace::vspd::*;
use colorspace::xyz::*;
use colorspace::{cmf, colorchecker, illuminant, photometry, CMF};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::*};

type Out = Vec<u64>;

pub struct Op {
    name: String,
    /// ops of one group share code and near-colliding arguments
    group: &'static str,
    f: Box<dyn Fn() -> Out + Send + Sync>,
}

fn run(o: &Op) -> u64 {
    match catch_unwind(AssertUnwindSafe(|| (o.f)())) {
        Ok(v) => v.iter().fold(0x51ed_270b_7f4a_7c15, |h, x| mix(h, *x).wrapping_add(h.rotate_left(17))),
        Err(_) => {
            PANIC_MSG.with(|p| p.set(None));
            0xDEAD
        }
    }
}

trait Bits {
    fn bits(&self, o: &mut Out);
}
impl Bits for f64 {
    fn bits(&self, o: &mut Out) {
        o.push(self.to_bits())
    }
}
impl Bits for f32 {
    fn bits(&self, o: &mut Out) {
        o.push(self.to_bits() as u64)
    }
}
impl<T: Bits> Bits for [T] {
    fn bits(&self, o: &mut Out) {
        for x in self {
            x.bits(o)
        }
    }
}
impl<T: Bits> Bits for Vec<T> {
    fn bits(&self, o: &mut Out) {
        o.push(self.len() as u64);
        self[..].bits(o)
    }
}
impl<T: Bits + Real> Bits for Matrix33<T> {
    fn bits(&self, o: &mut Out) {
        self.x[..].bits(o)
    }
}
impl<T: Bits> Bits for RGBf<T> {
    fn bits(&self, o: &mut Out) {
        self.r.bits(o);
        self.g.bits(o);
        self.b.bits(o)
    }
}
impl<T: Bits + Real> Bits for XYZ<T> {
    fn bits(&self, o: &mut Out) {
        self.x.bits(o);
        self.y.bits(o);
        self.z.bits(o)
    }
}
impl<T: Bits + Real> Bits for XYY<T> {
    fn bits(&self, o: &mut Out) {
        self.x.bits(o);
        self.y.bits(o);
        self.Y.bits(o)
    }
}
impl<T: Bits + Real> Bits for Lab<T> {
    fn bits(&self, o: &mut Out) {
        self.L.bits(o);
        self.a.bits(o);
        self.b.bits(o)
    }
}
impl<T: Bits> Bits for Option<T> {
    fn bits(&self, o: &mut Out) {
        match self {
            None => o.push(77),
            Some(v) => v.bits(o),
        }
    }
}
impl Bits for VSPD {
    fn bits(&self, o: &mut Out) {
        for s in self.samples() {
            s.nm.bits(o);
            s.v.bits(o);
        }
        let h = self.shape();
        h.start.bits(o);
        h.end.bits(o);
        match h.interval {
            Interval::Uniform(i) => i.bits(o),
            Interval::Varying => o.push(3),
        }
    }
}
impl Bits for SPD {
    fn bits(&self, o: &mut Out) {
        self.values[..].bits(o)
    }
}
impl<A: Bits, B: Bits> Bits for (A, B) {
    fn bits(&self, o: &mut Out) {
        self.0.bits(o);
        self.1.bits(o)
    }
}
fn b<T: Bits + ?Sized>(x: &T) -> Out {
    let mut o = vec![];
    x.bits(&mut o);
    o
}

type G64 = fn() -> &'static ColorSpaceRGB<f64>;
type G32 = fn() -> &'static ColorSpaceRGB<f32>;
macro_rules! sp64 { ($($n:ident),*) => { vec![$((stringify!($n), (|| &*model_f64::$n) as G64)),*] } }
macro_rules! sp32 { ($($n:ident),*) => { vec![$((stringify!($n), (|| &*model_f32::$n) as G32)),*] } }

/// Reflectance-like spectra that agree in shape and in many summaries of their values.
fn refl(kind: usize, start: f64, step: f64, n: usize) -> VSPD {
    let mut v: Vec<f64> = (0..n).map(|k| 0.1 + 0.7 * ((k * 37 + 11) % 101) as f64 / 101.0).collect();
    let h = n / 2;
    match kind {
        0 => {}
        1 => v.swap(h, h + 1),
        2 => v[h] = f64::from_bits(v[h].to_bits() + 1),
        3 => v.reverse(),
        4 => v.iter_mut().for_each(|x| *x *= 0.5),
        _ => v[n - 1] += 0.125,
    }
    VSPD::from_values(SpdShape::new(start, start + step * (n - 1) as f64, step), &v)
}
fn uneven(kind: usize) -> VSPD {
    let nm = [380.0, 400.0, 430.0, 470.0, 500.0, 520.0, 560.0, 600.0, 640.0, 660.0, 700.0, 730.0];
    let r = refl(kind, 0.0, 1.0, 12);
    VSPD::new(nm.iter().zip(r.values()).map(|(n, v)| Sample::new(*n, v)).collect())
}
/// Lights on the D65 grid, allocated and dropped by the caller, so that
/// successive calls see equal addresses and shapes with different values.
fn light(kind: usize) -> VSPD {
    let d = &*illuminant::spd::D65;
    let mut v: Vec<f64> = d.values().collect();
    let n = v.len();
    match kind {
        0 => {}
        1 => v.swap(n / 2, n / 2 + 2),
        2 => v[n / 2] = v[n / 2] * 1.5,
        3 => v.reverse(),
        _ => v.iter_mut().for_each(|x| *x *= 2.0),
    }
    VSPD::new(d.wavelengths().zip(v).map(|(n, v)| Sample::new(n, v)).collect())
}
fn observer(kind: usize) -> CMF {
    let s = &*cmf::CIE_1931_2_DEGREE;
    let tweak = |v: &VSPD, k: f64| -> VSPD { v.iter().map(|q| Sample::new(q.nm, if q.nm == 560.0 { q.v * k } else { q.v })).collect() };
    CMF {
        x_bar: if kind == 1 { tweak(&s.x_bar, 1.25) } else { s.x_bar.clone() },
        y_bar: if kind == 2 { tweak(&s.y_bar, 1.25) } else { s.y_bar.clone() },
        z_bar: if kind == 3 { tweak(&s.z_bar, 1.25) } else { s.z_bar.clone() },
    }
}
fn spectrum(k: usize) -> VSPD {
    match k {
        0..=4 => refl(k, 380.0, 10.0, 36),
        5 => refl(0, 360.0, 10.0, 43),
        6 => refl(0, 380.0, 5.0, 81),
        7 => refl(1, 380.0, 5.0, 81),
        8 => refl(0, 400.0, 1.0, 301),
        9 => refl(2, 400.0, 1.0, 301),
        10 => refl(0, 383.0, 10.0, 36),
        11 => refl(0, 380.0, 3.5, 100),
        12 => uneven(0),
        _ => uneven(1),
    }
}
const NSPEC: usize = 14;

fn whites() -> Vec<[f64; 2]> {
    let u = |v: f64| f64::from_bits(v.to_bits() + 1);
    vec![[0.3127, 0.3290], [0.3127, 0.3291], [u(0.3127), 0.3290], [0.3127, u(0.3290)], [0.3128, 0.3290], [0.3457, 0.3585], [0.3290, 0.3127], [1.0 / 3.0, 1.0 / 3.0]]
}

pub fn alphabet() -> Vec<Op> {
    let mut v: Vec<Op> = vec![];
    macro_rules! op {
        ($g:expr, $n:expr, $f:expr) => {
            v.push(Op { name: $n, group: $g, f: Box::new($f) })
        };
    }
    let s64: Vec<(&'static str, G64)> = sp64!(SRGB, SRGB_DRV, ITUR_BT709, ITUR_BT2020, DCI_P3, DCI_P3_D65, ACES, ACES_CG, ADOBE_RGB_1998, ALEXA_WIDE_GAMUT);
    let s32: Vec<(&'static str, G32)> = sp32!(SRGB, ITUR_BT709, ITUR_BT2020, DCI_P3, DCI_P3_D65, ACES, ACES_CG, ADOBE_RGB_1998, ALEXA_WIDE_GAMUT);
    let ws = whites();
    // space to space
    for (an, a) in &s64 {
        for (bn, q) in &s64 {
            let (a, q) = (*a, *q);
            op!("space-matrix", format!("rgb_to_rgb_matrix {} -> {}", an, bn), move || b(&rgb_to_rgb_matrix(a(), q())));
        }
    }
    for (an, a) in s32.iter().take(6) {
        for (bn, q) in s32.iter().take(6) {
            let (a, q) = (*a, *q);
            op!("space-matrix-32", format!("rgb_to_rgb_matrix f32 {} -> {}", an, bn), move || b(&rgb_to_rgb_matrix(a(), q())));
        }
    }
    for (k, (i, j)) in [(0usize, 4usize), (4, 0), (0, 6), (6, 9), (9, 3), (5, 4)].into_iter().enumerate() {
        let (a, q) = (s64[i].1, s64[j].1);
        op!("space-slice", format!("rgb_to_rgb slice {} {} -> {}", k, s64[i].0, s64[j].0), move || {
            let src: Vec<RGBf64> = (0..5 + k).map(|t| rgbf(0.1 * t as f64, 0.9 - 0.1 * t as f64, 0.05 + 0.02 * t as f64)).collect();
            let mut dst = vec![rgbf64(-1.0, -1.0, -1.0); 7];
            let n = rgb_to_rgb(a(), q(), &src, &mut dst);
            let mut o = b(&dst);
            o.push(n as u64);
            o
        });
        let (a, q) = (s32[i % 9].1, s32[j % 9].1);
        op!("space-slice", format!("rgb_to_rgb slice f32 to bytes {}", k), move || {
            let src: Vec<RGBf32> = (0..6).map(|t| rgbf(0.1 * t as f32, 0.9 - 0.1 * t as f32, 0.05 + 0.02 * (t + k) as f32)).collect();
            let mut dst = vec![rgbu8(1, 2, 3); 6];
            rgb_to_rgb(a(), q(), &src, &mut dst);
            dst.iter().map(|c| c.r as u64 | (c.g as u64) << 8 | (c.b as u64) << 16).collect()
        });
    }
    for (wi, w) in ws.iter().enumerate() {
        let w = *w;
        for si in [0usize, 4, 6] {
            let (n, g) = s64[si];
            op!("xyz-matrix", format!("xyz_to_rgb_matrix white {} {}", wi, n), move || b(&xyz_to_rgb_matrix(xy(w[0], w[1]), g())));
            op!("xyz-matrix", format!("rgb_to_xyz_matrix white {} {}", wi, n), move || b(&rgb_to_xyz_matrix(xy(w[0], w[1]), g())));
        }
        op!("xyz-matrix", format!("f32 xyz_to_rgb_matrix white {}", wi), move || b(&xyz_to_rgb_matrix(xy(w[0] as f32, w[1] as f32), &*model_f32::SRGB)));
    }
    // adaptation
    for (i, j) in [(0usize, 5usize), (5, 0), (0, 1), (1, 0), (0, 2), (0, 3), (0, 4), (4, 5), (1, 5), (5, 6), (6, 7), (0, 0)] {
        let (p, q) = (ws[i], ws[j]);
        op!("adapt", format!("bradford {} {}", i, j), move || b(&bradford::<f64, _, _>(xy(p[0], p[1]), xy(q[0], q[1]))));
        op!("adapt", format!("von_kries {} {}", i, j), move || b(&von_kries::<f64, _, _>(xy(p[0], p[1]), xy(q[0], q[1]))));
        op!("adapt", format!("cat02 {} {}", i, j), move || b(&cat02::<f64, _, _>(xy(p[0], p[1]), xy(q[0], q[1]))));
    }
    for (i, (p, q)) in [([95.047, 100.0, 108.883], [96.422, 100.0, 82.521]), ([95.047, 100.0, 108.883], [96.422, 100.0, 82.522]), ([96.422, 100.0, 82.521], [95.047, 100.0, 108.883]), ([0.95047, 1.0, 1.08883], [0.96422, 1.0, 0.82521])]
        .into_iter()
        .enumerate()
    {
        let (p, q): ([f64; 3], [f64; 3]) = (p, q);
        op!("adapt", format!("cat02 tristimulus {}", i), move || b(&cat02::<f64, _, _>(xyz(p[0], p[1], p[2]), xyz(q[0], q[1], q[2]))));
        op!("adapt", format!("bradford f32 {}", i), move || b(&bradford::<f32, _, _>(xyz(p[0] as f32, p[1] as f32, p[2] as f32), xyz(q[0] as f32, q[1] as f32, q[2] as f32))));
    }
    // construction
    let prim: [([f64; 8], usize); 7] = [
        ([0.64, 0.33, 0.30, 0.60, 0.15, 0.06, 0.3127, 0.3290], 0),
        ([0.64, 0.33, 0.30, 0.60, 0.15, 0.06, 0.3127, 0.3290], 1),
        ([0.64, 0.33, 0.30, 0.60, 0.15, 0.06, 0.3127, 0.3291], 0),
        ([0.64, 0.34, 0.30, 0.60, 0.15, 0.06, 0.3127, 0.3290], 0),
        ([0.64, 0.33, 0.30, 0.60, 0.15, 0.07, 0.3127, 0.3290], 0),
        ([0.64, 0.33, 0.15, 0.06, 0.30, 0.60, 0.3127, 0.3290], 0),
        ([0.64, 0.33, 0.30, 0.60, 0.15, 0.06, 0.3457, 0.3585], 0),
    ];
    for (k, (p, cv)) in prim.into_iter().enumerate() {
        op!("construct", format!("ColorSpaceRGB::new {}", k), move || {
            let e: Box<dyn Fn(RGBf64) -> RGBf64 + Sync + Send> = if cv == 0 { Box::new(encode::srgb) } else { Box::new(encode::bt709) };
            let d: Box<dyn Fn(RGBf64) -> RGBf64 + Sync + Send> = if cv == 0 { Box::new(decode::srgb) } else { Box::new(decode::bt709) };
            let s = ColorSpaceRGB::new(xy(p[0], p[1]), xy(p[2], p[3]), xy(p[4], p[5]), xy(p[6], p[7]), e, d);
            let mut o = b(&s.xf_rgb_to_xyz);
            o.extend(b(&s.xf_xyz_to_rgb));
            o.extend(b(&s.encode(rgbf(0.2, 0.5, 0.9))));
            o.extend(b(&s.decode(rgbf(0.2, 0.5, 0.9))));
            o.extend(b(&s.white));
            o
        });
        op!("construct", format!("ColorSpaceRGB::new f32 {}", k), move || {
            let q: Vec<f32> = p.iter().map(|v| *v as f32).collect();
            let s = ColorSpaceRGB::<f32>::new(xy(q[0], q[1]), xy(q[2], q[3]), xy(q[4], q[5]), xy(q[6], q[7]), Box::new(encode::linear), Box::new(decode::linear));
            let mut o = b(&s.xf_rgb_to_xyz);
            o.extend(b(&s.xf_xyz_to_rgb));
            o
        });
    }
    // curves
    for (n, g) in &s64 {
        let g = *g;
        op!("curve", format!("encode {}", n), move || b(&g().encode(rgbf(0.2, 0.5, 0.9))));
        op!("curve", format!("decode {}", n), move || b(&g().decode(rgbf(0.2, 0.5, 0.9))));
    }
    for (n, g) in &s32 {
        let g = *g;
        op!("curve", format!("f32 encode {}", n), move || b(&g().encode(rgbf(0.2, 0.5, 0.9))));
        op!("curve", format!("f32 decode {}", n), move || b(&g().decode(rgbf(0.2, 0.5, 0.9))));
    }
    for (k, c) in [[0.2, 0.5, 0.9000001], [0.2, 0.9, 0.5], [0.001, 0.002, 0.003], [-0.1, 1.5, 0.0]].into_iter().enumerate() {
        op!("curve", format!("encode SRGB colour {}", k), move || b(&model_f64::SRGB.encode(rgbf(c[0], c[1], c[2]))));
        op!("curve", format!("decode SRGB colour {}", k), move || b(&model_f64::SRGB.decode(rgbf(c[0], c[1], c[2]))));
        op!("curve", format!("f32 encode SRGB colour {}", k), move || b(&model_f32::SRGB.encode(rgbf(c[0] as f32, c[1] as f32, c[2] as f32))));
    }
    // matrices
    let mats: Vec<[f64; 9]> = vec![
        [0.4124, 0.3576, 0.1805, 0.2126, 0.7152, 0.0722, 0.0193, 0.1192, 0.9505],
        [0.4124, 0.3576, 0.1805, 0.2126, 0.7152, 0.0722, 0.0193, 0.1192, 0.9506],
        [0.4124, 0.2126, 0.0193, 0.3576, 0.7152, 0.1192, 0.1805, 0.0722, 0.9505],
        [-0.4124, -0.3576, -0.1805, -0.2126, -0.7152, -0.0722, -0.0193, -0.1192, -0.9505],
        [0.0, 1.0, 0.0, 0.0, 0.0, 1.0, 1.0, 0.0, 0.0],
        [2.0, 0.5, 3.0, 0.25, 4.0, -1.0, 0.0, 0.0, 1.0],
        [1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 7.0, 8.0, 9.0],
    ];
    for (k, m) in mats.into_iter().enumerate() {
        op!("matrix", format!("inverse {}", k), move || b(&Matrix33::new(m).inverse()));
        op!("matrix", format!("gj_inverse {}", k), move || b(&Matrix33::new(m).gj_inverse()));
        op!("matrix", format!("determinant and product {}", k), move || {
            let q = Matrix33::new(m);
            let mut o = b(&q.determinant());
            o.extend(b(&(q * q.transposed())));
            o.extend(b(&(q * rgbf(0.1, 0.2, 0.3))));
            o.extend(b(&(q * xyz(0.1, 0.2, 0.3))));
            o
        });
        op!("matrix", format!("f32 inverse {}", k), move || b(&M3f32::from(Matrix33::new(m)).inverse()));
    }
    // Lab
    for (k, (c, w)) in [
        ([20.0, 30.0, 40.0], [95.047, 100.0, 108.883]),
        ([20.0, 30.0, 40.0], [96.422, 100.0, 82.521]),
        ([20.0, 30.0, 40.0], [95.047, 100.0, 108.884]),
        ([20.0, 40.0, 30.0], [95.047, 100.0, 108.883]),
        ([0.2, 0.3, 0.4], [95.047, 100.0, 108.883]),
        ([0.2, 0.3, 0.4], [96.422, 100.0, 82.521]),
    ]
    .into_iter()
    .enumerate()
    {
        let (c, w): ([f64; 3], [f64; 3]) = (c, w);
        op!("lab", format!("xyz_to_lab {}", k), move || b(&xyz_to_lab::<f64, _, _>(xyz(c[0], c[1], c[2]), xyz(w[0], w[1], w[2]))));
        op!("lab", format!("lab_to_xyz {}", k), move || b(&lab_to_xyz(lab(c[1], c[0] - 10.0, c[2] - 35.0), xyz(w[0], w[1], w[2]))));
        op!("lab", format!("f32 xyz_to_lab {}", k), move || b(&xyz_to_lab::<f32, _, _>(xyz(c[0] as f32, c[1] as f32, c[2] as f32), xyz(w[0] as f32, w[1] as f32, w[2] as f32))));
    }
    for (k, (p, q)) in [([50.0, 2.6772, -79.7751], [50.0, 0.0, -82.7485]), ([50.0, 0.0, -82.7485], [50.0, 2.6772, -79.7751]), ([50.0, 2.6772, -79.7751], [50.0, 0.0, -82.7486]), ([50.0, -2.6772, -79.7751], [50.0, 0.0, -82.7485]), ([0.0, 0.0, 0.0], [100.0, 0.0, 0.0])]
        .into_iter()
        .enumerate()
    {
        let (p, q): ([f64; 3], [f64; 3]) = (p, q);
        op!("difference", format!("delta_E_2000 {}", k), move || b(&delta_E_2000(lab(p[0], p[1], p[2]), lab(q[0], q[1], q[2]))));
        op!("difference", format!("delta_E_1976 {}", k), move || b(&delta_E_1976(lab(p[0], p[1], p[2]), lab(q[0], q[1], q[2]))));
        op!("difference", format!("f32 delta_E_2000 {}", k), move || b(&delta_E_2000(lab(p[0] as f32, p[1] as f32, p[2] as f32), lab(q[0] as f32, q[1] as f32, q[2] as f32))));
    }
    for (k, w) in ws.iter().enumerate() {
        let w = *w;
        op!("xyy", format!("xyz from xyY {}", k), move || b(&XYZ::from(XYY::new(w[0], w[1], 0.5))));
        op!("xyy", format!("xyY from xyz {}", k), move || b(&XYY::from(xyz(w[0] * 100.0, w[1] * 100.0, 30.0))));
    }
    for (k, t) in [6500.0, 6500.000001, 5000.0, 7000.0, 7000.0001, 3999.0, 25001.0, f64::NAN, 8000.0, 20000.0, 8000.000001].into_iter().enumerate() {
        op!("daylight", format!("cct {}", k), move || illuminant::xy::cct(t).map_or(vec![9], |c| b(&c)));
        op!("daylight", format!("f32 cct {}", k), move || illuminant::xy::cct(t as f32).map_or(vec![9], |c| b(&c)));
    }
    // quantisation, arithmetic (including results below the normal range)
    for (k, c) in [[0.1, 0.5, 0.9], [0.1, 0.5, 0.9019608], [-1.0, 2.0, 0.3], [1e-310, 1e-42, 0.5]].into_iter().enumerate() {
        op!("arith", format!("quantise {}", k), move || {
            let u: RGBu8 = rgbf(c[0], c[1], c[2]).into();
            let w: RGBu16 = rgbf(c[0] as f32, c[1] as f32, c[2] as f32).into();
            let e: RGBf64 = u.into();
            let mut o = b(&e);
            o.extend([u.r as u64, u.g as u64, u.b as u64, w.r as u64, w.g as u64, w.b as u64]);
            o
        });
        op!("arith", format!("operators {}", k), move || {
            let p: RGBf64 = rgbf(c[0], c[1], c[2]);
            let q = rgbf(c[0] as f32, c[1] as f32, c[2] as f32);
            let mut o = b(&(p * 1e-305));
            o.extend(b(&(q * std::hint::black_box(1e-38f32))));
            o.extend(b(&(p.powf(2.2) + p * p - p / 3.0)));
            o.extend(b(&normalize(p)));
            o.extend(b(&clamprgb(q, 0.0, 1.0)));
            o.extend(b(&(xyz(c[0], c[1], c[2]) * std::hint::black_box(1e-306))));
            o
        });
    }
    // spectra
    for k in [0usize, 1, 2, 6, 8, 11, 12, 13] {
        op!("spectrum", format!("create {}", k), move || b(&spectrum(k)));
        for (j, sh) in [[360.0, 780.0, 10.0], [360.0, 780.0, 5.0], [360.0, 780.0, 20.0], [370.0, 780.0, 10.0], [400.0, 700.0, 7.0]].into_iter().enumerate() {
            op!("align", format!("align {} to {}", k, j), move || b(&spectrum(k).align(SpdShape::new(sh[0], sh[1], sh[2]))));
        }
        let sh = [365.0, 715.0, 2.5];
        op!("resample", format!("interpolate {}", k), move || b(&spectrum(k).interpolate(SpdShape::new(sh[0], sh[1], sh[2]))));
        op!("resample", format!("extrapolate {}", k), move || b(&spectrum(k).extrapolate(SpdShape::new(300.0, 830.0, 5.0))));
        op!("resample", format!("trim {}", k), move || b(&spectrum(k).trim(SpdShape::new(sh[0] + 50.0, sh[1] - 50.0, 5.0))));
        op!("interpolator", format!("sprague {}", k), move || {
            let s = spectrum(k);
            let i = InterpolatorSprague::<f64>::new(&s);
            let l = InterpolatorLinear::new(&s);
            let mut o = vec![];
            for t in 0..20 {
                let x = 405.0 + 13.7 * t as f64;
                i.evaluate(x).bits(&mut o);
                l.evaluate(x).bits(&mut o);
            }
            o
        });
        op!("nit", format!("spd_to_nit {}", k), move || b(&photometry::spd_to_nit(&spectrum(k), &cmf::CIE_1931_2_DEGREE)));
    }
    op!("nit", "spd_to_nit other observer".into(), move || b(&photometry::spd_to_nit(&spectrum(0), &observer(2))));
    for k in 0..NSPEC {
        op!("integrate", format!("to_xyz {} D65", k), move || b(&spectrum(k).to_xyz(&illuminant::spd::D65, &cmf::CIE_1931_2_DEGREE)));
        op!("integrate", format!("to_xyz {} D50", k), move || b(&spectrum(k).to_xyz(&illuminant::spd::D50, &cmf::CIE_1931_2_DEGREE)));
    }
    for k in [0usize, 1, 6, 8, 12] {
        for l in 0..5 {
            op!("integrate", format!("to_xyz {} light {}", k, l), move || b(&spectrum(k).to_xyz(&light(l), &cmf::CIE_1931_2_DEGREE)));
        }
        for q in 0..4 {
            op!("integrate", format!("to_xyz {} observer {}", k, q), move || b(&spectrum(k).to_xyz(&illuminant::spd::D65, &observer(q))));
        }
        op!("integrate", format!("to_xyz {} light 1 observer 1", k), move || b(&spectrum(k).to_xyz(&light(1), &observer(1))));
    }
    op!("integrate", "to_xyz 0 D55".into(), move || b(&spectrum(0).to_xyz(&illuminant::spd::D55, &cmf::CIE_1931_2_DEGREE)));
    op!("integrate", "to_xyz 0 D60".into(), move || b(&spectrum(0).to_xyz(&illuminant::spd::D60, &cmf::CIE_1931_2_DEGREE)));
    for (k, (iv, d)) in [(10.0, 4usize), (10.0, 3), (5.0, 4), (20.0, 4), (10.0, 2)].into_iter().enumerate() {
        op!("lagrange", format!("coefficients {}", k), move || b(&lagrange_coefficients_astm_e2022(iv, d)));
    }
    for (k, (s, e, n)) in [(0.0, 1.0, 11usize), (0.0, 1.0, 10), (0.0, 2.0, 11), (1.0, 0.0, 11)].into_iter().enumerate() {
        op!("lagrange", format!("linspace {}", k), move || b(&linspace(s, e, n).collect::<Vec<f64>>()));
    }
    // fixed grid
    for k in 0..5 {
        let val = move |k: usize| -> SPD {
            let r = refl(k, 380.0, 10.0, 40);
            let mut a = [0f32; 40];
            for (x, y) in a.iter_mut().zip(r.values()) {
                *x = y as f32;
            }
            SPD::new(a)
        };
        op!("fixed", format!("SPD::to_xyz {}", k), move || b(&val(k).to_xyz()));
        op!("fixed", format!("SPD product {}", k), move || b(&(&val(k) * &SPD::constant(0.5 + k as f32))));
    }
    for (k, c) in [[0.2, 0.5, 0.9], [0.2, 0.5, 0.9000001], [0.2, 0.9, 0.5], [1.0, 1.0, 1.0], [0.9, 0.5, 0.2]].into_iter().enumerate() {
        op!("uplift", format!("uplift {}", k), move || b(&uplift_my(rgbf(c[0], c[1], c[2]))));
    }
    op!("uplift", "my_basis".into(), || {
        let m = my_basis();
        b(&((m.0, m.1), m.2))
    });
    // tables
    op!("table", "observer".into(), || {
        let m = &*cmf::CIE_1931_2_DEGREE;
        let mut o = b(&m.x_bar);
        o.extend(b(&m.y_bar));
        o.extend(b(&m.z_bar));
        o
    });
    op!("table", "D50".into(), || b(&*illuminant::spd::D50 as &VSPD));
    op!("table", "D55".into(), || b(&*illuminant::spd::D55 as &VSPD));
    op!("table", "D60".into(), || b(&*illuminant::spd::D60 as &VSPD));
    op!("table", "D65".into(), || b(&*illuminant::spd::D65 as &VSPD));
    op!("table", "chart spectra".into(), || colorchecker::NAMES.iter().flat_map(|n| b(&colorchecker::SPECTRAL[*n])).collect());
    op!("table", "chart XYZ".into(), || colorchecker::NAMES.iter().flat_map(|n| b(&colorchecker::XYZ_D65[*n])).collect());
    op!("table", "chart linear".into(), || colorchecker::NAMES.iter().flat_map(|n| b(&colorchecker::SRGB_LINEAR[*n])).collect());
    op!("table", "chart encoded".into(), || colorchecker::NAMES.iter().flat_map(|n| b(&colorchecker::SRGB_ENCODED[*n])).collect());
    op!("table", "babelcolor".into(), || colorchecker::NAMES.iter().flat_map(|n| b(&BABELCOLOR[*n])).collect());
    op!("table", "weights".into(), || {
        let mut o = b(&*W_X as &SPD);
        o.extend(b(&*W_Y as &SPD));
        o.extend(b(&*W_Z as &SPD));
        o
    });
    op!("table", "basis".into(), || {
        let mut o = b(&*MY_RED as &VSPD);
        o.extend(b(&*MY_GREEN as &VSPD));
        o.extend(b(&*MY_BLUE as &VSPD));
        o
    });
    op!("table", "smits".into(), || {
        let mut o = b(&*SMITS_WHITE as &VSPD);
        o.extend(b(&*SMITS_CYAN as &VSPD));
        o.extend(b(&*SMITS_RED as &VSPD));
        o
    });
    // refusals: a refused call must not poison later ones
    op!("refusal", "one sample".into(), || b(&VSPD::new(vec![Sample::new(400.0, 1.0)])));
    op!("refusal", "wrong count".into(), || b(&VSPD::from_values(SpdShape::new(400.0, 500.0, 10.0), &[1.0, 2.0])));
    op!("refusal", "index".into(), || b(&rgbf(0.0, 1.0, 2.0)[std::hint::black_box(5)]));
    op!("refusal", "cast".into(), || vec![RGBf::<f64>::cast_slice(std::hint::black_box(&[1.0, 2.0])).len() as u64]);
    op!("refusal", "uneven luminance".into(), || b(&photometry::spd_to_nit(&uneven(0), &cmf::CIE_1931_2_DEGREE)));
    #[cfg(target_feature = "avx")]
    {
        use simdeez::avx2::Avx2;
        // lengths below, at and above one and several registers; same length with other values
        for (k, (n, d)) in [(3usize, 0.0f32), (8, 0.0), (8, 0.5), (13, 0.0), (14, 0.0), (16, 0.0), (16, 0.5), (29, 0.0), (64, 0.0)].into_iter().enumerate() {
            op!("planes", format!("planes {}", k), move || {
                let p = |a: f32| -> Vec<f32> { (0..n).map(|t| a + d + 3.0 * t as f32).collect() };
                let m = M3f32::new([1.0, 0.5, 0.25, 0.0, 1.0 + (k % 3) as f32, 0.5, 0.125, 0.0, 1.0]);
                let (r, g, q) = xyz_slice_to_rgb_avx_planes::<Avx2>(&m, &p(1.0), &p(2.0), &p(3.0));
                let mut o = b(&r);
                o.extend(b(&g));
                o.extend(b(&q));
                o
            });
        }
        op!("refusal", "unequal planes".into(), || {
            let (r, _, _) = xyz_slice_to_rgb_avx_planes::<Avx2>(&M3f32::make_identity(), &[1.0; 8], &[1.0; 7], &[1.0; 8]);
            b(&r)
        });
        // in this configuration only the calls with code of their own are explored, with the
        // tables they use and the spectral reference they are compared with
        v.retain(|o| ["planes", "fixed", "refusal", "table", "space-matrix-32"].contains(&o.group) || o.name.starts_with("to_xyz 0"));
    }
    v
}

/// Run `f` in a forked process; Err with the reason if it does not end normally.
fn in_child(secs: u32, f: impl FnOnce()) -> R {
    unsafe {
        let pid = libc::fork();
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            libc::alarm(secs);
            f();
            libc::_exit(0);
        }
        if pid < 0 {
            eprintln!("fork failed");
            libc::_exit(2);
        }
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        if libc::WIFSIGNALED(st) {
            let s = libc::WTERMSIG(st);
            return Err(if s == libc::SIGALRM { format!("no result after {} s (deadlock or endless loop)", secs) } else { format!("the process was killed by signal {}", s) });
        }
        if libc::WEXITSTATUS(st) != 0 {
            return Err(format!("the process exited with {}", libc::WEXITSTATUS(st)));
        }
        Ok(())
    }
}

const NONE: u64 = u64::MAX;

/// Distinct operations of the reduced alphabet for longer histories.
fn reduced(ops: &[Op], per: usize) -> Vec<usize> {
    let mut seen: std::collections::HashMap<&str, Vec<usize>> = Default::default();
    for (i, o) in ops.iter().enumerate() {
        seen.entry(o.group).or_default().push(i);
    }
    let mut keys: Vec<&&str> = seen.keys().collect();
    keys.sort();
    let mut r = vec![];
    for k in keys {
        let v = &seen[*k];
        // spread over the group
        let n = per.min(v.len());
        for t in 0..n {
            r.push(v[t * v.len() / n]);
        }
    }
    r.sort();
    r
}

pub fn c22(ctx: &Ctx) {
    let ops = alphabet();
    let n = ops.len();
    let ops: &'static [Op] = Box::leak(ops.into_boxed_slice());
    ctx.count("operations", n as u64);
    // what each operation gives in a process that has done nothing else
    let base = shared_words(n);
    for i in 0..n {
        base[i].store(NONE, SeqCst);
    }
    let fresh = |i: usize| -> Result<u64, String> {
        if base[i].load(SeqCst) == NONE {
            in_child(60, || base[i].store(run(&ops[i]), SeqCst)).map_err(|e| format!("{} alone: {}", ops[i].name, e))?;
        }
        Ok(base[i].load(SeqCst))
    };
    ctx.scope_forked("alone", n as u64, "every operation in two processes of its own, and repeated there", |i, c| {
        let i = i as usize;
        let w = fresh(i)?;
        let out = shared_words(3);
        let reps = ctx.tier(200, 2000);
        let r = in_child(120, || {
            out[0].store(run(&ops[i]), SeqCst);
            for k in 0..reps {
                let h = run(&ops[i]);
                if h != w {
                    out[1].store(k + 1, SeqCst);
                    break;
                }
            }
            let h = std::thread::spawn(move || run(&ops[i])).join().unwrap_or(1);
            out[2].store(h, SeqCst);
        });
        r.map_err(|e| format!("{}: {}", ops[i].name, e))?;
        c.steps(reps);
        c.eq(out[0].load(SeqCst), w, || format!("{} differs between two fresh processes", ops[i].name))?;
        c.eq(out[1].load(SeqCst), 0, || format!("{} changed on repetition", ops[i].name))?;
        c.eq(out[2].load(SeqCst), w, || format!("{} differs on a second thread", ops[i].name))?;
        c.out(w);
        release_words(out);
        c.sample(|| ops[i].name.clone());
        Ok(())
    });
    if ctx.replay.is_none() && !ctx.violations.lock().unwrap().is_empty() {
        return;
    }
    // every ordered pair, each in a fresh process
    ctx.scope_forked("pairs", n as u64, "every ordered pair of operations in a fresh process: second, first again, and second on another thread, as when alone", |i, c| {
        let a = i as usize;
        for k in 0..n {
            fresh(k)?;
        }
        let out = shared_words(4);
        let bad = shared_words(1);
        bad[0].store(NONE, SeqCst);
        let r = in_child(600, || {
            let ra = run(&ops[a]);
            if ra != base[a].load(SeqCst) {
                out[0].store(ra, SeqCst);
                bad[0].store(a as u64 | 3 << 32, SeqCst);
                return;
            }
            for k in 0..n {
                let e = in_child(60, || {
                    let rb = run(&ops[k]);
                    let ra2 = run(&ops[a]);
                    let rb2 = if ops[k].group == ops[a].group || ops[k].group == "integrate" { std::thread::spawn(move || run(&ops[k])).join().unwrap_or(1) } else { rb };
                    let kind = if rb != base[k].load(SeqCst) {
                        0u64
                    } else if ra2 != base[a].load(SeqCst) {
                        1
                    } else if rb2 != base[k].load(SeqCst) {
                        2
                    } else {
                        return;
                    };
                    bad[0].store(k as u64 | kind << 32, SeqCst);
                });
                if e.is_err() {
                    bad[0].store(k as u64 | 4 << 32, SeqCst);
                }
                if bad[0].load(SeqCst) != NONE {
                    return;
                }
            }
        });
        r.map_err(|e| format!("pairs after {}: {}", ops[a].name, e))?;
        let v = bad[0].load(SeqCst);
        if v != NONE {
            let (k, kind) = ((v & 0xffff_ffff) as usize, v >> 32);
            return Err(match kind {
                0 => format!("\"{}\" gives another result after \"{}\" than when called alone", ops[k].name, ops[a].name),
                1 => format!("\"{}\" changed its result after \"{}\" was called", ops[a].name, ops[k].name),
                2 => format!("\"{}\" on a second thread gives another result after \"{}\"", ops[k].name, ops[a].name),
                3 => format!("\"{}\" gives another result than in the first run alone", ops[a].name),
                _ => format!("\"{}\" after \"{}\" crashed or did not return", ops[k].name, ops[a].name),
            });
        }
        c.states = n as u64;
        c.steps(3 * n as u64);
        release_words(out);
        release_words(bad);
        c.sample(|| format!("\"{}\" followed by each of {} operations", ops[a].name, n));
        Ok(())
    });
    // one long history in which every ordered pair of operations is adjacent
    let mut seq: Vec<u32> = vec![];
    for i in 0..n {
        seq.push(i as u32);
        for j in i + 1..n {
            seq.push(i as u32);
            seq.push(j as u32);
        }
    }
    seq.push(0);
    let seg = 16usize;
    let per = seq.len() / seg + 1;
    ctx.scope_forked("long-history", seg as u64, "histories of thousands of calls; together every ordered pair of operations is adjacent once", |i, c| {
        for k in 0..n {
            fresh(k)?;
        }
        let lo = i as usize * per;
        let hi = (lo + per + 1).min(seq.len());
        let bad = shared_words(1);
        bad[0].store(NONE, SeqCst);
        let r = in_child(900, || {
            for t in lo..hi {
                let k = seq[t] as usize;
                if run(&ops[k]) != base[k].load(SeqCst) {
                    bad[0].store(t as u64, SeqCst);
                    return;
                }
            }
        });
        r?;
        let v = bad[0].load(SeqCst);
        if v != NONE {
            let t = v as usize;
            let k = seq[t] as usize;
            let prev = if t > lo { ops[seq[t - 1] as usize].name.as_str() } else { "nothing" };
            return Err(format!("\"{}\" gives another result at call {} of a long history (just after \"{}\") than when called alone", ops[k].name, t - lo, prev));
        }
        c.states = (hi - lo) as u64;
        c.steps((hi - lo) as u64);
        release_words(bad);
        Ok(())
    });
    // triples over a reduced alphabet
    let red = reduced(ops, ctx.tier(2, 4));
    let m = red.len();
    ctx.scope_forked("triples", (m * m) as u64, "every ordered triple of operations of a reduced alphabet, each history in a fresh process", |i, c| {
        let mut x = Mix(i);
        let (p, q) = (red[x.pick(m)], red[x.pick(m)]);
        for k in [p, q] {
            fresh(k)?;
        }
        let bad = shared_words(1);
        bad[0].store(NONE, SeqCst);
        let r = in_child(300, || {
            if run(&ops[p]) != base[p].load(SeqCst) || run(&ops[q]) != base[q].load(SeqCst) {
                bad[0].store(q as u64, SeqCst);
                return;
            }
            for k in &red {
                let k = *k;
                let e = in_child(60, || {
                    if run(&ops[k]) != base[k].load(SeqCst) {
                        bad[0].store(k as u64, SeqCst);
                    }
                });
                if e.is_err() {
                    bad[0].store(k as u64, SeqCst);
                }
                if bad[0].load(SeqCst) != NONE {
                    return;
                }
            }
        });
        r?;
        let v = bad[0].load(SeqCst);
        if v != NONE {
            return Err(format!("\"{}\" gives another result after \"{}\" and \"{}\" than when called alone", ops[v as usize].name, ops[p].name, ops[q].name));
        }
        c.states = m as u64;
        c.steps(m as u64);
        release_words(bad);
        Ok(())
    });
    interleavings(ctx, ops, base, &fresh);
    ctx.assume("the interleaving search preempts one caller once, at instruction boundaries inside the compiled crate and the Rust runtime, and runs the other caller as far as it goes; weak-memory reorderings are not modelled");
}

// ----------------------------------------------------------------------------- interleavings

/// State of the single-stepped caller.
struct Stepper {
    lo: usize,
    hi: usize,
    visits: *mut u8,
    max_visits: u8,
    op_a: usize,
    op_b: usize,
    ops: &'static [Op],
    base: &'static [AtomicU64],
    /// 0: schedules, 1: steps, 2: blocked schedules, 3: failure kind, 4: failing pc, 5: result of B, 6: B finished, 7: B tid
    log: &'static [AtomicU64],
    /// in a forked schedule: B's thread
    b_thread: libc::pthread_t,
    child: bool,
    active: bool,
}
static mut ST: *mut Stepper = std::ptr::null_mut();
static DONE_B: AtomicUsize = AtomicUsize::new(0);
static RES_B: AtomicU64 = AtomicU64::new(0);
static TID_B: AtomicU64 = AtomicU64::new(0);

extern "C" fn b_main(_: *mut libc::c_void) -> *mut libc::c_void {
    let st = unsafe { &*ST };
    TID_B.store(unsafe { libc::syscall(libc::SYS_gettid) } as u64, SeqCst);
    let r = run(&st.ops[st.op_b]);
    RES_B.store(r, SeqCst);
    DONE_B.store(1, SeqCst);
    std::ptr::null_mut()
}

fn thread_sleeping(tid: u64) -> bool {
    // /proc/self/task/<tid>/stat, third field
    let mut path = [0u8; 64];
    let s = format!("/proc/self/task/{}/stat\0", tid);
    path[..s.len()].copy_from_slice(s.as_bytes());
    let mut buf = [0u8; 256];
    unsafe {
        let fd = libc::open(path.as_ptr() as *const libc::c_char, libc::O_RDONLY);
        if fd < 0 {
            return false;
        }
        let n = libc::read(fd, buf.as_mut_ptr() as *mut libc::c_void, 255);
        libc::close(fd);
        if n <= 0 {
            return false;
        }
        match buf[..n as usize].iter().rposition(|c| *c == b')') {
            Some(p) if p + 2 < n as usize => buf[p + 2] == b'S',
            _ => false,
        }
    }
}

extern "C" fn on_trap(_: i32, _: *mut libc::siginfo_t, uc: *mut libc::c_void) {
    unsafe {
        let st = &mut *ST;
        let uc = &mut *(uc as *mut libc::ucontext_t);
        let regs = &mut uc.uc_mcontext.gregs;
        if !st.active {
            regs[libc::REG_EFL as usize] &= !0x100;
            return;
        }
        let pc = regs[libc::REG_RIP as usize] as usize;
        st.log[1].fetch_add(1, Relaxed);
        if pc < st.lo || pc >= st.hi {
            return;
        }
        let v = st.visits.add(pc - st.lo);
        if *v >= st.max_visits {
            return;
        }
        *v += 1;
        st.log[0].fetch_add(1, Relaxed);
        let pid = libc::fork();
        if pid == 0 {
            // this schedule: the other caller runs now, then A continues freely
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            libc::alarm(60);
            st.child = true;
            st.active = false;
            regs[libc::REG_EFL as usize] &= !0x100;
            let mut th: libc::pthread_t = 0;
            if libc::pthread_create(&mut th, std::ptr::null(), b_main, std::ptr::null_mut()) != 0 {
                libc::_exit(90);
            }
            st.b_thread = th;
            let mut idle = 0;
            let mut spins = 0u64;
            while DONE_B.load(SeqCst) == 0 {
                spins += 1;
                if spins < 200 {
                    libc::sched_yield();
                    continue;
                }
                let ts = libc::timespec { tv_sec: 0, tv_nsec: 100_000 };
                libc::nanosleep(&ts, std::ptr::null_mut());
                let tid = TID_B.load(SeqCst);
                if tid != 0 && thread_sleeping(tid) {
                    idle += 1;
                    if idle >= 3 {
                        st.log[2].fetch_add(1, Relaxed);
                        break;
                    }
                } else {
                    idle = 0;
                }
            }
            return;
        }
        if pid < 0 {
            libc::_exit(91);
        }
        let mut s = 0;
        while libc::waitpid(pid, &mut s, 0) < 0 {}
        let kind = if libc::WIFSIGNALED(s) {
            if libc::WTERMSIG(s) == libc::SIGALRM {
                1
            } else {
                2
            }
        } else {
            match libc::WEXITSTATUS(s) {
                0 => 0,
                40 => 3,
                41 => 4,
                42 => 5,
                _ => 6,
            }
        };
        if kind == 6 {
            libc::_exit(92);
        }
        if kind != 0 && st.log[3].load(Relaxed) == 0 {
            st.log[3].store(kind, Relaxed);
            st.log[4].store((pc - st.lo) as u64, Relaxed);
            st.active = false;
            regs[libc::REG_EFL as usize] &= !0x100;
        }
    }
}

#[inline(never)]
fn stepping_on() {
    unsafe {
        std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq", "nop");
    }
}

fn text_range() -> (usize, usize) {
    let m = std::fs::read_to_string("/proc/self/maps").unwrap_or_default();
    let me = on_trap as *const () as usize;
    for l in m.lines() {
        let mut f = l.split_whitespace();
        let (r, p) = (f.next().unwrap_or(""), f.next().unwrap_or(""));
        if let Some((a, z)) = r.split_once('-') {
            let (a, z) = (usize::from_str_radix(a, 16).unwrap_or(0), usize::from_str_radix(z, 16).unwrap_or(0));
            if p.contains('x') && a <= me && me < z {
                return (a, z);
            }
        }
    }
    (0, 0)
}

/// What was called before the two callers meet.
#[derive(Clone, Copy, PartialEq)]
enum Warm {
    Cold,
    FirstThenSecond,
    SecondThenFirst,
}

/// Controller: runs in its own process.
fn explore_pair(ops: &'static [Op], base: &'static [AtomicU64], log: &'static [AtomicU64], a: usize, bq: usize, warm: Warm, visits: u8) {
    let (lo, hi) = text_range();
    if lo == 0 {
        unsafe { libc::_exit(93) };
    }
    match warm {
        Warm::Cold => {}
        Warm::FirstThenSecond => {
            run(&ops[a]);
            run(&ops[bq]);
        }
        Warm::SecondThenFirst => {
            run(&ops[bq]);
            run(&ops[a]);
        }
    }
    let table: &'static mut [u8] = Box::leak(vec![0u8; hi - lo].into_boxed_slice());
    let st = Box::leak(Box::new(Stepper {
        lo,
        hi,
        visits: table.as_mut_ptr(),
        max_visits: visits,
        op_a: a,
        op_b: bq,
        ops,
        base,
        log,
        b_thread: 0,
        child: false,
        active: true,
    }));
    unsafe {
        ST = st;
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_trap as *const () as usize;
        sa.sa_flags = libc::SA_SIGINFO;
        libc::sigaction(libc::SIGTRAP, &sa, std::ptr::null_mut());
    }
    stepping_on();
    let ra = run(&ops[a]);
    let st = unsafe { &mut *ST };
    st.active = false; // the next trap switches stepping off
    std::hint::black_box(&st);
    if st.child {
        unsafe {
            libc::pthread_join(st.b_thread, std::ptr::null_mut());
            let rb = RES_B.load(SeqCst);
            let okb = rb == st.base[st.op_b].load(SeqCst);
            let oka = ra == st.base[st.op_a].load(SeqCst);
            // and once more, now that both have finished: whichever comes first
            let mut again = oka && okb;
            if again && a != bq {
                let pid = libc::fork();
                if pid == 0 {
                    libc::alarm(60);
                    libc::_exit((run(&ops[bq]) != st.base[st.op_b].load(SeqCst)) as i32);
                }
                let mut s = 0;
                while pid > 0 && libc::waitpid(pid, &mut s, 0) < 0 {}
                again = pid > 0 && s == 0;
            }
            again = again && run(&ops[a]) == st.base[st.op_a].load(SeqCst) && run(&ops[bq]) == st.base[st.op_b].load(SeqCst);
            libc::_exit(if !oka {
                40
            } else if !okb {
                41
            } else if !again {
                42
            } else {
                0
            });
        }
    }
    if ra != st.base[a].load(SeqCst) && st.log[3].load(Relaxed) == 0 {
        st.log[3].store(7, Relaxed);
    }
}

fn interleavings(ctx: &Ctx, ops: &'static [Op], base: &'static [AtomicU64], fresh: &(dyn Fn(usize) -> Result<u64, String> + Sync)) {
    let avx = cfg!(target_feature = "avx");
    let find = |name: &str| ops.iter().position(|o| o.name == name).unwrap_or_else(|| panic!("no operation {}", name));
    let mut pairs: Vec<(usize, usize, Warm)> = vec![];
    // within an area: ordered pairs of calls with different arguments
    let areas: Vec<Vec<&str>> = vec![
        vec!["to_xyz 0 D65", "to_xyz 1 light 1"],
        vec!["to_xyz 6 D65", "to_xyz 7 D50"],
        vec!["to_xyz 8 light 2", "to_xyz 12 observer 1"],
        vec!["to_xyz 0 D65", "to_xyz 0 D50"],
        vec!["to_xyz 6 observer 0", "to_xyz 6 observer 2"],
        vec!["rgb_to_rgb_matrix SRGB -> DCI_P3", "rgb_to_rgb_matrix ACES -> ALEXA_WIDE_GAMUT"],
        vec!["rgb_to_rgb slice 0 SRGB -> DCI_P3", "rgb_to_rgb slice 3 ACES -> ALEXA_WIDE_GAMUT"],
        vec!["rgb_to_rgb slice f32 to bytes 0", "rgb_to_rgb slice f32 to bytes 3"],
        vec!["xyz_to_rgb_matrix white 0 SRGB", "xyz_to_rgb_matrix white 5 ACES"],
        vec!["rgb_to_xyz_matrix white 0 SRGB", "rgb_to_xyz_matrix white 1 SRGB"],
        vec!["cat02 0 5", "cat02 5 0"],
        vec!["bradford 0 5", "bradford 0 1"],
        vec!["von_kries 0 5", "von_kries 1 5"],
        vec!["ColorSpaceRGB::new 0", "ColorSpaceRGB::new 2"],
        vec!["ColorSpaceRGB::new f32 0", "ColorSpaceRGB::new f32 3"],
        vec!["encode SRGB", "encode SRGB colour 1"],
        vec!["decode ALEXA_WIDE_GAMUT", "decode SRGB colour 0"],
        vec!["f32 encode ITUR_BT2020", "f32 encode ADOBE_RGB_1998"],
        vec!["inverse 0", "inverse 2"],
        vec!["gj_inverse 0", "gj_inverse 3"],
        vec!["f32 inverse 0", "f32 inverse 1"],
        vec!["xyz_to_lab 0", "xyz_to_lab 1"],
        vec!["lab_to_xyz 0", "lab_to_xyz 1"],
        vec!["delta_E_2000 0", "delta_E_2000 3"],
        vec!["f32 delta_E_2000 0", "f32 delta_E_2000 2"],
        vec!["xyz from xyY 0", "xyz from xyY 5"],
        vec!["cct 0", "cct 4"],
        vec!["f32 cct 0", "f32 cct 2"],
        vec!["quantise 0", "quantise 2"],
        vec!["operators 0", "operators 3"],
        vec!["create 0", "create 12"],
        vec!["align 0 to 0", "align 1 to 1"],
        vec!["align 12 to 0", "align 6 to 4"],
        vec!["interpolate 0", "interpolate 6"],
        vec!["extrapolate 0", "trim 6"],
        vec!["sprague 0", "sprague 1"],
        vec!["spd_to_nit 0", "spd_to_nit other observer"],
        vec!["coefficients 0", "coefficients 2"],
        vec!["linspace 0", "linspace 2"],
        vec!["SPD::to_xyz 0", "SPD::to_xyz 3"],
        vec!["SPD product 0", "SPD product 1"],
        vec!["uplift 0", "uplift 2"],
        vec!["my_basis", "uplift 4"],
    ];
    for a in areas.iter().filter(|a| !avx || a.iter().all(|n| n.starts_with("SPD"))) {
        let (p, q) = (find(a[0]), find(a[1]));
        for w in [Warm::Cold, Warm::FirstThenSecond, Warm::SecondThenFirst] {
            pairs.push((p, q, w));
            if ctx.thorough {
                pairs.push((q, p, w));
                pairs.push((p, p, w));
            } else if w == Warm::Cold {
                pairs.push((p, p, w));
            }
        }
    }
    // calls of one function: each against the next (quick) or every other one of its arguments
    let family = |o: &Op| -> String { o.name.chars().filter(|c| !c.is_ascii_digit()).collect() };
    let cheap = ["daylight", "xyy", "difference", "lab", "matrix", "arith", "curve", "adapt", "xyz-matrix", "lagrange", "construct", "planes", "fixed"];
    let mut fams: std::collections::BTreeMap<String, Vec<usize>> = Default::default();
    for (i, o) in ops.iter().enumerate().filter(|(_, o)| cheap.contains(&o.group)) {
        fams.entry(family(o)).or_default().push(i);
    }
    for v in fams.values().filter(|v| v.len() > 1) {
        for i in 0..v.len() {
            for j in 0..v.len() {
                if i == j || !(ctx.thorough || j == (i + 1) % v.len()) {
                    continue;
                }
                pairs.push((v[i], v[j], Warm::SecondThenFirst));
                if ctx.thorough {
                    pairs.push((v[i], v[j], Warm::FirstThenSecond));
                }
            }
        }
    }
    // concurrent first uses of tables, and of operations that need several of them
    let tabs = ["observer", "D65", "chart spectra", "chart linear", "weights", "babelcolor", "to_xyz 0 D65", "rgb_to_rgb_matrix SRGB -> DCI_P3", "SPD::to_xyz 0"];
    let tabs: Vec<&str> = tabs.into_iter().filter(|n| !avx || ["weights", "SPD::to_xyz 0"].contains(n)).collect();
    for (i, p) in tabs.iter().enumerate() {
        for (j, q) in tabs.iter().enumerate() {
            if ctx.thorough || i == j || (i + 1) % tabs.len() == j || i == (j + 3) % tabs.len() {
                pairs.push((find(p), find(q), Warm::Cold));
            }
        }
    }
    let visits = ctx.tier(1u8, 4);
    let begun = std::time::Instant::now();
    // seconds left of the 700 since the check (both configurations) began
    let now = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map(|d| d.as_secs()).unwrap_or(0);
    let t0 = std::env::var("MC_T0").ok().and_then(|v| v.parse::<u64>().ok()).unwrap_or(now);
    let budget = if avx { 120 } else { 700u64.saturating_sub(now.saturating_sub(t0)).min(480) };
    ctx.scope_forked(
        "interleave",
        pairs.len() as u64,
        "one caller preempted at every instruction (first visits of each address) by another caller that runs to completion or blocks, from cold and warm states: both results as when alone",
        |i, c| {
            let (p, q, warm) = pairs[i as usize];
            // only a machine several times slower than the one this was sized on gets here; the
            // pairs left out are counted in the evidence
            if !ctx.thorough && begun.elapsed().as_secs() > budget {
                c.ctx.count("pairs_left_out_for_lack_of_time", 1);
                return c.skip();
            }
            fresh(p)?;
            fresh(q)?;
            let log = shared_words(8);
            in_child(850, || explore_pair(ops, base, log, p, q, warm, visits)).map_err(|e| format!("stepping \"{}\" against \"{}\": {}", ops[p].name, ops[q].name, e))?;
            let l = |k: usize| log[k].load(SeqCst);
            let kind = l(3);
            let what = || format!("\"{}\" preempted at code offset {:#x} (schedule {}) by \"{}\" ({})", ops[p].name, l(4), l(0), ops[q].name, match warm { Warm::Cold => "first calls", Warm::FirstThenSecond => "both called before, in this order", Warm::SecondThenFirst => "both called before, the second first" });
            if kind != 0 {
                return Err(match kind {
                    1 => format!("{}: deadlock", what()),
                    2 => format!("{}: crash", what()),
                    3 => format!("{}: the preempted call returns another result", what()),
                    4 => format!("{}: the preempting call returns another result", what()),
                    5 => format!("{}: a later call returns another result", what()),
                    _ => format!("\"{}\" returns another result when single-stepped", ops[p].name),
                });
            }
            c.states = l(0).max(1);
            c.steps(2 * l(0));
            c.ctx.count("schedules", l(0));
            c.ctx.count("schedules_where_second_caller_waited", l(2));
            c.ctx.count("instructions_stepped", l(1));
            c.sample(|| format!("{} and {}: {} schedules over {} instructions, {} waited", ops[p].name, ops[q].name, l(0), l(1), l(2)));
            release_words(log);
            Ok(())
        },
    );
}
