//! Reference models, written from the published definitions in plain f64.

pub type V3 = [f64; 3];
pub type M3 = [[f64; 3]; 3];

pub fn m_mul(a: &M3, b: &M3) -> M3 {
    let mut r = [[0.0; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            r[i][j] = a[i][0] * b[0][j] + a[i][1] * b[1][j] + a[i][2] * b[2][j];
        }
    }
    r
}
pub fn m_vec(a: &M3, v: &V3) -> V3 {
    [
        a[0][0] * v[0] + a[0][1] * v[1] + a[0][2] * v[2],
        a[1][0] * v[0] + a[1][1] * v[1] + a[1][2] * v[2],
        a[2][0] * v[0] + a[2][1] * v[1] + a[2][2] * v[2],
    ]
}
pub fn m_det(a: &M3) -> f64 {
    a[0][0] * (a[1][1] * a[2][2] - a[1][2] * a[2][1]) - a[0][1] * (a[1][0] * a[2][2] - a[1][2] * a[2][0])
        + a[0][2] * (a[1][0] * a[2][1] - a[1][1] * a[2][0])
}
pub fn m_inv(a: &M3) -> M3 {
    let d = m_det(a);
    let c = |i: usize, j: usize| {
        let (r0, r1) = ((i + 1) % 3, (i + 2) % 3);
        let (c0, c1) = ((j + 1) % 3, (j + 2) % 3);
        a[r0][c0] * a[r1][c1] - a[r0][c1] * a[r1][c0]
    };
    let mut r = [[0.0; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            r[j][i] = c(i, j) / d;
        }
    }
    r
}
pub fn m_from(x: &[f64; 9]) -> M3 {
    [[x[0], x[1], x[2]], [x[3], x[4], x[5]], [x[6], x[7], x[8]]]
}
pub fn m_maxabs(a: &M3) -> f64 {
    // NaN-propagating: a singular matrix has no finite norm of its inverse
    a.iter().flatten().fold(0.0f64, |m, v| if v.is_nan() || m.is_nan() { f64::NAN } else { m.max(v.abs()) })
}

// ---------------------------------------------------------------- transfer curves

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Curve {
    Linear,
    Srgb,
    Bt709,
    Gamma(f64),
    LogC,
}

/// (value, break point of the branch condition, value of the other branch there)
impl Curve {
    pub fn enc_branches(&self, x: f64) -> (f64, f64) {
        match *self {
            Curve::Linear => (x, x),
            Curve::Gamma(g) => (x.powf(1.0 / g), x.powf(1.0 / g)),
            Curve::Srgb => (12.92 * x, 1.055 * x.powf(1.0 / 2.4) - 0.055),
            Curve::Bt709 => (4.5 * x, 1.099 * x.powf(0.45) - 0.099),
            Curve::LogC => (5.367655 * x + 0.092809, 0.247190 * (5.555556 * x + 0.052272).log10() + 0.385537),
        }
    }
    pub fn dec_branches(&self, y: f64) -> (f64, f64) {
        match *self {
            Curve::Linear => (y, y),
            Curve::Gamma(g) => (y.powf(g), y.powf(g)),
            Curve::Srgb => (y / 12.92, ((y + 0.055) / 1.055).powf(2.4)),
            Curve::Bt709 => (y / 4.5, ((y + 0.099) / 1.099).powf(1.0 / 0.45)),
            Curve::LogC => ((y - 0.092809) / 5.367655, (10f64.powf((y - 0.385537) / 0.247190) - 0.052272) / 5.555556),
        }
    }
    /// where the two segments meet: linear value, encoded values on which the
    /// segment is a matter of convention
    pub fn enc_break(&self) -> f64 {
        match self {
            Curve::Srgb => 0.0031308,
            Curve::Bt709 => 0.018,
            Curve::LogC => 0.010591,
            _ => f64::NEG_INFINITY,
        }
    }
    pub fn dec_break(&self) -> f64 {
        match self {
            Curve::Srgb => 0.0031308 * 12.92,
            Curve::Bt709 => 0.018 * 4.5,
            Curve::LogC => 0.149658,
            _ => f64::NEG_INFINITY,
        }
    }
    /// Expected encoded value; None for the second element unless x is so close
    /// to the break that either segment is acceptable.
    pub fn encode(&self, x: f64, eps: f64) -> (f64, Option<f64>) {
        let (a, b) = self.enc_branches(x);
        let t = self.enc_break();
        if t == f64::NEG_INFINITY {
            return (a, None);
        }
        let d = (x - t).abs();
        if d <= 4.0 * eps * t {
            (a, Some(b))
        } else if x <= t {
            (a, None)
        } else {
            (b, None)
        }
    }
    pub fn decode(&self, y: f64, eps: f64) -> (f64, Option<f64>) {
        let (a, b) = self.dec_branches(y);
        let t = self.dec_break();
        if t == f64::NEG_INFINITY {
            return (a, None);
        }
        // sRGB may be split at the rounded constant 0.04045 of the standard as well
        let slack = if *self == Curve::Srgb { 1.0e-7 } else { 4.0 * eps * t };
        if (y - t).abs() <= slack {
            (a, Some(b))
        } else if y <= t {
            (a, None)
        } else {
            (b, None)
        }
    }
}

// ---------------------------------------------------------------- colour spaces

pub struct SpaceDef {
    pub name: &'static str,
    pub r: [f64; 2],
    pub g: [f64; 2],
    pub b: [f64; 2],
    pub w: [f64; 2],
    /// published XYZ->RGB and RGB->XYZ matrices, where the standard prints them
    pub mats: Option<([f64; 9], [f64; 9])>,
    /// how far the product of the published matrices is from the identity
    pub dev: f64,
}

const D65: [f64; 2] = [0.3127, 0.3290];
const ACESW: [f64; 2] = [0.32168, 0.33767];

pub fn space_defs() -> Vec<SpaceDef> {
    let s = |name, r, g, b, w, mats, dev| SpaceDef { name, r, g, b, w, mats, dev };
    vec![
        s(
            "SRGB",
            [0.64, 0.33],
            [0.30, 0.60],
            [0.15, 0.06],
            D65,
            Some((
                [3.2406, -1.5372, -0.4986, -0.9689, 1.8758, 0.0415, 0.0557, -0.2040, 1.0570],
                [0.4124, 0.3576, 0.1805, 0.2126, 0.7152, 0.0722, 0.0193, 0.1192, 0.9505],
            )),
            5e-5,
        ),
        s("SRGB_DRV", [0.64, 0.33], [0.30, 0.60], [0.15, 0.06], D65, None, 1e-14),
        s("ITUR_BT709", [0.64, 0.33], [0.30, 0.60], [0.15, 0.06], D65, None, 1e-14),
        s("ITUR_BT2020", [0.708, 0.292], [0.170, 0.797], [0.131, 0.046], D65, None, 1e-14),
        s("DCI_P3", [0.680, 0.320], [0.265, 0.690], [0.150, 0.060], [0.314, 0.351], None, 1e-14),
        s("DCI_P3_D65", [0.680, 0.320], [0.265, 0.690], [0.150, 0.060], D65, None, 1e-14),
        s(
            "ACES",
            [0.7347, 0.2653],
            [0.0, 1.0],
            [0.0001, -0.0770],
            ACESW,
            Some((
                [1.0498110175, 0.0, -0.0000974845, -0.4959030231, 1.3733130458, 0.0982400361, 0.0, 0.0, 0.9912520182],
                [0.9525523959, 0.0, 0.0000936786, 0.3439664498, 0.7281660966, -0.0721325464, 0.0, 0.0, 1.0088251844],
            )),
            1e-9,
        ),
        s("ACES_CG", [0.713, 0.293], [0.165, 0.830], [0.128, 0.044], ACESW, None, 1e-14),
        s(
            "ADOBE_RGB_1998",
            [0.64, 0.33],
            [0.21, 0.71],
            [0.15, 0.06],
            D65,
            Some((
                [2.04159, -0.56501, -0.34473, -0.96924, 1.87597, 0.04156, 0.01344, -0.11836, 1.01517],
                [0.57667, 0.18556, 0.18823, 0.29734, 0.62736, 0.07529, 0.02703, 0.07069, 0.99134],
            )),
            1.0e-5,
        ),
        s(
            "ALEXA_WIDE_GAMUT",
            [0.6840, 0.3130],
            [0.2210, 0.8480],
            [0.0861, -0.1020],
            D65,
            Some((
                [1.789066, -0.482534, -0.200076, -0.639849, 1.396400, 0.194432, -0.041532, 0.082335, 0.878868],
                [0.638008, 0.214704, 0.097744, 0.291954, 0.823841, -0.115795, 0.002798, -0.067034, 1.153294],
            )),
            2.0e-6,
        ),
    ]
}

/// RGB -> XYZ from primaries and white (unit luminance white), by solving
/// P * s = w for the primary scales.
pub fn derive_rgb_to_xyz(r: [f64; 2], g: [f64; 2], b: [f64; 2], w: [f64; 2]) -> M3 {
    let z = |p: [f64; 2]| 1.0 - p[0] - p[1];
    let p: M3 = [[r[0], g[0], b[0]], [r[1], g[1], b[1]], [z(r), z(g), z(b)]];
    let s = m_vec(&m_inv(&p), &[w[0] / w[1], 1.0, z(w) / w[1]]);
    let mut m = p;
    for i in 0..3 {
        for j in 0..3 {
            m[i][j] = p[i][j] * s[j];
        }
    }
    m
}

impl SpaceDef {
    /// (XYZ->RGB, RGB->XYZ) with white at Y = 1
    pub fn matrices(&self) -> (M3, M3) {
        match &self.mats {
            Some((a, b)) => (m_from(a), m_from(b)),
            None => {
                let m = derive_rgb_to_xyz(self.r, self.g, self.b, self.w);
                (m_inv(&m), m)
            }
        }
    }
}

pub fn xy_to_xyz(p: [f64; 2]) -> V3 {
    [p[0] / p[1], 1.0, (1.0 - p[0] - p[1]) / p[1]]
}

// ---------------------------------------------------------------- adaptation

pub const BRADFORD: M3 = [[0.8951, 0.2664, -0.1614], [-0.7502, 1.7135, 0.0367], [0.0389, -0.0685, 1.0296]];
pub const VON_KRIES: M3 = [[0.40024, 0.7076, -0.08081], [-0.2263, 1.16532, 0.0457], [0.0, 0.0, 0.91822]];
pub const CAT02: M3 = [[0.7328, 0.4296, -0.1624], [-0.7036, 1.6975, 0.0061], [0.0030, 0.0136, 0.9834]];

pub fn adapt(cone: &M3, a: &V3, b: &V3) -> M3 {
    let (ca, cb) = (m_vec(cone, a), m_vec(cone, b));
    let d: M3 = [[cb[0] / ca[0], 0.0, 0.0], [0.0, cb[1] / ca[1], 0.0], [0.0, 0.0, cb[2] / ca[2]]];
    m_mul(&m_mul(&m_inv(cone), &d), cone)
}

// ---------------------------------------------------------------- L*a*b*

pub const LAB_EPS: f64 = 216.0 / 24389.0;
pub const LAB_KAPPA: f64 = 24389.0 / 27.0;

pub fn lab_f(t: f64) -> f64 {
    if t > LAB_EPS {
        t.cbrt()
    } else {
        (LAB_KAPPA * t + 16.0) / 116.0
    }
}
pub fn lab_finv(f: f64) -> f64 {
    if f > 6.0 / 29.0 {
        f * f * f
    } else {
        (116.0 * f - 16.0) / LAB_KAPPA
    }
}
pub fn ref_xyz_to_lab(v: &V3, w: &V3) -> V3 {
    let f: Vec<f64> = (0..3).map(|k| lab_f(v[k] / w[k])).collect();
    [116.0 * f[1] - 16.0, 500.0 * (f[0] - f[1]), 200.0 * (f[1] - f[2])]
}
pub fn ref_lab_to_xyz(l: &V3, w: &V3) -> V3 {
    let fy = (l[0] + 16.0) / 116.0;
    [w[0] * lab_finv(fy + l[1] / 500.0), w[1] * lab_finv(fy), w[2] * lab_finv(fy - l[2] / 200.0)]
}

/// CIEDE2000 after Sharma, Wu and Dalal (2005). Returns every value the formula
/// may take when the hue difference is within `ang` degrees of 180.
pub fn ref_de2000(p: &V3, q: &V3, ang: f64) -> Vec<f64> {
    let c1 = (p[1] * p[1] + p[2] * p[2]).sqrt();
    let c2 = (q[1] * q[1] + q[2] * q[2]).sqrt();
    let cm7 = ((c1 + c2) / 2.0).powi(7);
    let k25 = 6103515625.0; // 25^7
    let g = 0.5 * (1.0 - (cm7 / (cm7 + k25)).sqrt());
    let (a1, a2) = (p[1] * (1.0 + g), q[1] * (1.0 + g));
    let (cp1, cp2) = ((a1 * a1 + p[2] * p[2]).sqrt(), (a2 * a2 + q[2] * q[2]).sqrt());
    let hue = |a: f64, b: f64| {
        if a == 0.0 && b == 0.0 {
            0.0
        } else {
            let h = b.atan2(a) * 180.0 / std::f64::consts::PI;
            if h < 0.0 {
                h + 360.0
            } else {
                h
            }
        }
    };
    let (h1, h2) = (hue(a1, p[2]), hue(a2, q[2]));
    let dl = q[0] - p[0];
    let dc = cp2 - cp1;
    let lm = (p[0] + q[0]) / 2.0;
    let cm = (cp1 + cp2) / 2.0;
    let mut hues: Vec<(f64, f64)> = vec![]; // (dh, mean hue)
    if cp1 == 0.0 || cp2 == 0.0 {
        hues.push((0.0, h1 + h2));
    } else {
        let d = h2 - h1;
        let straight = (d, (h1 + h2) / 2.0);
        let wrapped = (if d > 0.0 { d - 360.0 } else { d + 360.0 }, if h1 + h2 < 360.0 { (h1 + h2 + 360.0) / 2.0 } else { (h1 + h2 - 360.0) / 2.0 });
        if d.abs() <= 180.0 + ang {
            hues.push(straight);
        }
        if d.abs() > 180.0 - ang {
            hues.push(wrapped);
            // mean hue is 0 on one side of a 360 degree sum and 360 on the other
            if (h1 + h2 - 360.0).abs() <= 2.0 * ang {
                hues.push((wrapped.0, (h1 + h2 + 360.0) / 2.0));
                hues.push((wrapped.0, (h1 + h2 - 360.0) / 2.0));
            }
        }
    }
    let rad = |x: f64| x * std::f64::consts::PI / 180.0;
    hues.iter()
        .map(|(dh, hm)| {
            let dhh = 2.0 * (cp1 * cp2).sqrt() * rad(dh / 2.0).sin();
            let t = 1.0 - 0.17 * rad(hm - 30.0).cos() + 0.24 * rad(2.0 * hm).cos() + 0.32 * rad(3.0 * hm + 6.0).cos() - 0.20 * rad(4.0 * hm - 63.0).cos();
            let sl = 1.0 + 0.015 * (lm - 50.0) * (lm - 50.0) / (20.0 + (lm - 50.0) * (lm - 50.0)).sqrt();
            let sc = 1.0 + 0.045 * cm;
            let sh = 1.0 + 0.015 * cm * t;
            let cm7 = cm.powi(7);
            let rc = 2.0 * (cm7 / (cm7 + k25)).sqrt();
            let dt = 30.0 * (-((hm - 275.0) / 25.0) * ((hm - 275.0) / 25.0)).exp();
            let rt = -rad(2.0 * dt).sin() * rc;
            let (x, y, z) = (dl / sl, dc / sc, dhh / sh);
            (x * x + y * y + z * z + rt * y * z).max(0.0).sqrt()
        })
        .collect()
}
