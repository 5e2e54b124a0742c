//! C24: bundled tables. Every entry against the committed copy of the published
//! data, and every redundant form against the form it derives from.
use crate::core::*;
use crate::props::curves::spaces64;
use crate::props::spectra::spec_of;
use crate::refm::*;
use crate::refspec::*;
use colorspace::rgb::RGBf64;
use colorspace::vspd::VSPD;
use colorspace::xyz::XYZf64;
use colorspace::{cmf, colorchecker as cc, illuminant, spd, uplifting};
use std::collections::HashMap;

const GOLDEN: &str = include_str!("../../golden/tables.txt");

type Row = (String, Vec<f64>);

fn spectrum(out: &mut Vec<Row>, name: &str, s: &VSPD) {
    let p = spec_of(s);
    out.push((format!("{} shape", name), vec![p.shape.start, p.shape.end, p.shape.interval.unwrap_or(-1.0), p.nm.len() as f64]));
    out.push((format!("{} nm", name), p.nm));
    out.push((format!("{} v", name), p.v));
}

macro_rules! rgb_tables {
    ($f:ident: $($n:ident),* $(,)?) => {
        fn $f() -> Vec<(&'static str, &'static HashMap<String, RGBf64>)> {
            vec![$((stringify!($n), &*cc::$n as &HashMap<String, RGBf64>)),*]
        }
    };
}
rgb_tables!(linear: SRGB_LINEAR, ITUR_BT709_LINEAR, ALEXA_WIDE_GAMUT_LINEAR, ACES_CC_LINEAR, ACES_CCT_LINEAR, ACES_CG_LINEAR, ACES_LINEAR,
    ACES_PROXY_LINEAR, DCI_P3_P_LINEAR, DCI_P3_LINEAR, PRO_PHOTO_RGB_LINEAR, BETA_RGB_LINEAR, RED_COLOR_LINEAR, RED_COLOR2_LINEAR,
    RED_COLOR3_LINEAR, RED_COLOR4_LINEAR, DRAGON_COLOR_LINEAR, DRAGON_COLOR2_LINEAR, SHARP_RGB_LINEAR, ITUR_BT2020_LINEAR, ADOBE_RGB_1998_LINEAR);
rgb_tables!(encoded: SRGB_ENCODED, ITUR_BT709_ENCODED, ALEXA_WIDE_GAMUT_ENCODED, ACES_CC_ENCODED, ACES_CCT_ENCODED, ACES_CG_ENCODED, ACES_ENCODED,
    ACES_PROXY_ENCODED, DCI_P3_P_ENCODED, DCI_P3_ENCODED, PRO_PHOTO_RGB_ENCODED, BETA_RGB_ENCODED, RED_COLOR_ENCODED, RED_COLOR2_ENCODED,
    RED_COLOR3_ENCODED, RED_COLOR4_ENCODED, DRAGON_COLOR_ENCODED, DRAGON_COLOR2_ENCODED, SHARP_RGB_ENCODED, ITUR_BT2020_ENCODED, ADOBE_RGB_1998_ENCODED);
rgb_tables!(other: ACES_FROM_SRGB);

pub fn all() -> Vec<Row> {
    let mut o: Vec<Row> = vec![];
    let m = &*cmf::CIE_1931_2_DEGREE;
    spectrum(&mut o, "CIE_1931_2_DEGREE.x_bar", &m.x_bar);
    spectrum(&mut o, "CIE_1931_2_DEGREE.y_bar", &m.y_bar);
    spectrum(&mut o, "CIE_1931_2_DEGREE.z_bar", &m.z_bar);
    spectrum(&mut o, "illuminant D50", &illuminant::spd::D50);
    spectrum(&mut o, "illuminant D55", &illuminant::spd::D55);
    spectrum(&mut o, "illuminant D60", &illuminant::spd::D60);
    spectrum(&mut o, "illuminant D65", &illuminant::spd::D65);
    for (n, w) in [
        ("D50", illuminant::xy::D50),
        ("D55", illuminant::xy::D55),
        ("D60", illuminant::xy::D60),
        ("D65", illuminant::xy::D65),
        ("DCI_P3", illuminant::xy::DCI_P3),
        ("ACES", illuminant::xy::ACES),
    ] {
        o.push((format!("chromaticity {}", n), vec![w.x, w.y, w.Y]));
    }
    for (k, n) in cc::NAMES.iter().enumerate() {
        o.push((format!("name {}", n), vec![k as f64]));
    }
    spectrum(&mut o, "DARK_SKIN", &cc::DARK_SKIN);
    let mut keys: Vec<&String> = cc::SPECTRAL.keys().collect();
    keys.sort();
    for k in keys {
        spectrum(&mut o, &format!("SPECTRAL {}", k), &cc::SPECTRAL[k]);
    }
    let mut keys: Vec<&String> = cc::XYZ_D65.keys().collect();
    keys.sort();
    for k in keys {
        let v: XYZf64 = cc::XYZ_D65[k];
        o.push((format!("XYZ_D65 {}", k), vec![v.x, v.y, v.z]));
    }
    for (t, h) in linear().into_iter().chain(encoded()).chain(other()) {
        let mut keys: Vec<&String> = h.keys().collect();
        keys.sort();
        for k in keys {
            let v = h[k];
            o.push((format!("{} {}", t, k), vec![v.r, v.g, v.b]));
        }
    }
    let f = |s: &spd::SPD| s.values.iter().map(|v| *v as f64).collect::<Vec<f64>>();
    o.push(("W_X".into(), f(&spd::W_X)));
    o.push(("W_Y".into(), f(&spd::W_Y)));
    o.push(("W_Z".into(), f(&spd::W_Z)));
    let mut keys: Vec<&String> = spd::BABELCOLOR.keys().collect();
    keys.sort();
    for k in keys {
        o.push((format!("BABELCOLOR {}", k), f(&spd::BABELCOLOR[k])));
    }
    for (n, s) in [
        ("MY_RED", &*uplifting::MY_RED as &VSPD),
        ("MY_GREEN", &uplifting::MY_GREEN),
        ("MY_BLUE", &uplifting::MY_BLUE),
        ("SMITS_WHITE", &uplifting::SMITS_WHITE),
        ("SMITS_CYAN", &uplifting::SMITS_CYAN),
        ("SMITS_MAGENTA", &uplifting::SMITS_MAGENTA),
        ("SMITS_YELLOW", &uplifting::SMITS_YELLOW),
        ("SMITS_RED", &uplifting::SMITS_RED),
        ("SMITS_GREEN", &uplifting::SMITS_GREEN),
        ("SMITS_BLUE", &uplifting::SMITS_BLUE),
    ] {
        spectrum(&mut o, n, s);
    }
    let b = uplifting::my_basis();
    spectrum(&mut o, "my_basis red", &b.0);
    spectrum(&mut o, "my_basis green", &b.1);
    spectrum(&mut o, "my_basis blue", &b.2);
    o
}

pub fn dump() -> String {
    let mut s = String::new();
    for (n, v) in all() {
        s.push_str(&n);
        s.push('\t');
        s.push_str(&v.iter().map(|x| format!("{:?}", x)).collect::<Vec<_>>().join(" "));
        s.push('\n');
    }
    s
}

fn golden() -> Vec<Row> {
    GOLDEN
        .lines()
        .map(|l| {
            let (n, v) = l.split_once('\t').unwrap();
            (n.to_string(), v.split(' ').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect())
        })
        .collect()
}

fn r3(v: &RGBf64) -> V3 {
    [v.r, v.g, v.b]
}

/// XYZ (relative to D65, Y of white 100) to linear RGB of a space, adapted by CAT02.
fn lin_of(d: &SpaceDef, v: V3) -> V3 {
    let w65 = xy_to_xyz([0.3127, 0.3290]);
    let a = adapt(&CAT02, &w65, &xy_to_xyz(d.w));
    let (inv, _) = d.matrices();
    m_vec(&m_mul(&inv, &a), &[v[0] / 100.0, v[1] / 100.0, v[2] / 100.0])
}

pub fn c24(ctx: &Ctx) {
    let want = golden();
    let got: HashMap<String, Vec<f64>> = all().into_iter().collect();
    let total = all().len();
    ctx.scope("entries", want.len() as u64, "every row of every bundled table against the committed published data: presence, length and every value", |i, c| {
        let (n, w) = &want[i as usize];
        let g = got.get(n).ok_or_else(|| format!("{} is missing", n))?;
        c.eq(g.len(), w.len(), || format!("{}: entries", n))?;
        for (k, (g, w)) in g.iter().zip(w).enumerate() {
            c.near(*g, *w, 1e-13 * w.abs(), || format!("{}: entry {}", n, k))?;
            c.outf(*g);
        }
        Ok(())
    });
    ctx.scope("count", 1, "no further rows", |_, c| c.eq(total, want.len(), || "rows in all tables".into()));
    let names: Vec<&'static str> = cc::NAMES.iter().copied().collect();
    let (lin, enc, oth) = (linear(), encoded(), other());
    ctx.scope("names", 24, "every swatch name once, and present in every chart table", |i, c| {
        c.eq(names.len(), 24, || "names".into())?;
        let n = names[i as usize];
        c.eq(names.iter().filter(|m| **m == n).count(), 1, || format!("occurrences of {}", n))?;
        for (t, h) in lin.iter().chain(&enc).chain(&oth) {
            c.eq((h.contains_key(n), h.len()), (true, 24), || format!("{} in {}", n, t))?;
        }
        c.eq((cc::SPECTRAL.contains_key(n), cc::SPECTRAL.len()), (true, 24), || format!("{} in SPECTRAL", n))?;
        c.eq((cc::XYZ_D65.contains_key(n), cc::XYZ_D65.len()), (true, 24), || format!("{} in XYZ_D65", n))?;
        c.eq((spd::BABELCOLOR.contains_key(n), spd::BABELCOLOR.len()), (true, 24), || format!("{} in BABELCOLOR", n))
    });
    // spectra -> XYZ
    let o = &*cmf::CIE_1931_2_DEGREE;
    let v65 = Viewing::new(&spec_of(&illuminant::spd::D65), [&spec_of(&o.x_bar), &spec_of(&o.y_bar), &spec_of(&o.z_bar)]);
    ctx.scope("chart-xyz", 24 * 3, "XYZ of every swatch against its spectrum under D65, by the reference model and by the crate", |i, c| {
        let n = names[(i / 3) as usize];
        let ch = (i % 3) as usize;
        let s = &cc::SPECTRAL[n];
        let t = cc::XYZ_D65[n];
        let t = [t.x, t.y, t.z][ch];
        let (r, _) = v65.xyz(&spec_of(s));
        c.near(t, r[ch], 1e-9 * 100.0, || format!("XYZ_D65 {} component {} against its spectrum", n, ch))?;
        let g = s.to_xyz(&illuminant::spd::D65, o);
        c.near(t, [g.x, g.y, g.z][ch], 1e-9 * 100.0, || format!("XYZ_D65 {} component {} against to_xyz", n, ch))
    });
    ctx.scope("chart-copies", 24 * 36, "the two copies of every chart spectrum, sample by sample", |i, c| {
        let n = names[(i / 36) as usize];
        let k = (i % 36) as usize;
        let a = spec_of(&cc::SPECTRAL[n]);
        c.eq((a.nm.len(), a.nm[k]), (36, 380.0 + 10.0 * k as f64), || format!("SPECTRAL {} grid", n))?;
        let b = &spd::BABELCOLOR[n].values;
        c.near(b[k] as f64, a.v[k], 6e-8 * a.v[k].abs() + 1e-9, || format!("BABELCOLOR {} at {} nm against SPECTRAL", n, a.nm[k]))?;
        if k == 35 {
            // 740..770 nm repeat the last measured value
            for j in 36..40 {
                c.near(b[j] as f64, a.v[35], 6e-8 * a.v[35].abs() + 1e-9, || format!("BABELCOLOR {} at {} nm against the held end value", n, 380 + 10 * j))?;
            }
        }
        Ok(())
    });
    // XYZ -> linear
    let defs = space_defs();
    let known: [(&str, &str); 10] = [
        ("SRGB", "SRGB"),
        ("ITUR_BT709", "ITUR_BT709"),
        ("ALEXA_WIDE_GAMUT", "ALEXA_WIDE_GAMUT"),
        ("ACES_CG", "ACES_CG"),
        ("ACES", "ACES"),
        ("ACES_CC", "ACES_CG"),
        ("ACES_CCT", "ACES_CG"),
        ("DCI_P3", "DCI_P3"),
        ("ITUR_BT2020", "ITUR_BT2020"),
        ("ADOBE_RGB_1998", "ADOBE_RGB_1998"),
    ];
    ctx.scope("chart-linear", 10 * 24, "linear RGB of every swatch against its XYZ for every space with a published definition here", |i, c| {
        let (tn, dn) = known[(i / 24) as usize];
        let n = names[(i % 24) as usize];
        let d = defs.iter().find(|d| d.name == dn).unwrap();
        let x = cc::XYZ_D65[n];
        let w = lin_of(d, [x.x, x.y, x.z]);
        let (_, h) = lin.iter().find(|(t, _)| *t == format!("{}_LINEAR", tn)).unwrap();
        let g = r3(&h[n]);
        for ch in 0..3 {
            c.near(g[ch], w[ch], LIN_TOL, || format!("{}_LINEAR {} channel {} against XYZ", tn, n, ch))?;
        }
        Ok(())
    });
    // any linear table is one fixed 3x3 map of the XYZ table
    ctx.scope("chart-linear-map", lin.len() as u64 * 24, "every linear table is a single 3x3 map of the XYZ table: the map fixed by four groups of three swatches predicts every swatch", |i, c| {
        let (t, h) = &lin[(i / 24) as usize];
        let n = names[(i % 24) as usize];
        let q = |n: &str| -> (V3, V3) {
            let x = cc::XYZ_D65[n];
            ([x.x / 100.0, x.y / 100.0, x.z / 100.0], r3(&h[n]))
        };
        for tri in [["red", "green", "blue"], ["cyan", "magenta", "yellow"], ["orange", "bluish_green", "purple"], ["moderate_red", "yellow_green", "purplish_blue"]] {
            let p = tri.map(|n| q(n));
            let col = |f: &dyn Fn(&(V3, V3)) -> V3| -> M3 {
                let v = [f(&p[0]), f(&p[1]), f(&p[2])];
                std::array::from_fn(|r| std::array::from_fn(|k| v[k][r]))
            };
            let (a, b) = (col(&|x| x.0), col(&|x| x.1));
            let m = m_mul(&b, &m_inv(&a));
            let (x, g) = q(n);
            let w = m_vec(&m, &x);
            for ch in 0..3 {
                c.near(g[ch], w[ch], 1e-9, || format!("{} {} channel {} against the map fixed by {:?}", t, n, ch, tri))?;
            }
        }
        Ok(())
    });
    // linear -> encoded
    let sp = spaces64();
    let curves: [(&str, &str); 8] = [
        ("SRGB", "SRGB"),
        ("ITUR_BT709", "ITUR_BT709"),
        ("ALEXA_WIDE_GAMUT", "ALEXA_WIDE_GAMUT"),
        ("ACES_CG", "ACES_CG"),
        ("ACES", "ACES"),
        ("DCI_P3", "DCI_P3"),
        ("ITUR_BT2020", "ITUR_BT2020"),
        ("ADOBE_RGB_1998", "ADOBE_RGB_1998"),
    ];
    ctx.scope("chart-encoded", 8 * 24, "encoded RGB of every swatch against its linear RGB through the published curve", |i, c| {
        let (tn, sn) = curves[(i / 24) as usize];
        let n = names[(i % 24) as usize];
        let cv = &sp.iter().find(|s| s.0 == sn).unwrap().2;
        let l = r3(&lin.iter().find(|(t, _)| *t == format!("{}_LINEAR", tn)).unwrap().1[n]);
        let e = r3(&enc.iter().find(|(t, _)| *t == format!("{}_ENCODED", tn)).unwrap().1[n]);
        for ch in 0..3 {
            if l[ch] < 0.0 {
                continue;
            }
            let (a, b) = cv.encode(l[ch], 1e-12);
            let ok = (e[ch] - a).abs() <= ENC_TOL || b.map_or(false, |b| (e[ch] - b).abs() <= ENC_TOL);
            c.ensure(ok, || format!("{}_ENCODED {} channel {}: {:?}, expected {:?} from linear {:?}", tn, n, ch, e[ch], a, l[ch]))?;
        }
        Ok(())
    });
    ctx.scope("chart-monotone", enc.len() as u64, "encoded values of every space order all non-negative components as the linear values do", |i, c| {
        let (t, e) = &enc[i as usize];
        let (_, l) = &lin[i as usize];
        let mut p: Vec<(f64, f64)> = vec![];
        for n in &names {
            for ch in 0..3 {
                p.push((r3(&l[*n])[ch], r3(&e[*n])[ch]));
            }
        }
        p.retain(|x| x.0 >= 0.0);
        p.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
        for w in p.windows(2) {
            if w[1].0 > w[0].0 {
                c.ensure(w[1].1 >= w[0].1, || format!("{}: linear {:?} < {:?} but encoded {:?} > {:?}", t, w[0].0, w[1].0, w[0].1, w[1].1))?;
            }
        }
        Ok(())
    });
    ctx.scope("sums", 3, "column sums of the observer and of the fixed-grid weights", |i, c| {
        let i = i as usize;
        let s: f64 = spec_of([&o.x_bar, &o.y_bar, &o.z_bar][i]).v.iter().sum();
        c.near(s, [106.865469, 106.856917, 106.892251][i], 2e-4, || format!("sum of the colour matching function {}", i))?;
        let w: f64 = [&*spd::W_X as &spd::SPD, &spd::W_Y, &spd::W_Z][i].values.iter().map(|v| *v as f64).sum();
        c.near(w, [95.0465, 100.0, 108.897][i], 2e-3, || format!("sum of weights {}", i))
    });
}
const LIN_TOL: f64 = 1e-9;
const ENC_TOL: f64 = 1e-9;
