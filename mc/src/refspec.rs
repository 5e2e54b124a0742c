//! Reference model of sampled spectra: grids, interpolation, resampling, E308.

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Shape {
    pub start: f64,
    pub end: f64,
    /// None = varying
    pub interval: Option<f64>,
}

#[derive(Clone, PartialEq, Debug)]
pub struct Spec {
    pub nm: Vec<f64>,
    pub v: Vec<f64>,
    pub shape: Shape,
}

/// start, start+interval, ... up to and including end
pub fn grid(start: f64, end: f64, interval: f64) -> Vec<f64> {
    let mut r = vec![];
    let mut k = 0u64;
    loop {
        let x = start + k as f64 * interval;
        if x > end + 1e-6 * interval {
            return r;
        }
        r.push(x);
        k += 1;
    }
}

pub fn uniform(nm: &[f64]) -> Option<f64> {
    let d = nm[1] - nm[0];
    if nm.windows(2).all(|w| ((w[1] - w[0]) - d).abs() <= 1e-11) {
        Some(d)
    } else {
        None
    }
}

impl Spec {
    pub fn of(nm: Vec<f64>, v: Vec<f64>) -> Spec {
        let shape = Shape { start: nm[0], end: nm[nm.len() - 1], interval: uniform(&nm) };
        Spec { nm, v, shape }
    }
    pub fn maxabs(&self) -> f64 {
        self.v.iter().fold(0.0f64, |m, x| m.max(x.abs()))
    }
    pub fn first(&self) -> f64 {
        self.nm[0]
    }
    pub fn last(&self) -> f64 {
        self.nm[self.nm.len() - 1]
    }

    /// The two samples CIE 167 adds before and after the data.
    fn pads(&self) -> [f64; 4] {
        let n = self.v.len();
        if n >= 6 {
            let c0 = [884.0, -1960.0, 3033.0, -2648.0, 1080.0, -180.0];
            let c1 = [508.0, -540.0, 488.0, -367.0, 144.0, -24.0];
            let dot = |c: &[f64; 6], f: &dyn Fn(usize) -> f64| (0..6).map(|k| c[k] * f(k)).sum::<f64>() / 209.0;
            let fwd = |k: usize| self.v[k];
            let rev = |k: usize| self.v[n - 1 - k];
            [dot(&c0, &fwd), dot(&c1, &fwd), dot(&c1, &rev), dot(&c0, &rev)]
        } else {
            // the polynomial through all of the samples, continued
            let at = |x: f64| -> f64 {
                (0..n)
                    .map(|j| {
                        let mut l = self.v[j];
                        for i in 0..n {
                            if i != j {
                                l *= (x - i as f64) / (j as f64 - i as f64);
                            }
                        }
                        l
                    })
                    .sum()
            };
            [at(-2.0), at(-1.0), at(n as f64), at(n as f64 + 1.0)]
        }
    }

    /// Sprague interpolation inside the domain: the quintic that matches value and
    /// first and second five-point central differences at both ends of the interval.
    pub fn sprague(&self, x: f64) -> f64 {
        let n = self.nm.len();
        let p = self.pads();
        let y = |k: i64| -> f64 {
            match k {
                -2 => p[0],
                -1 => p[1],
                k if k == n as i64 => p[2],
                k if k == n as i64 + 1 => p[3],
                k => self.v[k as usize],
            }
        };
        let k = match self.nm.iter().rposition(|t| *t <= x) {
            Some(k) => k.min(n - 2),
            None => 0,
        };
        let t = (x - self.nm[k]) / (self.nm[k + 1] - self.nm[k]);
        let d1 = |i: i64| (y(i - 2) - 8.0 * y(i - 1) + 8.0 * y(i + 1) - y(i + 2)) / 12.0;
        let d2 = |i: i64| (-y(i - 2) + 16.0 * y(i - 1) - 30.0 * y(i) + 16.0 * y(i + 1) - y(i + 2)) / 12.0;
        let i = k as i64;
        hermite5(t, [y(i), d1(i), d2(i)], [y(i + 1), d1(i + 1), d2(i + 1)])
    }

    pub fn hold(&self, x: f64) -> f64 {
        if x < self.first() {
            self.v[0]
        } else if x > self.last() {
            self.v[self.v.len() - 1]
        } else {
            self.sprague(x)
        }
    }

    pub fn align(&self, s: Shape) -> Spec {
        let nm = grid(s.start, s.end, s.interval.unwrap());
        let v = nm.iter().map(|x| self.hold(*x)).collect();
        Spec { nm, v, shape: s }
    }

    pub fn scale(&self, k: f64) -> Spec {
        Spec::of(self.nm.clone(), self.v.iter().map(|x| x * k).collect())
    }
}

/// Quintic Hermite interpolation on [0,1] from value, slope and curvature at both ends.
pub fn hermite5(t: f64, a: [f64; 3], b: [f64; 3]) -> f64 {
    let (t2, t3, t4, t5) = (t * t, t * t * t, t * t * t * t, t * t * t * t * t);
    let h0 = 1.0 - 10.0 * t3 + 15.0 * t4 - 6.0 * t5;
    let h1 = t - 6.0 * t3 + 8.0 * t4 - 3.0 * t5;
    let h2 = 0.5 * t2 - 1.5 * t3 + 1.5 * t4 - 0.5 * t5;
    let h3 = 0.5 * t3 - t4 + 0.5 * t5;
    let h4 = -4.0 * t3 + 7.0 * t4 - 3.0 * t5;
    let h5 = 10.0 * t3 - 15.0 * t4 + 6.0 * t5;
    a[0] * h0 + a[1] * h1 + a[2] * h2 + b[2] * h3 + b[1] * h4 + b[0] * h5
}

pub fn lagrange(xs: &[f64], ys: &[f64], x: f64) -> f64 {
    let mut s = 0.0;
    for j in 0..xs.len() {
        let mut l = ys[j];
        for i in 0..xs.len() {
            if i != j {
                l *= (x - xs[i]) / (xs[j] - xs[i]);
            }
        }
        s += l;
    }
    s
}

/// Observer and illuminant on 360..780 nm at 1 nm.
#[derive(Clone)]
pub struct Viewing {
    pub s: Vec<f64>,
    pub c: [Vec<f64>; 3],
}
impl Viewing {
    pub fn new(illum: &Spec, cmf: [&Spec; 3]) -> Viewing {
        let sh = Shape { start: 360.0, end: 780.0, interval: Some(1.0) };
        Viewing { s: illum.align(sh).v, c: [cmf[0].align(sh).v, cmf[1].align(sh).v, cmf[2].align(sh).v] }
    }
    fn sum(&self, step: usize, r: &dyn Fn(f64) -> f64) -> ([f64; 3], f64) {
        let mut o = [0.0; 3];
        let mut mag = 0.0;
        let mut k = 0.0;
        for i in (0..421).step_by(step) {
            k += self.s[i] * self.c[1][i];
            let rv = r(360.0 + i as f64);
            for ch in 0..3 {
                o[ch] += self.s[i] * self.c[ch][i] * rv;
                mag += (self.s[i] * self.c[ch][i] * rv).abs();
            }
        }
        (o.map(|v| 100.0 * v / k), 100.0 * mag / k.abs())
    }
    /// ASTM E308 tristimulus values and the magnitude of the summed terms.
    pub fn xyz(&self, spd: &Spec) -> ([f64; 3], f64) {
        let on10 = spd.shape.interval == Some(10.0) && (spd.first() - 360.0) % 10.0 == 0.0 && spd.first() <= 780.0 && spd.last() >= 360.0;
        if on10 {
            // the 43 ordinates at 360, 370, .. 780, end values repeated
            let ord: Vec<f64> = (0..43)
                .map(|k| {
                    let x = 360.0 + 10.0 * k as f64;
                    let lo = spd.nm.iter().position(|t| *t >= 360.0).unwrap();
                    let hi = spd.nm.iter().rposition(|t| *t <= 780.0).unwrap();
                    match spd.nm.iter().position(|t| *t == x) {
                        Some(i) => spd.v[i],
                        None if x < spd.nm[lo] => spd.v[lo],
                        None => spd.v[hi],
                    }
                })
                .collect();
            let r = |x: f64| -> f64 {
                let q = (x - 360.0) / 10.0;
                let i = q.floor() as usize;
                if q == i as f64 {
                    return ord[i];
                }
                let (a, n) = if i == 0 {
                    (0, 3)
                } else if i == 41 {
                    (40, 3)
                } else {
                    (i - 1, 4)
                };
                let xs: Vec<f64> = (a..a + n).map(|k| k as f64).collect();
                lagrange(&xs, &ord[a..a + n], q)
            };
            return self.sum(1, &r);
        }
        if spd.shape.interval == Some(5.0) {
            return self.sum(5, &|x| spd.hold(x));
        }
        self.sum(1, &|x| spd.hold(x))
    }
}
