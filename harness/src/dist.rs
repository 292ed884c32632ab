//! Double-double arithmetic, Student's t and F tails, exact resampling distributions.
#[derive(Clone, Copy, Debug)]
pub struct Dd(pub f64, pub f64);
fn two_sum(a: f64, b: f64) -> (f64, f64) {
    let s = a + b;
    let bb = s - a;
    (s, (a - (s - bb)) + (b - bb))
}
fn two_prod(a: f64, b: f64) -> (f64, f64) {
    let p = a * b;
    (p, a.mul_add(b, -p))
}
impl Dd {
    pub const ZERO: Dd = Dd(0.0, 0.0);
    pub fn of(x: f64) -> Dd {
        Dd(x, 0.0)
    }
    pub fn add(self, o: Dd) -> Dd {
        let (s, e) = two_sum(self.0, o.0);
        let (t, f) = two_sum(self.1, o.1);
        let (s, e) = two_sum(s, e + t);
        let (s, e) = two_sum(s, e + f);
        Dd(s, e)
    }
    pub fn neg(self) -> Dd {
        Dd(-self.0, -self.1)
    }
    pub fn sub(self, o: Dd) -> Dd {
        self.add(o.neg())
    }
    pub fn mul(self, o: Dd) -> Dd {
        let (p, e) = two_prod(self.0, o.0);
        let e = e + (self.0 * o.1 + self.1 * o.0);
        let (s, e) = two_sum(p, e);
        Dd(s, e)
    }
    pub fn div(self, o: Dd) -> Dd {
        let q = self.0 / o.0;
        let r = self.sub(o.mul(Dd::of(q)));
        let q2 = r.0 / o.0;
        let r = r.sub(o.mul(Dd::of(q2)));
        let q3 = r.0 / o.0;
        let (s, e) = two_sum(q, q2);
        Dd(s, e).add(Dd::of(q3))
    }
    pub fn sq(self) -> Dd {
        self.mul(self)
    }
    pub fn f(self) -> f64 {
        self.0 + self.1
    }
}
pub fn sum<I: Iterator<Item = Dd>>(it: I) -> Dd {
    it.fold(Dd::ZERO, |a, b| a.add(b))
}
/// Mean and unbiased variance in double-double.
pub fn mean_var(x: &[Dd]) -> (Dd, Dd) {
    let n = Dd::of(x.len() as f64);
    let m = sum(x.iter().copied()).div(n);
    let v = sum(x.iter().map(|a| a.sub(m).sq())).div(Dd::of(x.len() as f64 - 1.0));
    (m, v)
}

/// ln Gamma for arguments that are multiples of 1/2 (or any positive number): Stirling with shift.
fn ln_gamma(mut x: f64) -> f64 {
    let mut shift = 0.0;
    while x < 20.0 {
        shift -= x.ln();
        x += 1.0;
    }
    let z = 1.0 / (x * x);
    let ser = 1.0 / 12.0 - z * (1.0 / 360.0 - z * (1.0 / 1260.0 - z * (1.0 / 1680.0 - z * (1.0 / 1188.0 - z * (691.0 / 360360.0)))));
    shift + (x - 0.5) * x.ln() - x + 0.918938533204672741780329736406 + ser / x
}
fn betacf(a: f64, b: f64, x: f64) -> f64 {
    let tiny = 1e-300;
    let (qab, qap, qam) = (a + b, a + 1.0, a - 1.0);
    let mut c = 1.0;
    let mut d = 1.0 - qab * x / qap;
    if d.abs() < tiny {
        d = tiny;
    }
    d = 1.0 / d;
    let mut h = d;
    for m in 1..20000 {
        let m = m as f64;
        let aa = m * (b - m) * x / ((qam + 2.0 * m) * (a + 2.0 * m));
        d = 1.0 + aa * d;
        if d.abs() < tiny {
            d = tiny;
        }
        c = 1.0 + aa / c;
        if c.abs() < tiny {
            c = tiny;
        }
        d = 1.0 / d;
        h *= d * c;
        let aa = -(a + m) * (qab + m) * x / ((a + 2.0 * m) * (qap + 2.0 * m));
        d = 1.0 + aa * d;
        if d.abs() < tiny {
            d = tiny;
        }
        c = 1.0 + aa / c;
        if c.abs() < tiny {
            c = tiny;
        }
        d = 1.0 / d;
        let del = d * c;
        h *= del;
        if (del - 1.0).abs() < 1e-15 {
            break;
        }
    }
    h
}
/// Regularised incomplete beta I_x(a, b) with y = 1 - x given separately (no cancellation).
pub fn beta_inc(a: f64, b: f64, x: f64, y: f64) -> f64 {
    if x <= 0.0 {
        return 0.0;
    }
    if y <= 0.0 {
        return 1.0;
    }
    let lnb = ln_gamma(a + b) - ln_gamma(a) - ln_gamma(b) + a * x.ln() + b * y.ln();
    if x < (a + 1.0) / (a + b + 2.0) {
        lnb.exp() * betacf(a, b, x) / a
    } else {
        1.0 - lnb.exp() * betacf(b, a, y) / b
    }
}
/// P(|T| >= |t|) for Student's t.
pub fn t_two_sided(t: f64, df: f64) -> f64 {
    if t == 0.0 {
        return 1.0;
    }
    let t2 = t * t;
    if !t2.is_finite() {
        return 0.0;
    }
    beta_inc(df / 2.0, 0.5, df / (df + t2), t2 / (df + t2))
}
/// P(F >= f).
pub fn f_tail(f: f64, d1: f64, d2: f64) -> f64 {
    if f <= 0.0 {
        return 1.0;
    }
    let z = d1 * f;
    if !z.is_finite() {
        return 0.0;
    }
    beta_inc(d2 / 2.0, d1 / 2.0, d2 / (d2 + z), z / (d2 + z))
}

/// Is a count of `c` out of `n` compatible with a success probability in [lo, hi]?
/// Chernoff bound with error probability below 2e-13 per call.
pub fn binom_ok(c: f64, n: f64, lo: f64, hi: f64) -> bool {
    let p = c / n;
    let kl = |p: f64, q: f64| -> f64 {
        let t = |a: f64, b: f64| if a == 0.0 { 0.0 } else if b <= 0.0 { f64::INFINITY } else { a * (a / b).ln() };
        t(p, q) + t(1.0 - p, 1.0 - q)
    };
    let q = if p < lo {
        lo
    } else if p > hi {
        hi
    } else {
        return true;
    };
    // rounding slack on q
    (p - q).abs() < 1e-12 || n * kl(p, q) < 30.0
}

/// Is every sum of (any `k` picks of) these values, in any order, exact in f64?
pub fn exact_sums(v: &[f64], k: usize) -> bool {
    let mut unit = f64::INFINITY;
    let mut big = 0.0f64;
    for &x in v {
        if x == 0.0 {
            continue;
        }
        let bits = x.to_bits();
        let e = ((bits >> 52) & 0x7ff) as i32;
        if e == 0 || e == 0x7ff {
            return false;
        }
        let man = bits & ((1 << 52) - 1);
        let tz = if man == 0 { 52 } else { man.trailing_zeros() as i32 };
        let u = e - 1075 + tz;
        if u < -900 {
            return false;
        }
        unit = unit.min(2f64.powi(u));
        big = big.max(x.abs());
    }
    big == 0.0 || big * k as f64 / unit < 2f64.powi(50)
}
/// Are means of n of these values, and all differences of such means, exact in f64?
pub fn exact_means(v: &[f64], n: usize) -> bool {
    n.is_power_of_two() && exact_sums(v, n * n)
}

/// Exact bootstrap p-value bounds (ambiguous resamples excluded / included) by enumerating all n^n resamples.
pub fn bootstrap_exact(d: &[f64]) -> (f64, f64) {
    let n = d.len();
    let b = Boot::new(d);
    let mut idx = vec![0usize; n];
    let (mut strict, mut ge, mut total) = (0u64, 0u64, 0u64);
    loop {
        let (s, g) = b.extreme(&idx);
        total += 1;
        strict += s as u64;
        ge += g as u64;
        let mut i = 0;
        while i < n {
            idx[i] += 1;
            if idx[i] < n {
                break;
            }
            idx[i] = 0;
            i += 1;
        }
        if i == n {
            break;
        }
    }
    (strict as f64 / total as f64, ge as f64 / total as f64)
}
/// Upper bound with constant resamples counted as t = 0 (as documented).
pub fn bootstrap_no_constant(d: &[f64]) -> f64 {
    let b = Boot { exact: true, ..Boot::new(d) };
    let n = d.len();
    let total = n.pow(n as u32);
    let ge = (0..total).filter(|&k| b.extreme(&(0..n).map(|i| k / n.pow(i as u32) % n).collect::<Vec<_>>()).1).count();
    ge as f64 / total as f64
}
pub struct Boot {
    d: Vec<f64>,
    c: Vec<f64>,
    t0: f64,
    scale: f64,
    exact: bool,
}
impl Boot {
    pub fn new(d: &[f64]) -> Self {
        let (t0, mean) = t_of(d);
        Self { d: d.to_vec(), c: d.iter().map(|x| x - mean).collect(), t0: t0.abs(), scale: d.iter().fold(0.0f64, |a, b| a.max(b.abs())), exact: d.len() == 2 && exact_means(d, 2) }
    }
    /// (surely at least as extreme, possibly at least as extreme). Ties up to rounding count either way.
    /// Resamples without variance have t = 0; where rounding is involved (values that differ by rounding only,
    /// or the known finding `bootstrap-constant-resample`: one value whose multiples are inexact) they may
    /// come out with any t.
    pub fn extreme(&self, idx: &[usize]) -> (bool, bool) {
        let (lo, hi) = idx.iter().fold((f64::MAX, f64::MIN), |a, &i| (a.0.min(self.d[i]), a.1.max(self.d[i])));
        if lo == hi && self.exact {
            return (self.t0 == 0.0, self.t0 <= 1e-9);
        }
        if hi - lo <= 1e-9 * self.scale {
            return (false, true);
        }
        let r: Vec<f64> = idx.iter().map(|&i| self.c[i]).collect();
        let (a, b) = (t_of(&r).0.abs(), self.t0);
        (a > b * (1.0 + 1e-9) + 1e-9, a >= b * (1.0 - 1e-9) - 1e-9)
    }
}
/// (t statistic, mean)
pub fn t_of(d: &[f64]) -> (f64, f64) {
    let x: Vec<Dd> = d.iter().map(|&x| Dd::of(x)).collect();
    let (m, v) = mean_var(&x);
    (m.f() / (v.f() / d.len() as f64).sqrt(), m.f())
}

pub fn permutations(m: usize) -> Vec<Vec<usize>> {
    if m == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for p in permutations(m - 1) {
        for i in 0..=p.len() {
            let mut q = p.clone();
            q.insert(i, m - 1);
            out.push(q);
        }
    }
    out
}
/// Exact p-values of the randomized Tukey HSD test by enumerating (m!)^n permutations: bounds without and with
/// the ties that rounding can separate (the same if all means are exact, since ties count).
pub fn tukey_exact(x: &[Vec<f64>]) -> Vec<Vec<(f64, f64)>> {
    let (n, m) = (x.len(), x[0].len());
    let perms = permutations(m);
    let r = TukeyRef::new(x);
    let mut counts = vec![vec![(0u64, 0u64); m]; m];
    let mut total = 0u64;
    let mut idx = vec![0usize; n];
    loop {
        let mut s = vec![0.0; m];
        for j in 0..n {
            for i in 0..m {
                s[i] += x[j][perms[idx[j]][i]];
            }
        }
        total += 1;
        r.count(&s, &mut counts);
        let mut k = 0;
        while k < n {
            idx[k] += 1;
            if idx[k] < perms.len() {
                break;
            }
            idx[k] = 0;
            k += 1;
        }
        if k == n {
            break;
        }
    }
    counts.iter().map(|r| r.iter().map(|&(a, b)| (a as f64 / total as f64, b as f64 / total as f64)).collect()).collect()
}
pub struct TukeyRef {
    n: f64,
    diffs: Vec<Vec<f64>>,
    tol: f64,
    exact: bool,
}
impl TukeyRef {
    pub fn new(x: &[Vec<f64>]) -> Self {
        let all: Vec<f64> = x.iter().flatten().copied().collect();
        let scale = all.iter().fold(0.0f64, |a, b| a.max(b.abs()));
        Self { n: x.len() as f64, diffs: mean_diffs(x), tol: 1e-9 * scale, exact: exact_means(&all, x.len()) }
    }
    /// Counts one shuffle given its column sums.
    pub fn count(&self, s: &[f64], counts: &mut [Vec<(u64, u64)>]) {
        let range = (s.iter().cloned().fold(f64::MIN, f64::max) - s.iter().cloned().fold(f64::MAX, f64::min)) / self.n;
        for (r, c) in self.diffs.iter().zip(counts.iter_mut()) {
            for (d, c) in r.iter().zip(c.iter_mut()) {
                let ge = range >= d.abs() - self.tol;
                c.1 += ge as u64;
                c.0 += (if self.exact { ge } else { range > d.abs() + self.tol }) as u64;
            }
        }
    }
}
pub fn mean_diffs(x: &[Vec<f64>]) -> Vec<Vec<f64>> {
    let (n, m) = (x.len() as f64, x[0].len());
    let means: Vec<f64> = (0..m).map(|i| sum(x.iter().map(|r| Dd::of(r[i]))).f() / n).collect();
    (0..m).map(|i| (0..m).map(|j| means[i] - means[j]).collect()).collect()
}

/// Two-way ANOVA without replication in double-double.
pub struct Anova {
    pub system_means: Vec<f64>,
    pub topic_means: Vec<f64>,
    pub sa: f64,
    pub sb: f64,
    pub se: f64,
    pub st: f64,
}
pub fn anova(x: &[Vec<f64>]) -> Anova {
    let (n, m) = (x.len(), x[0].len());
    let d = |v: f64| Dd::of(v);
    let (nf, mf) = (d(n as f64), d(m as f64));
    let sm: Vec<Dd> = (0..m).map(|i| sum(x.iter().map(|r| d(r[i]))).div(nf)).collect();
    let tm: Vec<Dd> = x.iter().map(|r| sum(r.iter().map(|&v| d(v))).div(mf)).collect();
    let g = sum(sm.iter().copied()).div(mf);
    let sa = sum(sm.iter().map(|a| a.sub(g).sq())).mul(nf);
    let sb = sum(tm.iter().map(|a| a.sub(g).sq())).mul(mf);
    let mut se = Dd::ZERO;
    let mut st = Dd::ZERO;
    for (j, r) in x.iter().enumerate() {
        for (i, &v) in r.iter().enumerate() {
            se = se.add(d(v).sub(sm[i]).sub(tm[j]).add(g).sq());
            st = st.add(d(v).sub(g).sq());
        }
    }
    Anova { system_means: sm.iter().map(|a| a.f()).collect(), topic_means: tm.iter().map(|a| a.f()).collect(), sa: sa.f(), sb: sb.f(), se: se.f(), st: st.f() }
}

/// Self-test values (scipy 1.18) so that a broken reference is noticed before it judges anything.
pub fn selftest() -> Result<(), String> {
    let c = |w: &str, a: f64, b: f64| if (a - b).abs() <= 1e-9 * b.abs().max(1e-300) { Ok(()) } else { Err(format!("self-test {w}: {a:e} instead of {b:e}")) };
    for &(t, df, p) in T_REF {
        c(&format!("t({t},{df})"), t_two_sided(t, df), p)?;
    }
    for &(f, a, b, p) in F_REF {
        c(&format!("F({f},{a},{b})"), f_tail(f, a, b), p)?;
    }
    Ok(())
}
include!("dist_ref.rs");
