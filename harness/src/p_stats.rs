//! C14-C23: statistical tests.
use crate::dist::{self, Dd};
use crate::ensure;
use crate::gen;
use crate::report::{close, CaseResult, Ctx, Obs};
use crate::rng::{hash_str, mix, Rng};
use elinor::statistical_tests::bootstrap_test::BootstrapTester;
use elinor::statistical_tests::randomized_tukey_hsd_test::RandomizedTukeyHsdTester;
use elinor::statistical_tests::{
    pairs_from_maps, tuples_from_maps, BootstrapTest, RandomizedTukeyHsdTest, StudentTTest, TukeyHsdTest, TwoWayAnovaWithoutReplication as Anova,
};
use elinor::ElinorError;
use serde_json::json;
use std::collections::BTreeMap;

const EPS: f64 = f64::EPSILON;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Style {
    Unit,
    Grid,
    Dyadic,
    Normal,
    Effects,
    Outlier,
    Binary,
}
pub const STYLES: [Style; 7] = [Style::Unit, Style::Grid, Style::Dyadic, Style::Normal, Style::Effects, Style::Outlier, Style::Binary];

/// An n x m matrix of scores (topics x systems).
pub fn matrix(rng: &mut Rng, n: usize, m: usize, st: Style) -> Vec<Vec<f64>> {
    let shift: Vec<f64> = (0..m).map(|_| rng.normal() * *rng.pick(&[0.0, 0.05, 0.3, 2.0])).collect();
    let (scale, off) = (10f64.powi(rng.range(0, 12) as i32 - 6), *rng.pick(&[0.0, 0.0, 1.0, -3.0, 50.0]));
    let spread = *rng.pick(&[0.0, 0.3, 1.0, 10.0]);
    (0..n)
        .map(|_| {
            let te = rng.normal() * spread;
            (0..m)
                .map(|i| match st {
                    Style::Unit => rng.f64(),
                    Style::Grid => rng.below(11) as f64 / 10.0,
                    Style::Dyadic => (rng.range(0, 64) as f64 - 32.0) / 8.0,
                    Style::Normal => (rng.normal() + off + shift[i]) * scale,
                    Style::Effects => te + shift[i] + rng.normal(),
                    Style::Outlier => {
                        if rng.chance(0.1) {
                            rng.normal() * 100.0
                        } else {
                            rng.normal() + shift[i]
                        }
                    }
                    Style::Binary => rng.below(2) as f64,
                })
                .collect()
        })
        .collect()
}
fn n_small(rng: &mut Rng) -> usize {
    match rng.below(10) {
        0 => 2,
        1 => 3,
        2..=5 => rng.range(2, 12),
        6..=7 => rng.range(10, 60),
        8 => rng.range(60, 200),
        _ => rng.range(2, 5),
    }
}
pub fn hash_f(xs: impl IntoIterator<Item = f64>) -> u64 {
    xs.into_iter().fold(17, |h, x| mix(h ^ x.to_bits()))
}
fn hash_m(x: &[Vec<f64>]) -> u64 {
    hash_f(x.iter().flatten().copied())
}
fn hash_p(x: &[(f64, f64)]) -> u64 {
    hash_f(x.iter().flat_map(|p| [p.0, p.1]))
}
fn pairs(rng: &mut Rng, n: usize) -> Vec<(f64, f64)> {
    let st = *rng.pick(&STYLES);
    let mut v: Vec<(f64, f64)> = matrix(rng, n, 2, st).into_iter().map(|r| (r[0], r[1])).collect();
    match rng.below(8) {
        0 => {
            // nearly constant differences
            let c = rng.normal();
            let e = *rng.pick(&[1e-1, 1e-2, 1e-3]);
            for p in v.iter_mut() {
                p.0 = p.1 + c + e * rng.normal();
            }
        }
        1 => {
            let s = 10f64.powi(rng.range(0, 100) as i32 - 50);
            for p in v.iter_mut() {
                *p = (p.0 * s, p.1 * s);
            }
        }
        2 => {
            // symmetric: t close to zero
            let h = v.len() / 2;
            for i in 0..h {
                v[i + h] = (v[i].1, v[i].0);
            }
        }
        _ => {}
    }
    v
}
struct Exact {
    mean: f64,
    var: f64,
    sd: f64,
    scale: f64,
    n: f64,
}
fn exact(p: &[(f64, f64)]) -> Exact {
    let d: Vec<Dd> = p.iter().map(|x| Dd::of(x.0).sub(Dd::of(x.1))).collect();
    let (m, v) = dist::mean_var(&d);
    let scale = p.iter().fold(0.0f64, |a, x| a.max(x.0.abs()).max(x.1.abs()));
    Exact { mean: m.f(), var: v.f(), sd: v.f().sqrt(), scale, n: p.len() as f64 }
}
/// Well-conditioned: the differences vary clearly compared with rounding errors.
fn good(e: &Exact) -> bool {
    e.var > 0.0 && e.sd > 1e-5 * e.scale
}
fn p_close(got: f64, want: f64, stat: f64) -> bool {
    // the p-value of a statistic near zero is limited by the resolution of df/(df+t^2)
    let abs = if stat.abs() < 1e-3 { 1e-6 } else { 1e-11 };
    close(got, want, 1e-7, abs)
}

// ---------------------------------------------------------------- C14
fn c14_case(rng: &mut Rng, obs: &mut Obs, big: u8) -> CaseResult {
    let k = match big {
        0 => *rng.pick(&[0usize, 1, 2, 2, 2, 3, 3, 5, 8, 20, 60]),
        1 => rng.range(2, 4),
        _ => gen::huge(rng, 70_000),
    };
    let n = match big {
        0 => rng.range(0, 30),
        1 => gen::huge(rng, 140_000),
        _ => rng.range(0, 3),
    };
    let key = |i: usize| match i % 5 {
        0 => format!("q{i}"),
        1 => format!("{i}"),
        2 => format!("{}{:03}", ['Q', 'q'][i / 5 % 2], i / 2),
        3 => format!("é{i}"),
        _ => format!(" {i}"),
    };
    let (mut keys, mut seen): (Vec<String>, std::collections::BTreeSet<String>) = Default::default();
    while keys.len() < n {
        let c = key(rng.below(if n > 30 { 4 * n } else { 200 }));
        if seen.insert(c.clone()) {
            keys.push(c);
        }
    }
    // values of one kind: mostly all different, or so few that systems, topics and neighbours agree
    let few: &[f64] = rng.pick(&[&[][..], &[], &[], &[0.0, 1.0], &[0.0, 0.0, 0.0, 0.5], &[0.25], &[f64::NAN, 1.0, f64::INFINITY], &[-0.0, 0.0]]);
    let value = |rng: &mut Rng| if few.is_empty() { rng.normal() } else { *rng.pick(few) };
    let mut maps: Vec<BTreeMap<String, f64>> = (0..k).map(|_| keys.iter().map(|q| (q.clone(), value(rng))).collect()).collect();
    let mut broken = false;
    if k >= 2 && rng.chance(0.5) {
        let i = if rng.chance(0.3) { k - 1 } else { rng.below(k) };
        match rng.below(5) {
            4 if n > 0 => {
                // same number of keys, one replaced by a similar one
                let q = rng.pick(&keys).clone();
                let v = maps[i].remove(&q).unwrap();
                let similar = match rng.below(10) {
                    0 => format!("{q} "),
                    1 => format!(" {q}"),
                    2 => format!("0{q}"),
                    3 => format!("{q}.0"),
                    4 => format!("{q}\0"),
                    5 => q.to_uppercase(),
                    6 => q.to_lowercase(),
                    7 => q.replace('é', "e\u{301}"),
                    8 => q.chars().rev().collect(),
                    _ => q.trim().to_string(),
                };
                broken = similar != q && !maps[i].contains_key(&similar);
                maps[i].insert(if broken { similar } else { q }, v);
                obs.count("similar keys", broken as u64);
            }
            0 => {
                maps[i].insert("~extra".into(), 1.0);
                broken = true;
            }
            1 if n > 0 => {
                let q = rng.pick(&keys).clone();
                maps[i].remove(&q);
                broken = true;
            }
            2 if n > 0 => {
                // same number of keys, one replaced
                let q = if rng.chance(0.3) { maps[i].keys().last().unwrap().clone() } else { rng.pick(&keys).clone() };
                let v = maps[i].remove(&q).unwrap();
                maps[i].insert(format!("{q}'"), v);
                broken = true;
            }
            3 if n > 0 => {
                maps[i].clear();
                broken = true;
            }
            _ => {}
        }
    }
    obs.sig(maps.iter().fold(k as u64, |h, m| mix(h ^ hash_f(m.values().copied()) ^ broken as u64)));
    obs.sample(|| json!({"maps": k, "keys": n, "broken": broken}));
    let r = tuples_from_maps(gen::hinted(rng, maps.iter()));
    let r2 = if k == 2 { Some(pairs_from_maps(&maps[0], &maps[1])) } else { None };
    if broken {
        ensure!(matches!(r, Err(ElinorError::InvalidArgument(_))), "different key sets give {r:?} for {maps:?}");
        if let Some(r2) = r2 {
            ensure!(matches!(r2, Err(ElinorError::InvalidArgument(_))), "different key sets give {r2:?} for {maps:?}");
        }
        obs.count("different key sets rejected", 1);
        return Ok(());
    }
    let mut sorted = keys.clone();
    sorted.sort();
    let t = r.map_err(|e| format!("{k} maps with equal keys rejected: {e}"))?;
    if k > 0 {
        let want: Vec<Vec<f64>> = sorted.iter().map(|q| maps.iter().map(|m| m[q]).collect()).collect();
        let bits = |t: &[Vec<f64>]| t.iter().map(|t| t.iter().map(|x| x.to_bits()).collect::<Vec<_>>()).collect::<Vec<_>>();
        ensure!(bits(&t) == bits(&want), "tuples {t:?} instead of {want:?}");
    } else {
        ensure!(t.is_empty(), "no maps give {t:?}");
    }
    if let Some(p) = r2 {
        let p = p.map_err(|e| format!("equal keys rejected: {e}"))?;
        let want: Vec<(f64, f64)> = sorted.iter().map(|q| (maps[0][q], maps[1][q])).collect();
        let bits = |p: &[(f64, f64)]| p.iter().map(|p| (p.0.to_bits(), p.1.to_bits())).collect::<Vec<_>>();
        ensure!(bits(&p) == bits(&want), "pairs {p:?} instead of {want:?}");
        obs.count("pairings", 1);
    }
    // keys that print alike
    if rng.chance(0.3) {
        let ids = gen::vague(n);
        let vm: Vec<BTreeMap<gen::Vague, f64>> = maps.iter().map(|m| keys.iter().zip(&ids).map(|(q, id)| (id.clone(), m[q])).collect()).collect();
        let t = tuples_from_maps(gen::hinted(rng, vm.iter())).map_err(|e| format!("keys that print alike: {e}"))?;
        let want: Vec<Vec<f64>> = if k > 0 { vm[0].keys().map(|q| vm.iter().map(|m| m[q]).collect()).collect() } else { vec![] };
        ensure!(t.len() == want.len() && t.iter().flatten().map(|x| x.to_bits()).eq(want.iter().flatten().map(|x| x.to_bits())), "keys that print alike: {t:?} instead of {want:?}");
        if k >= 2 && n > 0 {
            let mut other = vm.clone();
            let i = rng.below(k);
            let v = other[i].remove(&ids[0]).unwrap();
            other[i].insert(gen::Vague(ids[0].0.wrapping_add(3_000_000_000)), v);
            let r = tuples_from_maps(other.iter());
            ensure!(r.is_err(), "a key replaced by one that prints alike is accepted: {r:?} for {other:?}");
            let r = pairs_from_maps(&vm[i], &other[i]);
            ensure!(r.is_err(), "a key replaced by one that prints alike is accepted: {r:?} for {other:?}");
            obs.count("keys that print alike told apart", 1);
        }
    }
    // integer keys: ascending numeric order
    let im: BTreeMap<u32, f64> = (0..n).map(|_| (rng.u64() as u32 >> rng.below(32), rng.normal())).collect();
    let im2: BTreeMap<u32, f64> = im.keys().map(|&q| (q, rng.normal())).collect();
    let p = pairs_from_maps(&im, &im2).map_err(|e| e.to_string())?;
    ensure!(p.len() == im.len() && im.iter().zip(&p).all(|((q, a), p)| p.0 == *a && p.1 == im2[q]), "integer keys: {p:?} from {im:?} {im2:?}");
    obs.count("tuplings", 1);
    Ok(())
}
/// Key sets of the same size whose concatenations (or joined texts) are the same.
fn c14_ambiguous(rng: &mut Rng, obs: &mut Obs) -> CaseResult {
    let sep = *rng.pick(&["", "", ",", " ", "|", "\t", "\n", "\0", "-", "/", ";", ", ", "\", \""]);
    let letters: Vec<String> = (0..rng.range(3, 20)).map(|i| ((b'a' + i as u8) as char).to_string()).collect();
    let n = rng.range(2, letters.len() - 1);
    let cut = |rng: &mut Rng| {
        let mut at: Vec<usize> = (1..letters.len()).collect();
        rng.shuffle(&mut at);
        at.truncate(n - 1);
        at.extend([0, letters.len()]);
        at.sort_unstable();
        at.windows(2).map(|w| (letters[w[0]..w[1]].join(sep), rng.normal())).collect::<BTreeMap<String, f64>>()
    };
    let a = cut(rng);
    let mut maps: Vec<BTreeMap<String, f64>> = (0..rng.range(2, 4)).map(|_| a.keys().map(|k| (k.clone(), rng.normal())).collect()).collect();
    let i = rng.below(maps.len());
    maps[i] = cut(rng);
    let same = maps[i].keys().eq(a.keys());
    obs.count("ambiguous key sets", !same as u64);
    obs.sig(maps.iter().flat_map(|m| m.keys()).fold(7, |h, k| mix(h ^ hash_str(k))));
    let r = tuples_from_maps(gen::hinted(rng, maps.iter()));
    ensure!(r.is_ok() == same, "key sets {:?} give {r:?}", maps.iter().map(|m| m.keys().collect::<Vec<_>>()).collect::<Vec<_>>());
    let r = pairs_from_maps(&maps[0], &maps[1]);
    let same = maps[0].keys().eq(maps[1].keys());
    ensure!(r.is_ok() == same, "key sets {:?} and {:?} give {r:?}", maps[0].keys(), maps[1].keys());
    Ok(())
}
pub fn c14(ctx: &mut Ctx) {
    ctx.rule = "0-60 random maps over random key sets, half of them with one map's keys altered (extra, missing, substituted, empty); the result is compared with direct look-ups. Distinct = hash of all values.".into();
    ctx.require("tuplings", 5000);
    ctx.require("pairings", 1000);
    ctx.require("different key sets rejected", 2000);
    ctx.require("similar keys", 500);
    let n = ctx.n(40000, 1_000_000);
    ctx.run("maps", n, |r, _, o| c14_case(r, o, 0));
    ctx.require("ambiguous key sets", 1000);
    ctx.run("ambiguous", n / 8, |r, _, o| c14_ambiguous(r, o));
    let n = ctx.n(40, 1500);
    ctx.run("many-keys", n, |r, _, o| c14_case(r, o, 1));
    ctx.run("many-maps", n, |r, _, o| c14_case(r, o, 2));
}

// ---------------------------------------------------------------- C15
fn c15_case(rng: &mut Rng, obs: &mut Obs, n: usize) -> CaseResult {
    let p = pairs(rng, n);
    let e = exact(&p);
    if !good(&e) {
        obs.count("ill-conditioned skipped", 1);
        return Ok(());
    }
    let c = e.scale / e.sd;
    let show = || format!("{:?}", p.iter().take(30).collect::<Vec<_>>());
    let t = StudentTTest::from_paired_samples(gen::hinted(rng, p.iter().copied())).map_err(|x| format!("rejected: {x}: {}", show()))?;
    obs.sig(hash_p(&p));
    obs.sample(|| json!({"n": n, "mean": e.mean, "variance": e.var, "t": t.t_stat(), "p": t.p_value()}));
    let mean_tol = (e.n + 10.0) * EPS * e.scale * 4.0;
    let rv = 1e-10 + 16.0 * EPS * e.n * (1.0 + c);
    let se = (e.var / e.n).sqrt();
    let want_t = e.mean / se;
    ensure!(t.n_topics() == p.len(), "n_topics {} of {}", t.n_topics(), p.len());
    #[allow(deprecated)]
    let ns = t.n_samples();
    ensure!(ns == p.len(), "n_samples {ns} of {}", p.len());
    ensure!(close(t.mean(), e.mean, 1e-13, mean_tol), "mean {:e} instead of {:e}: {}", t.mean(), e.mean, show());
    ensure!(close(t.variance(), e.var, rv, 0.0), "variance {:e} instead of {:e} (n={n}): {}", t.variance(), e.var, show());
    ensure!(close(t.effect_size(), e.mean / e.sd, rv, mean_tol / e.sd), "effect size {:e} instead of {:e}: {}", t.effect_size(), e.mean / e.sd, show());
    ensure!(close(t.t_stat(), want_t, rv, mean_tol / se), "t {:e} instead of {want_t:e} (n={n}): {}", t.t_stat(), show());
    let want_p = dist::t_two_sided(t.t_stat(), e.n - 1.0);
    ensure!(p_close(t.p_value(), want_p, t.t_stat()), "p {:e} instead of {want_p:e} for t={:e}, n={n}: {}", t.p_value(), t.t_stat(), show());
    ensure!((0.0..=1.0 + 1e-9).contains(&t.p_value()), "p {}", t.p_value());
    if want_p < 1e-6 {
        obs.count("p < 1e-6", 1);
    }
    if want_t.abs() < 0.1 {
        obs.count("|t| < 0.1", 1);
    }
    // swapped systems
    let s = StudentTTest::from_paired_samples(p.iter().map(|x| (x.1, x.0))).map_err(|x| format!("swapped rejected: {x}"))?;
    ensure!(close(s.mean(), -t.mean(), 1e-12, 2.0 * mean_tol) && close(s.variance(), t.variance(), 2.0 * rv, 0.0) && close(s.t_stat(), -t.t_stat(), 2.0 * rv, 2.0 * mean_tol / se) && close(s.effect_size(), -t.effect_size(), 2.0 * rv, 2.0 * mean_tol / e.sd), "swapping: {s:?} vs {t:?}");
    let dt = rv * t.t_stat().abs() + mean_tol / se;
    ensure!(close(s.p_value(), t.p_value(), 1e-6 + dt * (2.0 + t.t_stat().abs()), 1e-6), "swapping: p {} vs {}", s.p_value(), t.p_value());
    // permuted pairs
    let mut q = p.clone();
    rng.shuffle(&mut q);
    let s = StudentTTest::from_paired_samples(q).map_err(|x| format!("permuted rejected: {x}"))?;
    ensure!(close(s.mean(), t.mean(), 1e-12, 2.0 * mean_tol) && close(s.variance(), t.variance(), 2.0 * rv, 0.0) && close(s.t_stat(), t.t_stat(), 2.0 * rv, 2.0 * mean_tol / se), "permuting pairs: {s:?} vs {t:?}");
    obs.count("t-tests", 1);
    Ok(())
}
pub fn c15(ctx: &mut Ctx) {
    ctx.rule = "Random paired samples of seven styles, magnitudes 1e-56..1e56 and n = 2..3000; every reported number compared with double-double arithmetic and an independent incomplete-beta p-value (self-tested against 40-digit values). Distinct = hash of samples.".into();
    ctx.assumptions = vec!["standard deviation of the differences at least 1e-5 of the largest score (otherwise rounding dominates)".into()];
    ctx.require("t-tests", 5000);
    ctx.require("p < 1e-6", 100);
    ctx.require("|t| < 0.1", 100);
    ctx.run_t("selftest", 1, 1, |_, _, _| dist::selftest().map_err(|e| panic!("HARNESS: {e}")));
    let n = ctx.n(1200000, 40000000);
    ctx.run("random", n, |r, _, o| {
        let n = n_small(r);
        c15_case(r, o, n)
    });
    let n = ctx.n(6000, 200000);
    ctx.run("large", n, |r, _, o| {
        let n = r.range(200, 3000);
        c15_case(r, o, n)
    });
    let n = ctx.n(120, 5000);
    ctx.run("huge", n, |r, _, o| {
        let n = gen::huge(r, 140_000);
        c15_case(r, o, n)
    });
}

// ---------------------------------------------------------------- C16
fn c16_degenerate(rng: &mut Rng, obs: &mut Obs, big: bool) -> CaseResult {
    let n = match rng.below(6) {
        _ if big => gen::huge(rng, 140_000),
        0 => 0,
        1 => 1,
        2 => 2,
        3 => 3,
        4 => rng.range(2, 60),
        _ => rng.range(60, 1500),
    };
    let c = match rng.below(8) {
        0 => 0.0,
        5 => (rng.range(0, 4000) as f64 - 2000.0) * 2f64.powi(rng.range(0, 60) as i32 - 30),
        6 => rng.range(0, 100) as f64,
        7 => *rng.pick(&[0.5, -0.25, 1.0, -1.0, 0.125, 0.75, 1024.0]),
        1 => *rng.pick(&[0.1, -0.1, 0.3, 1.0 / 3.0, -2.0 / 3.0, 0.7, 1e-3, 1e-9, 1.0, -1.0, 0.25]),
        2 => rng.normal() * 10f64.powi(rng.range(0, 60) as i32 - 30),
        3 => rng.f64(),
        _ => (rng.range(0, 2000) as f64 - 1000.0) / 1000.0,
    };
    // pairs whose f64 difference is exactly c
    let mode = rng.below(3);
    let p: Vec<(f64, f64)> = (0..n)
        .map(|_| match mode {
            0 => (c, 0.0),
            1 => (0.0, -c),
            _ => {
                let y = rng.normal();
                if (y + c) - y == c {
                    (y + c, y)
                } else {
                    (c, 0.0)
                }
            }
        })
        .collect();
    obs.sig(hash_p(&p) ^ n as u64);
    obs.sample(|| json!({"n": n, "difference": c}));
    let t = StudentTTest::from_paired_samples(gen::hinted(rng, p.iter().copied()));
    // (the default 10000 resamples are run only where the known finding does not make the test succeed, and now and then)
    let quick = dist::exact_sums(&[c], n * n) || n < 20 && rng.chance(0.01);
    let b1 = if n < 200 && quick { BootstrapTest::from_paired_samples(gen::hinted(rng, p.iter().copied())) } else { BootstrapTester::new().with_n_resamples(3).test(gen::hinted(rng, p.iter().copied())) };
    let b2 = BootstrapTester::new().with_n_resamples(rng.below(20)).with_random_state(rng.u64()).test(gen::hinted(rng, p.iter().copied()));
    if n >= 2 && !dist::exact_sums(&[c], n * n) {
        // known finding constant-differences-inexact: rounding leaves a tiny variance, hence a huge t-statistic
        if let Ok(t) = &t {
            ensure!(t.t_stat().abs() > 1e8 && t.variance() >= 0.0 && t.variance().sqrt() <= 1e-8 * c.abs() && close(t.mean(), c, 1e-9, 0.0), "t-test of {n} pairs with constant difference {c:?} gives {t:?}");
        }
        for b in [&b1, &b2].into_iter().flatten() {
            ensure!((0.0..=1.0).contains(&b.p_value()), "bootstrap test of {n} pairs with constant difference {c:?} gives {b:?}");
        }
        for err in [t.err(), b1.err(), b2.err()].into_iter().flatten() {
            ensure!(matches!(err, ElinorError::Uncomputable(_)), "{n} pairs with constant difference {c:?} give {err:?}");
        }
        obs.count("constant differences with inexact multiples", 1);
        return Ok(());
    }
    for (what, err) in [("t-test", t.err()), ("bootstrap", b1.err()), ("bootstrap (customised)", b2.err())] {
        let ok = if n < 2 { matches!(err, Some(ElinorError::InvalidArgument(_))) } else { matches!(err, Some(ElinorError::Uncomputable(_))) };
        ensure!(ok, "{what} of {n} pairs with constant difference {c:?} gives {err:?}");
    }
    obs.count(if n < 2 { "too few pairs" } else { "constant differences" }, 1);
    Ok(())
}
fn c16_regular(rng: &mut Rng, obs: &mut Obs, big: bool) -> CaseResult {
    let n = if big { gen::huge(rng, 140_000) } else { n_small(rng) };
    let mut p = match rng.below(3) {
        0 => pairs(rng, n),
        1 => {
            // all equal but one
            let c = *rng.pick(&[0.1, 0.0, -0.7, 1.0]);
            let mut v = vec![(c, 0.0); n];
            let i = rng.below(n);
            v[i].0 += *rng.pick(&[1.0, -0.5, 0.1, 1e-3, 1e-5]);
            v
        }
        _ => {
            let s = 10f64.powi(rng.range(0, 180) as i32 - 90);
            pairs(rng, n).into_iter().map(|x| (x.0.clamp(-10.0, 10.0) * s, x.1.clamp(-10.0, 10.0) * s)).collect()
        }
    };
    if rng.chance(0.1) {
        rng.shuffle(&mut p);
    }
    let e = exact(&p);
    if !good(&e) {
        return Ok(());
    }
    obs.sig(hash_p(&p));
    let show = || format!("{:?}", p.iter().take(30).collect::<Vec<_>>());
    let t = StudentTTest::from_paired_samples(gen::hinted(rng, p.iter().copied())).map_err(|e| format!("t-test rejected {}: {e}", show()))?;
    for (w, x) in [("mean", t.mean()), ("variance", t.variance()), ("effect size", t.effect_size()), ("t", t.t_stat()), ("p", t.p_value())] {
        ensure!(x.is_finite(), "{w} is {x} for {}", show());
    }
    let m = t.margin_of_error(0.05).map_err(|e| e.to_string())?;
    let ci = t.confidence_interval(0.05).map_err(|e| e.to_string())?;
    ensure!(m.is_finite() && m > 0.0 && ci.0.is_finite() && ci.1.is_finite(), "margin {m} interval {ci:?} for {}", show());
    let b = BootstrapTester::new().with_n_resamples(20).test(p.iter().copied()).map_err(|e| format!("bootstrap rejected {}: {e}", show()))?;
    ensure!((0.0..=1.0).contains(&b.p_value()), "bootstrap p {}", b.p_value());
    obs.count("distinct differences", 1);
    Ok(())
}
pub fn c16(ctx: &mut Ctx) {
    ctx.rule = "Samples with 0, 1 or up to 1500 pairs whose differences are one constant (representable or not), and samples with at least two clearly distinct differences, through all three entry points; only the documented error variant, respectively finite statistics, are accepted. Distinct = hash of samples.".into();
    ctx.assumptions = vec!["scores have ordinary magnitude (0 or 1e-100..1e100) and distinct differences differ by more than rounding (sd at least 1e-5 of the largest score)".into()];
    ctx.require("constant differences", 5000);
    ctx.require("too few pairs", 1000);
    ctx.require("distinct differences", 5000);
    ctx.run_t("known", 1, 1, |_, _, _| {
        let p = vec![(0.1, 0.0); 10];
        let unc = |e: Option<ElinorError>| matches!(e, Some(ElinorError::Uncomputable(_)));
        ctx.known_finding("t-test-constant-differences-inexact", !unc(StudentTTest::from_paired_samples(p.iter().copied()).err()), "the t-test reports a huge t-statistic instead of Uncomputable for ten pairs that all differ by 0.1 (rounding leaves a tiny variance)")?;
        ctx.known_finding("bootstrap-constant-differences-inexact", !unc(BootstrapTester::new().test(p.iter().copied()).err()), "the bootstrap test reports a p-value instead of Uncomputable for ten pairs that all differ by 0.1")
    });
    let n = ctx.n(600000, 12000000);
    ctx.run("degenerate", n, |r, _, o| c16_degenerate(r, o, false));
    ctx.run("regular", n, |r, _, o| c16_regular(r, o, false));
    let n = ctx.n(160, 6000);
    ctx.run("huge-degenerate", n, |r, _, o| c16_degenerate(r, o, true));
    ctx.run("huge-regular", n, |r, _, o| c16_regular(r, o, true));
}

// ---------------------------------------------------------------- C17
fn alpha(rng: &mut Rng) -> f64 {
    match rng.below(6) {
        0 => *rng.pick(&[0.05, 0.01, 0.1, 0.001, 0.5, 1.0]),
        1 => 10f64.powf(-6.0 * rng.f64()),
        2 => 1.0 - 10f64.powf(-6.0 * rng.f64()) * 0.999,
        _ => rng.f64().max(1e-6),
    }
}
/// NaN is the known finding `nan-level`.
const BAD_ALPHA: [f64; 14] = [0.0, -0.0, -1e-300, -0.05, -1.0, 1.0000000000000002, 1.05, 2.0, 5.0, 95.0, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN];

fn check_moe(what: &str, f: &dyn Fn(f64) -> Result<f64, ElinorError>, se: f64, df: f64, rng: &mut Rng, obs: &mut Obs) -> CaseResult {
    let mut prev: Vec<(f64, f64)> = vec![];
    for _ in 0..4 {
        let a = alpha(rng);
        let m = f(a).map_err(|e| format!("{what}: margin_of_error({a}) fails: {e}"))?;
        ensure!(m.is_finite() && m >= -1e-5 * se, "{what}: margin_of_error({a}) = {m}");
        // forward check: the two-sided tail beyond the margin must be a (near the median the quantile function
        // is accurate to a few 1e-6 standard errors only)
        let abs = if a > 0.99 { 1e-5 } else { 1e-9 };
        let tail = dist::t_two_sided(m / se, df);
        // (and its relative accuracy drops to about 1e-4 for 1e5 degrees of freedom)
        let rel = if df > 5000.0 { 1e-3 } else { 1e-6 };
        ensure!(close(tail, a, rel, abs), "{what}: margin_of_error({a:e}) = {m:e}, beyond which Student's t ({df} df, standard error {se:e}) has probability {tail:e}");
        for &(b, mb) in &prev {
            let tol = rel * (m.abs() + mb.abs()) + 1e-5 * se;
            ensure!((a < b && m >= mb - tol) || (a > b && m <= mb + tol) || (a - b).abs() < 1e-5 * a, "{what}: margins {m} at {a} and {mb} at {b}");
        }
        prev.push((a, m));
        obs.count("margins", 1);
    }
    let one = f(1.0).map_err(|e| format!("{what}: margin_of_error(1) fails: {e}"))?;
    ensure!(one.abs() <= 1e-5 * se, "{what}: margin_of_error(1) = {one}");
    for a in BAD_ALPHA {
        let r = f(a);
        ensure!(matches!(r, Err(ElinorError::InvalidArgument(_))), "{what}: margin_of_error({a}) = {r:?}");
        obs.count("invalid levels rejected", 1);
    }
    Ok(())
}
fn c17_t(rng: &mut Rng, obs: &mut Obs, big: bool) -> CaseResult {
    let n = if big { gen::huge(rng, 140_000) } else if rng.chance(0.02) { rng.range(200, 2000) } else { n_small(rng) };
    let p = pairs(rng, n);
    let e = exact(&p);
    if !good(&e) {
        return Ok(());
    }
    obs.sig(hash_p(&p));
    obs.sample(|| json!({"test": "t", "n": n, "variance": e.var}));
    let t = StudentTTest::from_paired_samples(p.iter().copied()).map_err(|x| x.to_string())?;
    let se = (e.var / e.n).sqrt();
    check_moe("t-test", &|a| t.margin_of_error(a), se, e.n - 1.0, rng, obs)?;
    for _ in 0..4 {
        let a = if rng.chance(0.3) { (t.p_value() * (1.0 + rng.normal() * 0.1)).clamp(1e-6, 1.0) } else { alpha(rng) };
        let m = t.margin_of_error(a).map_err(|e| e.to_string())?;
        let (lo, hi) = t.confidence_interval(a).map_err(|e| format!("confidence_interval({a}): {e}"))?;
        let tol = 1e-12 * (e.scale + m.abs());
        ensure!(close(lo, e.mean - m, 1e-9, tol * e.n) && close(hi, e.mean + m, 1e-9, tol * e.n), "interval ({lo:e}, {hi:e}) for mean {:e} and margin {m:e}", e.mean);
        if (t.p_value() - a).abs() > if big { 5e-3 } else { 1e-5 } * a + 1e-9 {
            ensure!((lo > 0.0 || hi < 0.0) == (t.p_value() < a), "interval ({lo:e}, {hi:e}) at level {a}, p = {}: {p:?}", t.p_value());
            obs.count(if t.p_value() < a { "intervals excluding 0" } else { "intervals including 0" }, 1);
        }
    }
    for a in BAD_ALPHA {
        let r = t.confidence_interval(a);
        ensure!(matches!(r, Err(ElinorError::InvalidArgument(_))), "confidence_interval({a}) = {r:?}");
    }
    Ok(())
}
/// Are the residuals well above rounding errors?
fn good_m(x: &[Vec<f64>], a: &dist::Anova) -> bool {
    let scale = x.iter().flatten().fold(0.0f64, |a, b| a.max(b.abs()));
    let k = ((x.len() - 1) * (x[0].len() - 1)) as f64;
    a.se > 0.0 && (a.se / k).sqrt() > 1e-5 * scale
}
fn shape(rng: &mut Rng) -> (usize, usize) {
    match rng.below(8) {
        0 => (2, 2),
        1 => (2, rng.range(2, 8)),
        2 => (rng.range(2, 12), 2),
        3 => (rng.range(20, 200), rng.range(2, 6)),
        4 => (rng.range(2, 8), rng.range(8, 40)),
        _ => (rng.range(2, 30), rng.range(2, 8)),
    }
}
/// Many topics or many systems.
fn shape_huge(rng: &mut Rng) -> (usize, usize) {
    match rng.below(4) {
        0 => (rng.range(2, 6), rng.range(100, 700)),
        1 => (rng.range(100, 700), rng.range(10, 60)),
        _ => (gen::huge(rng, 80_000), rng.range(2, 3)),
    }
}
fn c17_anova(rng: &mut Rng, obs: &mut Obs, big: bool) -> CaseResult {
    let (n, m) = if big { shape_huge(rng) } else { shape(rng) };
    let st = *rng.pick(&STYLES);
    let x = matrix(rng, n, m, st);
    let e = dist::anova(&x);
    if !good_m(&x, &e) {
        return Ok(());
    }
    obs.sig(hash_m(&x));
    obs.sample(|| json!({"test": "anova", "topics": n, "systems": m}));
    let t = Anova::from_tupled_samples(&x, m).map_err(|x| x.to_string())?;
    let df = ((n - 1) * (m - 1)) as f64;
    let se = (e.se / df / n as f64).sqrt();
    check_moe("ANOVA", &|a| t.margin_of_error(a), se, df, rng, obs)
}
pub fn c17(ctx: &mut Ctx) {
    ctx.rule = "Margins of error of random samples at random levels checked forward: the independent t distribution must put probability a beyond the margin; monotonicity, the interval around the mean, interval/p-value duality, and 15 invalid levels. Distinct = hash of samples.".into();
    ctx.assumptions = vec!["levels in [1e-6, 1]; smaller ones exceed the accuracy of the quantile function".into()];
    ctx.require("margins", 20000);
    ctx.require("invalid levels rejected", 20000);
    ctx.require("intervals excluding 0", 1000);
    ctx.require("intervals including 0", 1000);
    ctx.run_t("selftest", 1, 1, |_, _, _| dist::selftest().map_err(|e| panic!("HARNESS: {e}")));
    ctx.run_t("known", 1, 1, |_, _, _| {
        let t = StudentTTest::from_paired_samples([(1.0, 0.0), (3.0, 1.0), (2.0, 2.0)]).map_err(|e| e.to_string())?;
        let a = Anova::from_tupled_samples([[1.0, 0.0], [3.0, 1.0], [2.0, 2.0]], 2).map_err(|e| e.to_string())?;
        let bad = |f: &dyn Fn() -> bool| !std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).unwrap_or(false);
        ctx.known_finding("t-test-nan-level", bad(&|| is_invalid(&t.margin_of_error(f64::NAN))), "StudentTTest::margin_of_error panics for a NaN significance level")?;
        ctx.known_finding("t-test-interval-nan-level", bad(&|| is_invalid(&t.confidence_interval(f64::NAN))), "StudentTTest::confidence_interval panics for a NaN significance level")?;
        ctx.known_finding("anova-nan-level", bad(&|| is_invalid(&a.margin_of_error(f64::NAN))), "TwoWayAnovaWithoutReplication::margin_of_error panics for a NaN significance level")
    });
    let n = ctx.n(300000, 6000000);
    ctx.run("t-test", n, |r, _, o| c17_t(r, o, false));
    ctx.run("anova", n, |r, _, o| c17_anova(r, o, false));
    let n = ctx.n(120, 4000);
    ctx.run("huge-t-test", n, |r, _, o| c17_t(r, o, true));
    ctx.run("huge-anova", n, |r, _, o| c17_anova(r, o, true));
}

// ---------------------------------------------------------------- C18
fn c18_case(rng: &mut Rng, obs: &mut Obs, big: u8) -> CaseResult {
    let (n, m) = match big {
        0 => shape(rng),
        1 => (rng.range(100, 1500), rng.range(2, 10)),
        _ => shape_huge(rng),
    };
    let st = *rng.pick(&STYLES);
    let mut x = matrix(rng, n, m, st);
    if rng.chance(0.1) {
        let s = 10f64.powi(rng.range(0, 60) as i32 - 30);
        x.iter_mut().flatten().for_each(|v| *v *= s);
    }
    let e = dist::anova(&x);
    if !good_m(&x, &e) {
        obs.count("ill-conditioned skipped", 1);
        return Ok(());
    }
    obs.sig(hash_m(&x));
    let show = || format!("{n}x{m} {:?}", x.iter().take(12).collect::<Vec<_>>());
    let a = Anova::from_tupled_samples(gen::hinted(rng, x.iter()), m).map_err(|e| format!("rejected: {e}: {}", show()))?;
    let scale = x.iter().flatten().fold(0.0f64, |a, b| a.max(b.abs()));
    let (nf, mf) = (n as f64, m as f64);
    let tol = EPS * (nf * mf + 10.0) * 4.0; // relative to scale, for means
    let (fa, fb, fe) = (mf - 1.0, nf - 1.0, (mf - 1.0) * (nf - 1.0));
    ensure!(a.n_systems() == m && a.n_topics() == n, "shape {}x{}", a.n_topics(), a.n_systems());
    let (sm, tm) = (a.system_means(), a.topic_means());
    ensure!(sm.len() == m && tm.len() == n, "{} system means, {} topic means for {}", sm.len(), tm.len(), show());
    for i in 0..m {
        ensure!(close(sm[i], e.system_means[i], 1e-12, tol * scale), "system mean {i} {:e} instead of {:e}: {}", sm[i], e.system_means[i], show());
    }
    for j in 0..n {
        ensure!(close(tm[j], e.topic_means[j], 1e-12, tol * scale), "topic mean {j} {:e} instead of {:e}: {}", tm[j], e.topic_means[j], show());
    }
    // absolute tolerance of a sum of nm squares of quantities of the size `scale` with errors tol*scale
    let sq = |s: f64| 4.0 * tol * scale * (s * nf * mf).sqrt() + 4.0 * nf * mf * (tol * scale).powi(2);
    for (w, got, want) in [("S_A", a.between_system_variation(), e.sa), ("S_B", a.between_topic_variation(), e.sb), ("S_E", a.residual_variation(), e.se)] {
        ensure!(close(got, want, 1e-10, sq(want)), "{w} {got:e} instead of {want:e}: {}", show());
    }
    let total = a.between_system_variation() + a.between_topic_variation() + a.residual_variation();
    ensure!(close(total, e.st, 1e-9, 3.0 * sq(e.st)), "S_A+S_B+S_E = {total:e}, total variation {:e}: {}", e.st, show());
    for (w, got, want) in [
        ("V_A", a.between_system_variance(), a.between_system_variation() / fa),
        ("V_B", a.between_topic_variance(), a.between_topic_variation() / fb),
        ("V_E", a.residual_variance(), a.residual_variation() / fe),
    ] {
        ensure!(close(got, want, 1e-12, 0.0), "{w} {got:e} instead of {want:e}: {}", show());
    }
    for (w, f, v, p, d1) in [
        ("between systems", a.between_system_f_stat(), a.between_system_variance(), a.between_system_p_value(), fa),
        ("between topics", a.between_topic_f_stat(), a.between_topic_variance(), a.between_topic_p_value(), fb),
    ] {
        ensure!(close(f, v / a.residual_variance(), 1e-12, 0.0), "F {w} {f:e} instead of {:e}", v / a.residual_variance());
        let want = dist::f_tail(f, d1, fe);
        let abs = if f < 1e-6 { 1e-5 } else { 1e-11 };
        ensure!(close(p, want, 1e-7, abs), "p {w} {p:e} instead of {want:e} for F={f:e} ({d1}, {fe}): {}", show());
        obs.count("F p-values", 1);
        if want < 1e-6 {
            obs.count("p < 1e-6", 1);
        }
    }
    if m == 2 {
        let ex = exact(&x.iter().map(|r| (r[0], r[1])).collect::<Vec<_>>());
        let t = StudentTTest::from_paired_samples(x.iter().map(|r| (r[0], r[1]))).map_err(|e| format!("t-test: {e}"))?;
        let k = scale / ex.sd;
        let rt = 1e-8 + 1e3 * tol * (1.0 + k);
        ensure!(close(a.between_system_f_stat(), t.t_stat().powi(2), rt, 1e-12 + rt), "F_A {:e}, t^2 {:e}: {}", a.between_system_f_stat(), t.t_stat().powi(2), show());
        ensure!(close(a.between_system_p_value(), t.p_value(), 1e-5, 1e-5), "ANOVA p {:e}, t-test p {:e}: {}", a.between_system_p_value(), t.p_value(), show());
        obs.count("F = t^2", 1);
    }
    // permutations
    let mut pt: Vec<usize> = (0..n).collect();
    rng.shuffle(&mut pt);
    let mut ps: Vec<usize> = (0..m).collect();
    rng.shuffle(&mut ps);
    let y: Vec<Vec<f64>> = pt.iter().map(|&j| ps.iter().map(|&i| x[j][i]).collect()).collect();
    let b = Anova::from_tupled_samples(&y, m).map_err(|e| format!("permuted rejected: {e}"))?;
    ensure!(ps.iter().enumerate().all(|(k, &i)| close(b.system_means()[k], sm[i], 1e-12, tol * scale)), "system means after permutation {:?} {sm:?}", b.system_means());
    let tm2 = b.topic_means();
    ensure!(pt.iter().enumerate().all(|(k, &j)| close(tm2[k], tm[j], 1e-12, tol * scale)), "topic means after permutation");
    ensure!(close(b.between_system_variation(), a.between_system_variation(), 1e-9, 2.0 * sq(e.sa)) && close(b.between_topic_variation(), a.between_topic_variation(), 1e-9, 2.0 * sq(e.sb)) && close(b.residual_variation(), a.residual_variation(), 1e-9, 2.0 * sq(e.se)), "variations change under permutation: {}", show());
    obs.count("anovas", 1);
    obs.sample(|| json!({"topics": n, "systems": m, "F_A": a.between_system_f_stat(), "p_A": a.between_system_p_value(), "F_B": a.between_topic_f_stat()}));
    Ok(())
}
pub fn c18(ctx: &mut Ctx) {
    ctx.rule = "Random score matrices of seven styles (2..1500 topics, 2..40 systems); means, variations, variances, F statistics and p-values compared with double-double arithmetic and an independent F tail; F_A = t^2 for two systems; random permutations of topics and systems. Distinct = hash of the matrix.".into();
    ctx.assumptions = vec!["residual standard deviation at least 1e-5 of the largest score".into()];
    ctx.require("anovas", 5000);
    ctx.require("F = t^2", 500);
    ctx.require("p < 1e-6", 100);
    ctx.run_t("selftest", 1, 1, |_, _, _| dist::selftest().map_err(|e| panic!("HARNESS: {e}")));
    let n = ctx.n(800000, 16000000);
    ctx.run("random", n, |r, _, o| c18_case(r, o, 0));
    let n = ctx.n(3000, 80000);
    ctx.run("large", n, |r, _, o| c18_case(r, o, 1));
    let n = ctx.n(120, 4000);
    ctx.run("huge", n, |r, _, o| c18_case(r, o, 2));
}

// ---------------------------------------------------------------- C19
fn is_invalid<T: std::fmt::Debug>(r: &Result<T, ElinorError>) -> bool {
    matches!(r, Err(ElinorError::InvalidArgument(_)))
}
fn c19_invalid(rng: &mut Rng, obs: &mut Obs, big: bool) -> CaseResult {
    let mode = rng.below(if big { 2 } else { 4 });
    let (x, m): (Vec<Vec<f64>>, usize) = match mode {
        // ragged
        0 => {
            let (n, m) = if big { shape_huge(rng) } else { (rng.range(1, 20), rng.range(1, 6)) };
            let mut x = matrix(rng, n, m, Style::Unit);
            let at = if rng.chance(0.3) { n - 1 } else { rng.below(n) };
            if rng.chance(0.5) {
                x[at].push(0.5);
            } else {
                x[at].pop();
            }
            (x, m)
        }
        // declared number of systems differs
        1 => {
            let (n, m) = if big { shape_huge(rng) } else { (rng.range(1, 20), rng.range(1, 6)) };
            let x = matrix(rng, n, m, Style::Unit);
            let w = if rng.chance(0.5) { m + rng.range(1, 3) } else { m - 1 };
            (x, w)
        }
        // too few records
        2 => {
            let (n, m) = (rng.below(2), rng.range(0, 6));
            (matrix(rng, n, m, Style::Unit), m)
        }
        // too few systems
        _ => {
            let (n, m) = (rng.range(0, 20), rng.below(2));
            (matrix(rng, n, m, Style::Unit), m)
        }
    };
    obs.sig(hash_m(&x) ^ (m as u64) << 8 ^ mode as u64);
    obs.sample(|| json!({"records": x.iter().map(|r| r.len()).collect::<Vec<_>>(), "n_systems": m}));
    let few = m < 2 && x.len() >= 2 && x.iter().all(|r| r.len() == m);
    if few {
        // known finding fewer-than-two-systems: ANOVA and Tukey HSD panic
        obs.count("fewer than two systems", 1);
    } else {
    let a = Anova::from_tupled_samples(gen::hinted(rng, x.iter()), m);
    ensure!(is_invalid(&a), "ANOVA of records of lengths {:?} for {m} systems: {a:?}", x.iter().map(|r| r.len()).collect::<Vec<_>>());
    let t = TukeyHsdTest::from_tupled_samples(gen::hinted(rng, x.iter()), m);
    ensure!(is_invalid(&t), "Tukey HSD of records of lengths {:?} for {m} systems: {t:?}", x.iter().map(|r| r.len()).collect::<Vec<_>>());
    }
    let r = RandomizedTukeyHsdTester::new(m).with_n_iters(3).test(gen::hinted(rng, x.iter()));
    let ragged = x.iter().any(|r| r.len() != m);
    if ragged || x.is_empty() {
        ensure!(is_invalid(&r), "randomized Tukey HSD of records of lengths {:?} for {m} systems: {r:?}", x.iter().map(|r| r.len()).collect::<Vec<_>>());
        let d = RandomizedTukeyHsdTest::from_tupled_samples(&x, m);
        ensure!(is_invalid(&d), "randomized Tukey HSD: {d:?}");
        obs.count("invalid for all", 1);
    } else if m > 0 {
        let r = r.map_err(|e| format!("randomized Tukey HSD rejects {x:?}: {e}"))?;
        ensure!(r.p_values().len() == m && r.p_values().iter().flatten().all(|p| (0.0..=1.0).contains(p)), "p-values {:?} for {x:?}", r.p_values());
        obs.count("randomized test accepts", 1);
    }
    obs.count("invalid inputs", 1);
    Ok(())
}
fn c19_degenerate(rng: &mut Rng, obs: &mut Obs, big: bool) -> CaseResult {
    let n = if rng.chance(0.1) { rng.range(30, 300) } else { rng.range(2, 20) };
    let m = rng.range(2, 7);
    let (n, m) = if big { shape_huge(rng) } else { (n, m) };
    let mode = rng.below(4);
    let x: Vec<Vec<f64>> = match mode {
        // identical systems
        0 => (0..n).map(|_| vec![rng.normal() * 10f64.powi(rng.range(0, 20) as i32 - 10); m]).collect(),
        // all equal
        1 => vec![vec![*rng.pick(&[0.1, 0.0, 1.0 / 3.0, 0.7, -1e6]); m]; n],
        // exact additive model
        2 => {
            let s: Vec<f64> = (0..m).map(|_| rng.range(0, 1000) as f64 / 64.0).collect();
            (0..n)
                .map(|_| {
                    let t = rng.range(0, 1000) as f64 / 64.0;
                    s.iter().map(|v| v + t).collect()
                })
                .collect()
        }
        // identical topics
        _ => vec![(0..m).map(|_| rng.f64()).collect(); n],
    };
    obs.sig(hash_m(&x));
    obs.sample(|| json!({"mode": mode, "topics": n, "systems": m}));
    // known finding no-residuals: ANOVA and Tukey HSD do not look at inputs without residuals. What they may do
    // instead of failing with Uncomputable is to report residuals of the size of rounding errors, or to panic.
    let scale = x.iter().flatten().fold(0.0f64, |a, b| a.max(b.abs()));
    if let Ok(a) = std::panic::catch_unwind(|| Anova::from_tupled_samples(&x, m)) {
        match a {
            Ok(a) => ensure!(a.residual_variance() <= 1e-20 * scale * scale * n as f64, "residual variance {} of {n}x{m} {:?}", a.residual_variance(), x.iter().take(10).collect::<Vec<_>>()),
            Err(e) => ensure!(matches!(e, ElinorError::Uncomputable(_)), "ANOVA without residuals: {e:?}"),
        }
    }
    let r = RandomizedTukeyHsdTester::new(m).with_n_iters(20).test(&x).map_err(|e| format!("randomized Tukey HSD rejects {x:?}: {e}"))?;
    ensure!(r.p_values().iter().flatten().all(|p| (0.0..=1.0).contains(p)), "p-values {:?}", r.p_values());
    if mode < 2 {
        ensure!(r.p_values().iter().flatten().all(|&p| p == 1.0), "identical systems get p-values {:?}: {:?}", r.p_values(), x.iter().take(10).collect::<Vec<_>>());
        obs.count("identical systems", 1);
    }
    obs.count("no residuals", 1);
    Ok(())
}
fn c19_regular(rng: &mut Rng, obs: &mut Obs, big: bool) -> CaseResult {
    let (n, m) = if big { shape_huge(rng) } else { shape(rng) };
    let st = *rng.pick(&STYLES);
    let mut x = matrix(rng, n, m, st);
    if rng.chance(0.3) {
        let s = 10f64.powi(rng.range(0, 160) as i32 - 80);
        x.iter_mut().flatten().for_each(|v| *v *= s);
    }
    if rng.chance(0.3) {
        // no residuals but for one score
        let r = x[0].clone();
        x.iter_mut().for_each(|v| v.clone_from(&r));
        let s = r.iter().fold(1e-80f64, |a, b| a.max(b.abs()));
        let (j, i) = (rng.below(n), rng.below(m));
        x[j][i] += s * *rng.pick(&[1.0, 0.1, -0.5, 1e-3]);
    }
    let r = RandomizedTukeyHsdTester::new(m).with_n_iters(2).test(&x).map_err(|e| format!("randomized Tukey HSD rejects {x:?}: {e}"))?;
    ensure!(r.p_values().iter().flatten().all(|p| (0.0..=1.0).contains(p)), "p-values {:?}", r.p_values());
    let e = dist::anova(&x);
    obs.sig(hash_m(&x));
    if !good_m(&x, &e) {
        return Ok(());
    }
    let a = Anova::from_tupled_samples(&x, m).map_err(|e| format!("ANOVA rejects {:?}: {e}", x.iter().take(10).collect::<Vec<_>>()))?;
    let all = [a.between_system_f_stat(), a.between_topic_f_stat(), a.between_system_p_value(), a.between_topic_p_value(), a.residual_variance()];
    ensure!(all.iter().all(|v| v.is_finite()), "{all:?} for {:?}", x.iter().take(10).collect::<Vec<_>>());
    let t = TukeyHsdTest::from_tupled_samples(&x, m).map_err(|e| format!("Tukey HSD rejects: {e}"))?;
    ensure!(t.effect_sizes().iter().flatten().all(|v| v.is_finite()), "effect sizes {:?}", t.effect_sizes());
    obs.count("regular inputs", 1);
    Ok(())
}
pub fn c19(ctx: &mut Ctx) {
    ctx.rule = "Ragged, too small and mis-declared inputs; inputs without residuals (identical systems, constant, exactly additive, identical topics); regular inputs over 160 orders of magnitude, including ones with a single non-zero residual; three tests on each. Distinct = hash of the input.".into();
    ctx.assumptions = vec!["scores have ordinary magnitude (0 or 1e-100..1e100)".into()];
    ctx.require("invalid inputs", 5000);
    ctx.require("no residuals", 5000);
    ctx.require("regular inputs", 5000);
    ctx.require("identical systems", 1000);
    ctx.run_t("known", 1, 1, |_, _, _| {
        let unc = |x: &[Vec<f64>]| {
            let f = || (Anova::from_tupled_samples(x, x[0].len()).err(), TukeyHsdTest::from_tupled_samples(x, x[0].len()).err());
            std::panic::catch_unwind(f)
        };
        for m in 0..2 {
            let ok = matches!(unc(&vec![vec![0.5; m]; 3]), Ok((Some(ElinorError::InvalidArgument(_)), Some(ElinorError::InvalidArgument(_)))));
            ctx.known_finding("fewer-than-two-systems", !ok, "ANOVA and Tukey HSD panic instead of returning InvalidArgument for records of fewer than two systems")?;
        }
        for x in [vec![vec![0.5, 0.5], vec![0.25, 0.25]], vec![vec![0.0, 0.5], vec![0.25, 0.75]], vec![vec![0.1, 0.7, 0.3]; 7]] {
            let ok = matches!(unc(&x), Ok((Some(ElinorError::Uncomputable(_)), Some(ElinorError::Uncomputable(_)))));
            ctx.known_finding("no-residuals", !ok, "ANOVA and Tukey HSD panic or report rounding noise instead of Uncomputable when the differences between systems are the same for every topic")?;
        }
        Ok(())
    });
    let n = ctx.n(600000, 16000000);
    ctx.run("invalid", n, |r, _, o| c19_invalid(r, o, false));
    ctx.run("degenerate", n, |r, _, o| c19_degenerate(r, o, false));
    ctx.run("regular", n, |r, _, o| c19_regular(r, o, false));
    let n = ctx.n(64, 2500);
    ctx.run("huge-invalid", n, |r, _, o| c19_invalid(r, o, true));
    ctx.run("huge-degenerate", n, |r, _, o| c19_degenerate(r, o, true));
    ctx.run("huge-regular", n, |r, _, o| c19_regular(r, o, true));
}

// ---------------------------------------------------------------- C20
fn c20_case(rng: &mut Rng, obs: &mut Obs, big: bool) -> CaseResult {
    let (n, m) = if big { shape_huge(rng) } else { shape(rng) };
    let st = *rng.pick(&STYLES);
    let x = matrix(rng, n, m, st);
    let e = dist::anova(&x);
    if !good_m(&x, &e) {
        return Ok(());
    }
    obs.sig(hash_m(&x));
    let show = || format!("{n}x{m} {:?}", x.iter().take(10).collect::<Vec<_>>());
    let t = TukeyHsdTest::from_tupled_samples(gen::hinted(rng, x.iter()), m).map_err(|e| format!("rejected: {e}: {}", show()))?;
    ensure!(t.n_systems() == m && t.n_topics() == n, "shape {}x{}", t.n_topics(), t.n_systems());
    let sd = (e.se / ((n - 1) * (m - 1)) as f64).sqrt();
    let scale = x.iter().flatten().fold(0.0f64, |a, b| a.max(b.abs()));
    let d = dist::mean_diffs(&x);
    let es = t.effect_sizes();
    let tol = 1e-9 + 64.0 * EPS * (n * m) as f64 * scale / sd;
    ensure!(es.len() == m && es.iter().all(|r| r.len() == m), "effect size matrix of shape {:?} for {}", es.iter().map(|r| r.len()).collect::<Vec<_>>(), show());
    for i in 0..m {
        ensure!(es[i][i] == 0.0, "diagonal entry {i} is {}", es[i][i]);
        for j in 0..m {
            ensure!(close(es[i][j], d[i][j] / sd, tol, tol), "effect size ({i},{j}) {:e} instead of {:e}: {}", es[i][j], d[i][j] / sd, show());
            ensure!(es[i][j] == -es[j][i], "({i},{j}) {:e} and ({j},{i}) {:e} are not antisymmetric", es[i][j], es[j][i]);
            obs.count("effect sizes", 1);
        }
    }
    let a = Anova::from_tupled_samples(&x, m).map_err(|e| e.to_string())?;
    ensure!(close(a.residual_variance().sqrt(), sd, tol, 0.0), "residual variance {:e}, sd {sd:e}", a.residual_variance());
    // permuted systems, permuted topics, shifted topics
    let mut ps: Vec<usize> = (0..m).collect();
    rng.shuffle(&mut ps);
    let shifts: Vec<f64> = (0..n).map(|_| (rng.range(0, 64) as f64 - 32.0) / 32.0 * scale).collect();
    let mut y: Vec<Vec<f64>> = x.iter().zip(&shifts).map(|(r, s)| ps.iter().map(|&i| r[i] + s).collect()).collect();
    rng.shuffle(&mut y);
    let f = TukeyHsdTest::from_tupled_samples(&y, m).map_err(|e| format!("transformed rejected: {e}"))?.effect_sizes();
    for i in 0..m {
        for j in 0..m {
            ensure!(close(f[i][j], es[ps[i]][ps[j]], 8.0 * tol, 8.0 * tol), "after permuting systems and shifting topics ({i},{j}) is {:e} instead of {:e}: {}", f[i][j], es[ps[i]][ps[j]], show());
        }
    }
    obs.count("tests", 1);
    obs.sample(|| json!({"topics": n, "systems": m, "first_row": es[0]}));
    Ok(())
}
pub fn c20(ctx: &mut Ctx) {
    ctx.rule = "Random matrices; every entry compared with double-double arithmetic; antisymmetry exact; permuted systems and topics and per-topic shifts. Distinct = hash of the matrix.".into();
    ctx.assumptions = vec!["residual standard deviation at least 1e-5 of the largest score".into()];
    ctx.require("tests", 5000);
    let n = ctx.n(1000000, 20000000);
    ctx.run("random", n, |r, _, o| c20_case(r, o, false));
    let n = ctx.n(120, 4000);
    ctx.run("huge", n, |r, _, o| c20_case(r, o, true));
}

// ---------------------------------------------------------------- C21
fn count_of(p: f64, n: usize) -> Result<f64, String> {
    let c = p * n as f64;
    ensure!((0.0..=1.0).contains(&p) && (c - c.round()).abs() < 1e-6, "p-value {p} is not a multiple of 1/{n}");
    Ok(c.round())
}
/// Interval for a probability of which `c` of `n` independent trials were successes.
pub fn interval(c: f64, n: f64) -> (f64, f64) {
    let inside = |q: f64| dist::binom_ok(c, n, q, q);
    let p = c / n;
    let bis = |mut ok: f64, mut bad: f64| {
        for _ in 0..60 {
            let mid = (ok + bad) / 2.0;
            if inside(mid) {
                ok = mid;
            } else {
                bad = mid;
            }
        }
        bad
    };
    let lo = if p <= 0.0 { 0.0 } else { bis(p, 0.0) };
    let hi = if p >= 1.0 { 1.0 } else { bis(p, 1.0) };
    (lo, hi)
}
pub fn own_bootstrap(rng: &mut Rng, d: &[f64], n_mc: usize) -> (f64, f64) {
    let b = dist::Boot::new(d);
    let (mut s, mut g) = (0usize, 0usize);
    let mut idx = vec![0usize; d.len()];
    for _ in 0..n_mc {
        for v in idx.iter_mut() {
            *v = rng.below(d.len());
        }
        let (ds, dg) = b.extreme(&idx);
        s += ds as usize;
        g += dg as usize;
    }
    (interval(s as f64, n_mc as f64).0, interval(g as f64, n_mc as f64).1)
}
fn boot_pairs(rng: &mut Rng, n: usize) -> Option<Vec<(f64, f64)>> {
    let st = *rng.pick(&STYLES);
    let k = *rng.pick(&[0.0, 0.3, 0.7, 1.2, 2.0]);
    let x = matrix(rng, n, 2, st);
    let sd = x.iter().map(|r| (r[0] - r[1]).powi(2)).sum::<f64>().sqrt() / (n as f64).sqrt();
    let dy = (sd * k * 8.0).round() / 8.0 / (n as f64).sqrt();
    let mut p: Vec<(f64, f64)> = x.into_iter().map(|r| (r[0] + dy, r[1])).collect();
    if n > 3 && rng.chance(if n > 1000 { 0.5 } else { 0.1 }) {
        // one position dominates, so that it shows how often it is picked
        let q = rng.below(n);
        p[q].0 += 4.0 * (sd + dy.abs()) * n as f64;
    } else if rng.chance(0.3) {
        // a trend, so that resampling some positions more often than others shows
        p.sort_by(|a, b| (a.0 - a.1).total_cmp(&(b.0 - b.1)));
    }
    let e = exact(&p);
    if e.sd > 1e-4 * e.scale {
        Some(p)
    } else {
        None
    }
}
fn diffs(p: &[(f64, f64)]) -> Vec<f64> {
    p.iter().map(|x| x.0 - x.1).collect()
}
fn c21_exact(rng: &mut Rng, obs: &mut Obs, nmax: usize, n_res: usize) -> CaseResult {
    let n = rng.range(2, nmax);
    let Some(p) = boot_pairs(rng, n) else { return Ok(()) };
    let d = diffs(&p);
    let (lo, hi) = dist::bootstrap_exact(&d);
    obs.sig(hash_p(&p));
    let mut counts = vec![];
    for sw in 0..2 {
        let seed = if rng.chance(0.5) { rng.u64() } else { rng.below(1000) as u64 };
        let it: Vec<(f64, f64)> = if sw == 0 { p.clone() } else { p.iter().map(|x| (x.1, x.0)).collect() };
        let b = BootstrapTester::new().with_n_resamples(n_res).with_random_state(seed).test(it).map_err(|e| format!("rejected {p:?}: {e}"))?;
        ensure!(b.n_topics() == n && b.n_resamples() == n_res && b.random_state() == seed, "reports n={} resamples={} state={}", b.n_topics(), b.n_resamples(), b.random_state());
        let c = count_of(b.p_value(), n_res)?;
        ensure!(
            dist::binom_ok(c, n_res as f64, lo, hi),
            "bootstrap p-value {} ({n_res} resamples, state {seed}, swapped={sw}), exact bootstrap probability in [{lo}, {hi}] for differences {d:?}",
            b.p_value()
        );
        counts.push(c);
        obs.count("p-values against exact", 1);
    }
    if lo > 0.02 && hi < 0.98 {
        obs.count("non-trivial exact p-values", 1);
    }
    obs.sample(|| json!({"differences": d, "exact": [lo, hi], "counts": counts, "resamples": n_res}));
    Ok(())
}
fn c21_mc(rng: &mut Rng, obs: &mut Obs, big: bool) -> CaseResult {
    let n = if big { gen::huge(rng, 4200) / 7 } else { rng.range(7, 60) };
    let Some(p) = boot_pairs(rng, n) else { return Ok(()) };
    let d = diffs(&p);
    let (lo, hi) = own_bootstrap(rng, &d, 40000);
    if big {
        obs.count("samples of more than 200 pairs", 1);
    }
    obs.sig(hash_p(&p));
    // default number of resamples, unseeded
    let b = BootstrapTest::from_paired_samples(p.iter().copied()).map_err(|e| format!("rejected {p:?}: {e}"))?;
    ensure!(b.n_resamples() == 10000 && b.n_topics() == n, "default resamples {} topics {}", b.n_resamples(), b.n_topics());
    let c = count_of(b.p_value(), 10000)?;
    ensure!(dist::binom_ok(c, 10000.0, lo, hi), "bootstrap p-value {} (unseeded, state {}), simulated bootstrap probability in [{lo}, {hi}] for {p:?}", b.p_value(), b.random_state());
    obs.count("p-values against simulation", 1);
    // few resamples
    let k = rng.range(0, 40);
    let b = BootstrapTester::new().with_n_resamples(k).test(p.iter().copied()).map_err(|e| e.to_string())?;
    ensure!(b.n_resamples() == k.max(1), "n_resamples {} configured {k}", b.n_resamples());
    count_of(b.p_value(), k.max(1))?;
    Ok(())
}
fn c21_huge(rng: &mut Rng, i: u64, obs: &mut Obs) -> CaseResult {
    // every other sample is larger than 2^16
    let n = if i % 2 == 0 { rng.range(65_537, 140_000) } else { gen::huge(rng, 70_000) };
    let Some(p) = boot_pairs(rng, n) else { return Ok(()) };
    let d = diffs(&p);
    let (lo, hi) = own_bootstrap(rng, &d, 3000);
    let seed = rng.u64();
    let b = BootstrapTester::new().with_n_resamples(1500).with_random_state(seed).test(p.iter().copied()).map_err(|e| format!("{n} pairs rejected: {e}"))?;
    ensure!(b.n_topics() == n, "{} topics of {n}", b.n_topics());
    let c = count_of(b.p_value(), 1500)?;
    ensure!(dist::binom_ok(c, 1500.0, lo, hi), "bootstrap p-value {} of {n} pairs (1500 resamples, state {seed}), simulated bootstrap probability in [{lo}, {hi}]", b.p_value());
    obs.sig(hash_p(&p));
    obs.count("p-values of very large samples", 1);
    Ok(())
}
/// Pooled mean and dispersion of per-seed counts of n independent trials with probability in [lo, hi].
fn dispersion(what: &str, counts: &[f64], n: f64, lo: f64, hi: f64) -> CaseResult {
    let k = counts.len() as f64;
    let total: f64 = counts.iter().sum();
    ensure!(dist::binom_ok(total, n * k, lo, hi), "{what}: mean p-value {} over {k} seeds, exact value in [{lo}, {hi}]", total / n / k);
    let p = total / n / k;
    let chi: f64 = counts.iter().map(|c| (c - n * p).powi(2)).sum::<f64>() / (n * p * (1.0 - p));
    ensure!(chi > 0.5 * k && chi < 1.5 * k, "{what}: counts of {k} seeds disperse {} times as much as independent ones: {:?}", chi / k, &counts[..10.min(counts.len())]);
    Ok(())
}
/// A number of repetitions. With few of them, one too few or too many, or a lost remainder of a block, shifts the mean.
fn few(rng: &mut Rng) -> usize {
    match rng.below(4) {
        0 => rng.range(1, 4),
        1 => rng.range(1, 20),
        2 => *rng.pick(&[15, 16, 17, 31, 33, 63, 65, 99, 101, 127, 129, 255, 257]),
        _ => 100,
    }
}
fn c21_seeds(rng: &mut Rng, obs: &mut Obs) -> CaseResult {
    let n = rng.range(3, 6);
    let Some(p) = boot_pairs(rng, n) else { return Ok(()) };
    let (lo, hi) = dist::bootstrap_exact(&diffs(&p));
    if hi - lo > 0.15 || lo < 0.15 || hi > 0.85 {
        return Ok(());
    }
    let base = if rng.chance(0.5) { rng.below(100) as u64 } else { rng.u64() };
    for mode in 0..3 {
        let nr = few(rng);
        let mut counts = vec![];
        for i in 0..600u64 {
            let s = match mode {
                0 => base.wrapping_add(i),
                1 => rng.u64(),
                _ => 0,
            };
            let t = BootstrapTester::new().with_n_resamples(nr);
            let t = if mode == 2 { t } else { t.with_random_state(s) };
            counts.push(count_of(t.test(p.iter().copied()).map_err(|e| e.to_string())?.p_value(), nr)?);
        }
        dispersion(["consecutive seeds", "random seeds", "unseeded"][mode], &counts, nr as f64, lo, hi).map_err(|e| format!("{e}; {p:?}"))?;
        obs.count("seed series", 1);
        obs.count("seed series of at most four resamples", (nr <= 4) as u64);
    }
    obs.sig(hash_p(&p));
    Ok(())
}
pub fn c21(ctx: &mut Ctx) {
    ctx.rule = "Bootstrap p-values of small samples against the exact distribution over all n^n resamples (Chernoff bound, error below 2e-13 per comparison), of larger samples against an independent simulation, and mean and dispersion of 600-seed series against the binomial law. Distinct = hash of samples.".into();
    ctx.assumptions = vec!["resamples whose |t| equals the observed one up to rounding may count either way, and so may constant resamples unless all sums are exact (known finding)".into()];
    ctx.require("p-values against exact", 500);
    ctx.require("non-trivial exact p-values", 200);
    ctx.require("p-values against simulation", 50);
    ctx.require("seed series", 30);
    ctx.run_t("known", 1, 1, |_, _, _| {
        // a third of the resamples pick 0.3 only; no other one reaches the observed t
        let d = [(0.3, 0.0), (0.3, 0.0), (0.3, 0.0), (0.3, 0.0), (0.3, 0.0), (0.9, 0.0)];
        let p = BootstrapTester::new().with_n_resamples(20000).with_random_state(1).test(d).map_err(|e| e.to_string())?.p_value();
        let hi = dist::bootstrap_no_constant(&d.map(|x| x.0));
        ctx.known_finding("bootstrap-constant-resample", !dist::binom_ok((p * 20000.0).round(), 20000.0, hi, hi), "bootstrap resamples that pick one difference only count as extreme when rounding leaves them a tiny variance (five differences of 0.3 and one of 0.9)")
    });
    let n = ctx.n(4500, 60000);
    ctx.run("exact", n, |r, _, o| c21_exact(r, o, 6, 20000));
    let n = ctx.n(90, 3000);
    ctx.run("exact-deep", n, |r, _, o| c21_exact(r, o, 5, 400_000));
    let n = ctx.n(600, 12000);
    ctx.run("simulation", n, |r, _, o| c21_mc(r, o, false));
    ctx.run("simulation-large", n / 6, |r, _, o| c21_mc(r, o, true));
    ctx.require("seed series of at most four resamples", 20);
    ctx.require("p-values of very large samples", 4);
    let n = ctx.n(8, 80);
    ctx.run("simulation-huge", n, c21_huge);
    let n = ctx.n(360, 6000);
    ctx.run("seeds", n, |r, _, o| c21_seeds(r, o));
}

// ---------------------------------------------------------------- C22
pub fn own_tukey(rng: &mut Rng, x: &[Vec<f64>], n_mc: usize) -> Vec<Vec<(f64, f64)>> {
    let m = x[0].len();
    let t = dist::TukeyRef::new(x);
    let mut c = vec![vec![(0u64, 0u64); m]; m];
    let mut y = x.to_vec();
    for _ in 0..n_mc {
        let mut s = vec![0.0; m];
        for r in y.iter_mut() {
            rng.shuffle(r);
            for i in 0..m {
                s[i] += r[i];
            }
        }
        t.count(&s, &mut c);
    }
    c.iter().map(|r| r.iter().map(|&(a, b)| (interval(a as f64, n_mc as f64).0, interval(b as f64, n_mc as f64).1)).collect()).collect()
}
fn tukey_structure(p: &[Vec<f64>], x: &[Vec<f64>], n_iters: usize) -> CaseResult {
    let m = x[0].len();
    let scale = x.iter().flatten().fold(0.0f64, |a, b| a.max(b.abs()));
    let d = dist::mean_diffs(x);
    ensure!(p.len() == m && p.iter().all(|r| r.len() == m), "matrix of shape {:?} for {m} systems", p.iter().map(|r| r.len()).collect::<Vec<_>>());
    let mut flat = vec![];
    for i in 0..m {
        ensure!(p[i][i] == 1.0, "diagonal entry {i} is {}", p[i][i]);
        for j in 0..m {
            count_of(p[i][j], n_iters)?;
            ensure!(p[i][j] == p[j][i], "not symmetric at ({i},{j}): {} {}", p[i][j], p[j][i]);
            if i != j {
                if x.iter().all(|r| r[i] == r[j]) {
                    ensure!(p[i][j] == 1.0, "identical systems {i} and {j} get p = {}", p[i][j]);
                }
                flat.push((d[i][j].abs(), p[i][j]));
            }
        }
    }
    for a in &flat {
        for b in &flat {
            ensure!(!(a.0 > b.0 + 1e-9 * scale && a.1 > b.1), "difference {} gets p {}, smaller difference {} gets p {}", a.0, a.1, b.0, b.1);
        }
    }
    Ok(())
}
fn tukey_matrix(rng: &mut Rng, n: usize, m: usize) -> Vec<Vec<f64>> {
    let st = *rng.pick(&STYLES);
    let mut x = matrix(rng, n, m, st);
    if rng.chance(0.4) {
        // a systematic difference
        let k = rng.below(m);
        for r in x.iter_mut() {
            r.swap_with_max(k);
        }
    }
    if m > 2 && rng.chance(0.2) {
        for r in x.iter_mut() {
            r[1] = r[0];
        }
    }
    if n > 3 && rng.chance(if n > 1000 { 0.4 } else { 0.1 }) {
        // one topic dominates
        let (q, f) = (rng.below(n), 4.0 * n as f64);
        x[q].iter_mut().for_each(|v| *v *= f);
    } else if rng.chance(0.3) {
        // topics of growing spread, so that treating some positions unlike others shows
        let key = |r: &[f64]| r.iter().fold(f64::MIN, |a, &b| a.max(b)) - r.iter().fold(f64::MAX, |a, &b| a.min(b));
        x.sort_by(|a, b| key(a).total_cmp(&key(b)));
        if rng.chance(0.5) {
            x.reverse();
        }
    }
    x
}
trait SwapMax {
    fn swap_with_max(&mut self, k: usize);
}
impl SwapMax for Vec<f64> {
    fn swap_with_max(&mut self, k: usize) {
        let mut b = 0;
        for i in 0..self.len() {
            if self[i] > self[b] {
                b = i;
            }
        }
        self.swap(b, k);
    }
}
fn c22_exact(rng: &mut Rng, obs: &mut Obs, n_iters: usize) -> CaseResult {
    let (nmax, m) = *rng.pick(&[(12, 2), (12, 2), (5, 3), (5, 3), (3, 4), (2, 5), (1, 6)]);
    let n = rng.range(1, nmax);
    let x = tukey_matrix(rng, n, m);
    let e = dist::tukey_exact(&x);
    obs.sig(hash_m(&x));
    let seed = if rng.chance(0.5) { rng.u64() } else { rng.below(1000) as u64 };
    let t = RandomizedTukeyHsdTester::new(m).with_n_iters(n_iters).with_random_state(seed).test(&x).map_err(|e| format!("rejected {x:?}: {e}"))?;
    ensure!(t.n_systems() == m && t.n_topics() == n && t.n_iters() == n_iters && t.random_state() == seed, "reports {t:?}");
    let p = t.p_values();
    tukey_structure(&p, &x, n_iters).map_err(|e| format!("{e}: {x:?}"))?;
    for i in 0..m {
        for j in 0..i {
            let c = count_of(p[i][j], n_iters)?;
            ensure!(
                dist::binom_ok(c, n_iters as f64, e[i][j].0, e[i][j].1),
                "p-value ({j},{i}) is {} ({n_iters} iterations, state {seed}), exact permutation probability {:?} for {x:?}",
                p[i][j],
                e[i][j]
            );
            obs.count("p-values against exact", 1);
            if e[i][j].0 > 0.02 && e[i][j].1 < 0.98 {
                obs.count("non-trivial exact p-values", 1);
            }
            if e[i][j].0 < e[i][j].1 {
                obs.count("p-values with ties separated by rounding", 1);
            }
        }
    }
    obs.sample(|| json!({"scores": x, "exact": e[0], "reported": p[0]}));
    Ok(())
}
fn c22_mc(rng: &mut Rng, obs: &mut Obs, big: bool) -> CaseResult {
    let (n, m) = match rng.below(3) {
        _ if !big => (rng.range(4, 40), rng.range(2, 8)),
        0 => (rng.range(2, 8), rng.range(10, 30)),
        _ => (gen::huge(rng, 4200) / 7, rng.range(2, 4)),
    };
    let x = tukey_matrix(rng, n, m);
    let e = own_tukey(rng, &x, 20000);
    obs.sig(hash_m(&x));
    let t = RandomizedTukeyHsdTest::from_tupled_samples(&x, m).map_err(|e| format!("rejected: {e}"))?;
    ensure!(t.n_iters() == 10000 && t.n_systems() == m && t.n_topics() == n, "default test reports {} iterations, {}x{}", t.n_iters(), t.n_topics(), t.n_systems());
    let p = t.p_values();
    tukey_structure(&p, &x, 10000).map_err(|e| format!("{e}: {x:?}"))?;
    for i in 0..m {
        for j in 0..i {
            let c = count_of(p[i][j], 10000)?;
            ensure!(dist::binom_ok(c, 10000.0, e[i][j].0, e[i][j].1), "p-value ({j},{i}) is {} (unseeded, state {}), simulated permutation probability in {:?} for {x:?}", p[i][j], t.random_state(), e[i][j]);
            obs.count("p-values against simulation", 1);
        }
    }
    let k = rng.range(0, 40);
    let t = RandomizedTukeyHsdTester::new(m).with_n_iters(k).test(&x).map_err(|e| e.to_string())?;
    ensure!(t.n_iters() == k.max(1), "n_iters {} configured {k}", t.n_iters());
    tukey_structure(&t.p_values(), &x, k.max(1))
}
fn c22_huge(rng: &mut Rng, i: u64, obs: &mut Obs) -> CaseResult {
    // in turn: more than 2^16 topics, more than 2^8 systems, a few thousand topics
    let (n, m, iters) = match i % 3 {
        0 => (rng.range(65_537, 90_000), rng.range(2, 3), 500),
        1 => (rng.range(1, 6), rng.range(257, 400), 300),
        _ => (gen::huge(rng, 9000), rng.range(2, 12), 800),
    };
    let x = tukey_matrix(rng, n, m);
    let e = own_tukey(rng, &x, 2 * iters);
    let seed = rng.u64();
    let t = RandomizedTukeyHsdTester::new(m).with_n_iters(iters).with_random_state(seed).test(&x).map_err(|e| format!("{n} topics, {m} systems rejected: {e}"))?;
    ensure!(t.n_systems() == m && t.n_topics() == n && t.n_iters() == iters && t.random_state() == seed, "reports {} topics, {} systems of {n}, {m}", t.n_topics(), t.n_systems());
    let p = t.p_values();
    let d = dist::mean_diffs(&x);
    let scale = x.iter().flatten().fold(0.0f64, |a, b| a.max(b.abs()));
    let mut flat = vec![];
    for i in 0..m {
        ensure!(p[i].len() == m && p[i][i] == 1.0, "row {i} of {m} systems has {} entries, diagonal {:?}", p[i].len(), p[i].get(i));
        for j in 0..i {
            let c = count_of(p[i][j], iters)?;
            ensure!(p[i][j] == p[j][i], "not symmetric at ({i},{j}): {} {}", p[i][j], p[j][i]);
            ensure!(dist::binom_ok(c, iters as f64, e[i][j].0, e[i][j].1), "p-value ({j},{i}) of {n} topics and {m} systems is {} ({iters} iterations, state {seed}), simulated permutation probability in {:?}", p[i][j], e[i][j]);
            flat.push((d[i][j].abs(), p[i][j]));
        }
    }
    flat.sort_by(|a, b| a.0.total_cmp(&b.0));
    // the smallest p-value among clearly smaller differences bounds the later ones
    let (mut lo, mut k) = (1.0f64, 0);
    for a in &flat {
        while flat[k].0 + 1e-9 * scale < a.0 {
            lo = lo.min(flat[k].1);
            k += 1;
        }
        ensure!(a.1 <= lo, "difference {} gets p {}, a smaller difference {lo} ({n} topics, {m} systems)", a.0, a.1);
    }
    obs.sig(hash_m(&x));
    obs.count(["p-values of more than 2^16 topics", "p-values of more than 2^8 systems", "p-values of thousands of topics"][i as usize % 3], flat.len() as u64);
    Ok(())
}
fn c22_seeds(rng: &mut Rng, obs: &mut Obs) -> CaseResult {
    let (n, m) = *rng.pick(&[(4, 3), (5, 2), (7, 2), (3, 3), (2, 4)]);
    let st = *rng.pick(&[Style::Unit, Style::Effects, Style::Outlier]);
    let x = matrix(rng, n, m, st);
    let e = dist::tukey_exact(&x);
    let Some((i, j)) = (0..m).flat_map(|i| (0..i).map(move |j| (i, j))).find(|&(i, j)| e[i][j].0 == e[i][j].1 && (0.15..0.85).contains(&e[i][j].0)) else { return Ok(()) };
    let base = if rng.chance(0.5) { rng.below(100) as u64 } else { rng.u64() };
    for mode in 0..3 {
        let nr = few(rng);
        let mut counts = vec![];
        for k in 0..600u64 {
            let t = RandomizedTukeyHsdTester::new(m).with_n_iters(nr);
            let t = match mode {
                0 => t.with_random_state(base.wrapping_add(k)),
                1 => t.with_random_state(rng.u64()),
                _ => t,
            };
            counts.push(count_of(t.test(&x).map_err(|e| e.to_string())?.p_values()[i][j], nr)?);
        }
        dispersion(["consecutive seeds", "random seeds", "unseeded"][mode], &counts, nr as f64, e[i][j].0, e[i][j].1).map_err(|e| format!("{e}; {x:?}"))?;
        obs.count("seed series", 1);
        obs.count("seed series of at most four iterations", (nr <= 4) as u64);
    }
    obs.sig(hash_m(&x));
    Ok(())
}
pub fn c22(ctx: &mut Ctx) {
    ctx.rule = "Randomized Tukey HSD p-values of small inputs (many with exact or rounding-separated ties) against the exact distribution over all (m!)^n permutations, of larger ones against an independent simulation; symmetry, diagonal, monotonicity and integrality of counts; dispersion of 600-seed series. Distinct = hash of the scores.".into();
    ctx.require("p-values against exact", 1000);
    ctx.require("non-trivial exact p-values", 300);
    ctx.require("p-values against simulation", 100);
    ctx.require("seed series", 30);
    ctx.run_t("known", 1, 1, |_, _, _| {
        let x = [[1.0, 1.0, 0.0], [1.0, 0.0, 0.0], [1.0, 0.0, 0.0]];
        let t = RandomizedTukeyHsdTester::new(3).with_n_iters(20000).with_random_state(1).test(x).map_err(|e| e.to_string())?;
        let e = dist::tukey_exact(&x.map(|r| r.to_vec()))[0][1].1;
        ctx.known_finding("tukey-rounding-tie", !dist::binom_ok((t.p_values()[0][1] * 20000.0).round(), 20000.0, e, e), "randomized Tukey HSD misses shuffles that equal the observed difference when rounding of the means separates them ([[1,1,0],[1,0,0],[1,0,0]])")
    });
    let n = ctx.n(4500, 60000);
    ctx.run("exact", n, |r, _, o| c22_exact(r, o, 10000));
    let n = ctx.n(90, 3000);
    ctx.run("exact-deep", n, |r, _, o| c22_exact(r, o, 200_000));
    let n = ctx.n(180, 6000);
    ctx.run("simulation", n, |r, _, o| c22_mc(r, o, false));
    ctx.run("simulation-large", n / 3, |r, _, o| c22_mc(r, o, true));
    ctx.require("seed series of at most four iterations", 20);
    ctx.require("p-values of more than 2^16 topics", 2);
    ctx.require("p-values of more than 2^8 systems", 1000);
    let n = ctx.n(9, 120);
    ctx.run("simulation-huge", n, c22_huge);
    let n = ctx.n(300, 6000);
    ctx.run("seeds", n, |r, _, o| c22_seeds(r, o));
}

// ---------------------------------------------------------------- C23
fn boot_p(p: &[(f64, f64)], n: usize, s: u64) -> Result<f64, String> {
    BootstrapTester::new().with_n_resamples(n).with_random_state(s).test(p.iter().copied()).map(|b| b.p_value()).map_err(|e| e.to_string())
}
fn tuk_p(x: &[Vec<f64>], n: usize, s: u64) -> Result<Vec<f64>, String> {
    RandomizedTukeyHsdTester::new(x[0].len()).with_n_iters(n).with_random_state(s).test(x).map(|b| b.p_values().concat()).map_err(|e| e.to_string())
}
fn noisy_pairs(rng: &mut Rng, n: usize) -> Vec<(f64, f64)> {
    (0..n).map(|_| (rng.normal() + 0.3, rng.normal())).collect()
}
fn seeds_pick(rng: &mut Rng) -> u64 {
    match rng.below(5) {
        0 => *rng.pick(&[0, 1, 42, u64::MAX, u64::MAX - 1, 1 << 32, (1 << 32) - 1, 1 << 63, (1 << 53) + 1]),
        1 => rng.below(100) as u64,
        _ => rng.u64() >> rng.below(64),
    }
}
fn c23_repeat(rng: &mut Rng, obs: &mut Obs) -> CaseResult {
    let n = rng.range(3, 30);
    let p = noisy_pairs(rng, n);
    let m = rng.range(2, 5);
    let x = matrix(rng, n, m, Style::Effects);
    let nr = *rng.pick(&[1usize, 2, 10, 333, 1000]);
    let s = seeds_pick(rng);
    let (b0, t0) = (boot_p(&p, nr, s)?, tuk_p(&x, nr, s)?);
    obs.sig(hash_p(&p) ^ s);
    obs.sample(|| json!({"state": s, "resamples": nr, "bootstrap_p": b0, "tukey_p": t0}));
    // other calls in between, builder reuse, reversed builder order, other thread
    let tb = BootstrapTester::new().with_random_state(s).with_n_resamples(nr);
    let tt = RandomizedTukeyHsdTester::new(m).with_random_state(s).with_n_iters(nr);
    for i in 0..3 {
        let _ = boot_p(&p, rng.range(1, 50), rng.u64())?;
        let _ = tuk_p(&x, rng.range(1, 50), rng.u64())?;
        let b = tb.test(p.iter().copied()).map_err(|e| e.to_string())?;
        ensure!(b.p_value() == b0 && b.random_state() == s && b.n_resamples() == nr, "bootstrap with state {s}: p {} then {}, reports state {} resamples {}", b0, b.p_value(), b.random_state(), b.n_resamples());
        let t = tt.test(&x).map_err(|e| e.to_string())?;
        ensure!(t.p_values().concat() == t0 && t.random_state() == s && t.n_iters() == nr, "randomized Tukey HSD with state {s}: p {t0:?} then {:?}, reports state {} iterations {}", t.p_values(), t.random_state(), t.n_iters());
        if i == 0 {
            let (b1, t1) = std::thread::scope(|sc| sc.spawn(|| (boot_p(&p, nr, s), tuk_p(&x, nr, s))).join().unwrap());
            ensure!(b1? == b0 && t1? == t0, "another thread gets different p-values for state {s}");
        }
        obs.count("repeats", 1);
    }
    let z = BootstrapTester::default().with_n_resamples(0).with_random_state(s).test(p.iter().copied()).map_err(|e| e.to_string())?;
    ensure!(z.n_resamples() == 1, "0 resamples are reported as {}", z.n_resamples());
    let z = RandomizedTukeyHsdTester::new(m).with_n_iters(0).with_random_state(s).test(&x).map_err(|e| e.to_string())?;
    ensure!(z.n_iters() == 1, "0 iterations are reported as {}", z.n_iters());
    // unseeded
    let u = BootstrapTester::new().with_n_resamples(nr);
    let (u1, u2) = (u.test(p.iter().copied()).map_err(|e| e.to_string())?, u.test(p.iter().copied()).map_err(|e| e.to_string())?);
    ensure!(u1.random_state() != u2.random_state(), "two unseeded bootstrap tests report the same state {}", u1.random_state());
    ensure!(boot_p(&p, nr, u1.random_state())? == u1.p_value() && boot_p(&p, nr, u2.random_state())? == u2.p_value(), "reported state {} does not reproduce p {}", u1.random_state(), u1.p_value());
    let u = RandomizedTukeyHsdTester::new(m).with_n_iters(nr);
    let (u1, u2) = (u.test(&x).map_err(|e| e.to_string())?, u.test(&x).map_err(|e| e.to_string())?);
    ensure!(u1.random_state() != u2.random_state(), "two unseeded randomized tests report the same state {}", u1.random_state());
    ensure!(tuk_p(&x, nr, u1.random_state())? == u1.p_values().concat() && tuk_p(&x, nr, u2.random_state())? == u2.p_values().concat(), "reported state {} does not reproduce {:?}", u1.random_state(), u1.p_values());
    obs.count("unseeded tests reproduced", 4);
    Ok(())
}
fn c23_defaults(rng: &mut Rng, obs: &mut Obs) -> CaseResult {
    let p = noisy_pairs(rng, 12);
    let x = matrix(rng, 8, 3, Style::Effects);
    let b = BootstrapTest::from_paired_samples(p.iter().copied()).map_err(|e| e.to_string())?;
    ensure!(b.n_resamples() == 10000, "default n_resamples {}", b.n_resamples());
    ensure!(boot_p(&p, 10000, b.random_state())? == b.p_value(), "default bootstrap: state {} does not reproduce {}", b.random_state(), b.p_value());
    let t = RandomizedTukeyHsdTest::from_tupled_samples(&x, 3).map_err(|e| e.to_string())?;
    ensure!(t.n_iters() == 10000, "default n_iters {}", t.n_iters());
    ensure!(tuk_p(&x, 10000, t.random_state())? == t.p_values().concat(), "default randomized test: state {} does not reproduce {:?}", t.random_state(), t.p_values());
    obs.count("default tests reproduced", 2);
    obs.sig(hash_p(&p));
    Ok(())
}
/// States that differ in one bit, or by one, give different streams.
fn c23_bits(rng: &mut Rng, case: u64, obs: &mut Obs) -> CaseResult {
    let s = seeds_pick(rng);
    let o = if case < 64 {
        s ^ (1 << case)
    } else if case < 72 {
        s.wrapping_add(case - 63)
    } else {
        s.swap_bytes() ^ (s == s.swap_bytes()) as u64
    };
    let (mut eb, mut et) = (0, 0);
    for _ in 0..8 {
        let p = noisy_pairs(rng, 12);
        let x = matrix(rng, 10, 2, Style::Effects);
        // an observed difference in the middle of its distribution
        let p: Vec<(f64, f64)> = {
            let e = exact(&p);
            p.iter().map(|v| (v.0 - e.mean + 0.7 * e.sd / e.n.sqrt(), v.1)).collect()
        };
        eb += (boot_p(&p, 4000, s)? == boot_p(&p, 4000, o)?) as u32;
        let e = exact(&x.iter().map(|r| (r[0], r[1])).collect::<Vec<_>>());
        let x: Vec<Vec<f64>> = x.iter().map(|r| vec![r[0] - e.mean + 0.7 * e.sd / e.n.sqrt(), r[1]]).collect();
        et += (tuk_p(&x, 4000, s)? == tuk_p(&x, 4000, o)?) as u32;
    }
    ensure!(eb < 7, "bootstrap: states {s} and {o} give the same p-values on {eb} of 8 sample sets");
    ensure!(et < 7, "randomized Tukey HSD: states {s} and {o} give the same p-values on {et} of 8 sample sets");
    obs.sig(mix(s) ^ o);
    obs.count("pairs of states told apart", 1);
    Ok(())
}
/// Another process gets the same p-values.
fn c23_process(rng: &mut Rng, obs: &mut Obs) -> CaseResult {
    let seed = rng.u64();
    let here = c23_child(seed)?;
    let out = std::process::Command::new(std::env::current_exe().unwrap()).args(["--child-c23", &seed.to_string()]).output().map_err(|e| format!("HARNESS: spawn: {e}"))?;
    let there = String::from_utf8_lossy(&out.stdout).trim().to_string();
    ensure!(here == there, "another process gets {there:?} instead of {here:?}");
    obs.count("processes compared", 1);
    obs.sig(seed);
    Ok(())
}
pub fn c23_child(seed: u64) -> Result<String, String> {
    let mut r = Rng::new(seed);
    let n = r.range(3, 20);
    let p = noisy_pairs(&mut r, n);
    let x = matrix(&mut r, n, 3, Style::Effects);
    let s = seeds_pick(&mut r);
    Ok(format!("{:?} {:?}", boot_p(&p, 500, s)?, tuk_p(&x, 500, s)?))
}
pub fn c23(ctx: &mut Ctx) {
    ctx.rule = "Seeded tests repeated after other calls, with reused and reordered builders, in other threads and other processes; unseeded tests reproduced from the state they report; states differing in each of the 64 bits, by small offsets and by byte order told apart on 8 sample sets. Distinct = hash of samples and state.".into();
    ctx.require("repeats", 1000);
    ctx.require("unseeded tests reproduced", 1000);
    ctx.require("pairs of states told apart", 73);
    ctx.require("processes compared", 50);
    let n = ctx.n(3000, 60000);
    ctx.run("repeat", n, |r, _, o| c23_repeat(r, o));
    let n = ctx.n(40, 400);
    ctx.run("defaults", n, |r, _, o| c23_defaults(r, o));
    for k in 0..ctx.n(2, 20) {
        ctx.run(&format!("bits{k}"), 80, |r, i, o| c23_bits(r, i, o));
    }
    let n = ctx.n(150, 2000);
    ctx.run("process", n, |r, _, o| c23_process(r, o));
}
