//! C04-C11: metrics, evaluation, metric names.
use crate::ensure;
use crate::gen::{self, Grades, Opts, Scores};
use crate::model::{self, Data, Kind};
use crate::p_store::Key;
use crate::report::{close, CaseResult, Ctx, Obs};
use crate::rng::{hash_str, Rng};
use elinor::metrics::compute_metric;
use elinor::{ElinorError, Metric, PredRelStore, Record, TrueRelStore};
use ordered_float::OrderedFloat;
use serde_json::json;
use std::collections::BTreeMap;

pub fn stores<K: Key>(d: &Data<K>) -> Result<(TrueRelStore<K>, PredRelStore<K>), String> {
    let t = TrueRelStore::from_records(d.trues.iter().map(|r| Record { query_id: r.0.clone(), doc_id: r.1.clone(), score: r.2 }))
        .map_err(|e| format!("true store: {e}"))?;
    let p = PredRelStore::from_records(d.preds.iter().map(|r| Record { query_id: r.0.clone(), doc_id: r.1.clone(), score: OrderedFloat(r.2) }))
        .map_err(|e| format!("pred store: {e}"))?;
    Ok((t, p))
}
pub fn max_grade<K>(d: &Data<K>) -> u32 {
    d.trues.iter().map(|r| r.2).max().unwrap_or(0)
}
/// Is the metric's exact value representable on this data?
pub fn in_domain<K>(kind: Kind, d: &Data<K>) -> bool {
    !kind.burges() || max_grade(d) <= 1000
}
pub fn brief<K: std::fmt::Debug>(d: &Data<K>) -> String {
    let s = format!("trues={:?} preds={:?}", d.trues, d.preds);
    s.chars().take(3000).collect()
}
fn sig<K: std::hash::Hash>(d: &Data<K>) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    for r in &d.trues {
        (&r.0, &r.1, r.2).hash(&mut h);
    }
    for r in &d.preds {
        (&r.0, &r.1, r.2.to_bits()).hash(&mut h);
    }
    h.finish()
}

/// Compares compute_metric with the definitions for the given metrics.
pub fn against_model<K: Key>(rng: &mut Rng, obs: &mut Obs, d: &Data<K>, kinds: &[Kind], max_k: usize) -> CaseResult {
    let (t, p) = stores(d)?;
    let views = d.views();
    let v0 = views.values().next().unwrap();
    let mut ks = gen::cutoffs(rng, v0.ranked.len(), v0.n_rel());
    while ks.len() > max_k {
        ks.remove(rng.below(ks.len()));
    }
    for &kind in kinds {
        if !in_domain(kind, d) {
            continue;
        }
        let one = [0usize];
        for &k in if kind.has_k() { &ks[..] } else { &one[..] } {
            let m = kind.at(k);
            let got = compute_metric(&t, &p, m).map_err(|e| format!("{m:?}: {e}; {}", brief(d)))?;
            ensure!(got.len() == views.len() && got.keys().eq(views.keys()), "{m:?}: scored queries {:?}, predicted {:?}", got.keys(), views.keys());
            for (q, v) in &views {
                let want = model::metric(kind, k, v);
                let g = got[q];
                obs.count("scores compared", 1);
                obs.count(&format!("metric {}", kind.name()), 1);
                if want > 0.0 && want < 1.0 {
                    obs.count("scores strictly between 0 and 1", 1);
                }
                if v.ranked.len() > 1000 {
                    obs.count("scores of rankings deeper than 1000", 1);
                }
                if v.ranked.len() > 65536 {
                    obs.count("scores of rankings deeper than 65536", 1);
                }
                if v.n_rel() == 0 {
                    obs.count("queries without relevant documents", 1);
                }
                if k > v.ranked.len() {
                    obs.count("cutoffs beyond the list", 1);
                }
                // all terms of the sums are non-negative but those of Bpref
                let abs = if kind == Kind::Bpref { 1e-12 } else { 0.0 };
                ensure!(close(g, want, 1e-9, abs), "{m:?} of query {q:?} = {g:e}, by definition {want:e}; ranked grades {:?}, judged {:?}", clip(&v.ranked), clip(&v.judged));
            }
        }
    }
    Ok(())
}
fn clip<T: std::fmt::Debug>(x: &[T]) -> String {
    if x.len() <= 80 {
        format!("{x:?}")
    } else {
        format!("{:?}.. ({} entries)", &x[..80], x.len())
    }
}

/// A data set with one of several key types.
pub fn any_keys(rng: &mut Rng, obs: &mut Obs, o: &Opts, kinds: &[Kind], max_k: usize) -> CaseResult {
    let d = gen::data_idx(rng, o);
    obs.sig(sig(&d));
    obs.sample(|| json!({"queries": model_dims(&d).0, "judgments": d.trues.len(), "predictions": d.preds.len(), "head": brief(&d).chars().take(300).collect::<String>()}));
    let (nq, nd) = gen::dims(&d);
    match rng.below(7) {
        0 | 1 => {
            let (a, b) = (*rng.pick(&gen::IDS), *rng.pick(&gen::IDS));
            let (q, ds) = (gen::ids(rng, nq, a, "q"), gen::ids(rng, nd, b, "d"));
            against_model(rng, obs, &gen::rename(&d, &q, &ds), kinds, max_k)
        }
        2 => {
            let (a, b) = (*rng.pick(&gen::IDS), *rng.pick(&gen::IDS));
            let (q, ds) = (gen::ids(rng, nq, a, "q"), gen::ids(rng, nd, b, "d"));
            let q: Vec<&str> = q.iter().map(|s| s.as_str()).collect();
            let ds: Vec<&str> = ds.iter().map(|s| s.as_str()).collect();
            against_model(rng, obs, &gen::rename(&d, &q, &ds), kinds, max_k)
        }
        3 => {
            let mut c: Vec<char> = (0x21u32..).filter_map(char::from_u32).take(nd.max(nq)).collect();
            rng.shuffle(&mut c);
            against_model(rng, obs, &gen::rename(&d, &c, &c), kinds, max_k)
        }
        4 => {
            let c: Vec<u32> = (0..nd.max(nq) as u32).map(|i| i.wrapping_mul(2654435761)).collect();
            against_model(rng, obs, &gen::rename(&d, &c, &c), kinds, max_k)
        }
        5 => {
            let c = gen::vague(nq.max(nd));
            against_model(rng, obs, &gen::rename(&d, &c, &c), kinds, max_k)
        }
        _ => against_model(rng, obs, &d, kinds, max_k),
    }
}
fn model_dims(d: &Data<usize>) -> (usize, usize) {
    gen::dims(d)
}

/// Every combination of a tiny universe: all grade assignments of up to 4 documents (judged or not),
/// all retrieved orders. `case` enumerates them.
fn tiny(case: u64, kinds: &[Kind], obs: &mut Obs) -> CaseResult {
    // document states: not judged, grade 0, 1, 2; retrieved mask; permutation
    const N: usize = 4;
    let mut c = case;
    let mut st = [0u32; N];
    for s in st.iter_mut() {
        *s = (c % 4) as u32;
        c /= 4;
    }
    let mask = (c % 16) as usize;
    c /= 16;
    let mut perm: Vec<usize> = (0..N).collect();
    let mut pool = perm.clone();
    for (i, p) in perm.iter_mut().enumerate() {
        let f = N - i;
        *p = pool.remove((c % f as u64) as usize);
        c /= f as u64;
    }
    let trues: Vec<(u32, u32, u32)> = (0..N).filter(|&i| st[i] > 0).map(|i| (1, i as u32, st[i] - 1)).collect();
    let preds: Vec<(u32, u32, f64)> = (0..N).filter(|&i| mask >> i & 1 == 1).map(|i| (1, i as u32, -(perm[i] as f64))).collect();
    if trues.is_empty() || preds.is_empty() {
        return Ok(());
    }
    let d = Data { trues, preds };
    let (t, p) = stores(&d)?;
    let v = &d.views()[&1];
    for &kind in kinds {
        for k in 0..if kind.has_k() { 7 } else { 1 } {
            let got = compute_metric(&t, &p, kind.at(k)).map_err(|e| e.to_string())?;
            let want = model::metric(kind, k, v);
            obs.count("tiny-world scores compared", 1);
            ensure!(got.len() == 1 && close(got[&1], want, 1e-9, 1e-12), "{:?} = {got:?}, by definition {want}; {v:?}", kind.at(k));
        }
    }
    obs.sig(hash_str(&format!("{v:?}")));
    Ok(())
}
const TINY: u64 = 256 * 16 * 24;

/// More than 2^20 retrieved documents, a few of them judged, anywhere or next to rank 2^20.
fn million(rng: &mut Rng, obs: &mut Obs, kinds: &[Kind]) -> CaseResult {
    const M: usize = 1 << 20;
    let n = rng.range(M + 1, M + 200_000);
    let mut at: Vec<usize> = (0..rng.range(1, 4)).map(|_| rng.below(n)).collect();
    at.extend((0..rng.range(1, 3)).map(|_| M + rng.below(5) - 3).filter(|x| *x < n));
    at.push(rng.range(M, n - 1));
    at.sort_unstable();
    at.dedup();
    let first = rng.chance(0.5);
    let trues: Vec<(usize, usize, u32)> = at.iter().enumerate().map(|(i, &d)| (0, d, if i == 0 && first { 0 } else { rng.below(4) as u32 })).chain([(0, n + 7, 1)]).collect();
    let preds: Vec<(usize, usize, f64)> = (0..n).map(|d| (0, d, -(d as f64))).collect();
    let d = Data { trues, preds };
    let (t, p) = stores(&d)?;
    let v = &d.views()[&0];
    obs.sig(at.iter().fold(n as u64, |h, x| crate::rng::mix(h ^ *x as u64)));
    for &kind in kinds {
        for k in if kind.has_k() { vec![0, M + rng.below(3) - 1, n, rng.range(M, n)] } else { vec![0] } {
            let got = compute_metric(&t, &p, kind.at(k)).map_err(|e| e.to_string())?;
            let want = model::metric(kind, k, v);
            obs.count("scores of a million documents", 1);
            ensure!(got.len() == 1 && close(got[&0], want, 1e-9, 1e-12), "{:?} = {got:?}, by definition {want}; {n} documents, {:?}", kind.at(k), d.trues);
        }
    }
    Ok(())
}
fn definition_check(ctx: &mut Ctx, kinds: &'static [Kind]) {
    ctx.rule = "Random judgments x rankings x cutoffs (size ladder, ties, unjudged documents, degenerate judgment sets, five key types) plus every 4-document world; each score compared with an independent implementation of the documented definition. Distinct = hash of the data set.".into();
    ctx.assumptions = vec![
        "scores are compared with relative tolerance 1e-9 / absolute 1e-12 (order of summation is free)".into(),
        "Burges gains are only compared for grades <= 1000".into(),
    ];
    ctx.require("scores compared", 20000);
    ctx.require("scores strictly between 0 and 1", 2000);
    ctx.require("queries without relevant documents", 200);
    ctx.require("scores of rankings deeper than 1000", 100);
    ctx.run("tiny-world", TINY, |_, i, o| tiny(i, kinds, o));
    let n = ctx.n(120000, 4000000);
    ctx.run("random", n, |r, _, o| any_keys(r, o, &Opts { max_docs: 300, ..Default::default() }, kinds, 8));
    let n = ctx.n(4000, 120000);
    ctx.run("deep", n, |r, _, o| any_keys(r, o, &Opts { max_docs: 2600, max_queries: 3, ..Default::default() }, kinds, 5));
    let n = ctx.n(64, 2000);
    ctx.run("very-deep", n, |r, _, o| {
        let s = *r.pick(&[Scores::Distinct, Scores::FewLevels, Scores::Decimals]);
        // few relevant documents where a quadratic implementation is legitimate
        let (g, p) = if kinds.contains(&Kind::Ap) || kinds.contains(&Kind::Bpref) { (Some(Grades::Small), Some(*r.pick(&[0.0005, 0.002]))) } else { (None, None) };
        any_keys(r, o, &Opts { max_docs: 140_000, max_queries: 1, scores: Some(s), grades: g, p_rel: p, ..Default::default() }, kinds, 3)
    });
    // tens of thousands of relevant documents, a handful of them retrieved
    let n = ctx.n(40, 1200);
    ctx.run("many-relevant", n, |r, _, o| {
        let docs = gen::huge(r, 200_000);
        let g = *r.pick(&[Grades::AllRelevant, Grades::Small]);
        let ret = *r.pick(&[2e-5, 1e-4, 1e-3]);
        o.count("queries with thousands of relevant documents", 1);
        any_keys(r, o, &Opts { max_docs: docs, max_queries: 1, docs: Some(docs), grades: Some(g), p_rel: Some(0.8), p_ret: Some(ret), ..Default::default() }, kinds, 12)
    });
    ctx.require("scores of a million documents", kinds.len() as u64 * 2);
    let n = ctx.n(8, 100);
    ctx.run("million", n, |r, _, o| million(r, o, kinds));
    let n = ctx.n(600, 15000);
    ctx.run("many-queries", n, |r, _, o| any_keys(r, o, &Opts { max_docs: 12, max_queries: 1500, ..Default::default() }, kinds, 4));
    let n = ctx.n(16, 600);
    ctx.run("very-many-queries", n, |r, _, o| {
        let q = gen::huge(r, 100_000);
        any_keys(r, o, &Opts { max_docs: 2, max_queries: q, queries: Some(q), ..Default::default() }, kinds, 2)
    });
}
pub fn c04(ctx: &mut Ctx) {
    definition_check(ctx, &[Kind::Hits, Kind::Success, Kind::Precision, Kind::Recall, Kind::F1, Kind::RPrec]);
    ctx.require("cutoffs beyond the list", 1000);
}
pub fn c05(ctx: &mut Ctx) {
    definition_check(ctx, &[Kind::Ap, Kind::Rr]);
}
pub fn c07(ctx: &mut Ctx) {
    definition_check(ctx, &[Kind::Dcg, Kind::Ndcg, Kind::DcgB, Kind::NdcgB]);
    let n = ctx.n(20000, 500000);
    ctx.run("wide-grades", n, |r, _, o| {
        any_keys(r, o, &Opts { max_docs: 60, max_queries: 4, grades: Some(Grades::Wide), max_wide: 1000, ..Default::default() }, &[Kind::DcgB, Kind::NdcgB, Kind::Dcg, Kind::Ndcg], 8)
    });
    ctx.run("huge-grades", n / 2, |r, _, o| {
        any_keys(r, o, &Opts { max_docs: 60, max_queries: 4, grades: Some(Grades::Huge), ..Default::default() }, &[Kind::Dcg, Kind::Ndcg], 8)
    });
    // Burges gain beyond the representable range: must not be negative or below the gain of a smaller grade.
    ctx.run("burges-extreme", 200, |r, _, o| {
        let g = *r.pick(&[1001u32, 1023, 1024, 5000, i32::MAX as u32, 1 << 31, u32::MAX]);
        let d = Data { trues: vec![(0u32, 0u32, g), (0, 1, 1000)], preds: vec![(0, 0, 1.0)] };
        let e = Data { trues: d.trues.clone(), preds: vec![(0, 1, 1.0)] };
        let (t, p) = stores(&d)?;
        let (_, p2) = stores(&e)?;
        let a = compute_metric(&t, &p, Metric::DCGBurges { k: 0 }).map_err(|e| e.to_string())?[&0];
        let b = compute_metric(&t, &p2, Metric::DCGBurges { k: 0 }).map_err(|e| e.to_string())?[&0];
        o.count("extreme Burges gains", 1);
        ensure!(a > b, "DCG (Burges) of a single document of grade {g} is {a:e}, of grade 1000 {b:e}");
        Ok(())
    });
}

pub fn c06(ctx: &mut Ctx) {
    definition_check(ctx, &[Kind::Bpref]);
    let n = ctx.n(80000, 2000000);
    ctx.run("balance", n, |r, _, o| {
        // R, N chosen on a grid (N = 0, N < R, N = R, N > R), unjudged documents mixed in, arbitrary retrieved subset
        let (rr, nn, uu) = (r.below(8), r.below(9), r.below(8));
        let mut docs: Vec<(u32, Option<u32>)> = vec![];
        for i in 0..rr {
            docs.push((i as u32, Some(1 + r.below(3) as u32)));
        }
        for i in 0..nn {
            docs.push(((100 + i) as u32, Some(0)));
        }
        for i in 0..uu {
            docs.push(((200 + i) as u32, None));
        }
        let trues: Vec<(u32, u32, u32)> = docs.iter().filter_map(|x| x.1.map(|g| (0, x.0, g))).collect();
        r.shuffle(&mut docs);
        let keep = r.below(docs.len() + 1);
        docs.truncate(keep.max(1));
        if trues.is_empty() || docs.is_empty() {
            return Ok(());
        }
        let preds: Vec<(u32, u32, f64)> = docs.iter().enumerate().map(|(i, x)| (0, x.0, -(i as f64))).collect();
        let d = Data { trues: trues.clone(), preds };
        let (t, p) = stores(&d)?;
        let got = compute_metric(&t, &p, Metric::Bpref).map_err(|e| e.to_string())?[&0];
        let v = &d.views()[&0];
        let want = model::metric(Kind::Bpref, 0, v);
        o.count("balance cases", 1);
        o.count(if nn == 0 { "no judged non-relevant" } else if nn < rr { "fewer non-relevant" } else { "enough non-relevant" }, 1);
        ensure!(got.is_finite() && (0.0..=1.0 + 1e-9).contains(&got), "Bpref = {got} out of [0,1]; {v:?}");
        ensure!(close(got, want, 1e-9, 1e-12), "Bpref = {got}, by definition {want}; {v:?}");
        // remove every unjudged document, or add many
        let judged: Vec<_> = docs.iter().filter(|x| x.1.is_some()).cloned().collect();
        if !judged.is_empty() {
            let d2 = Data { trues: trues.clone(), preds: judged.iter().enumerate().map(|(i, x)| (0u32, x.0, -(i as f64))).collect() };
            let (t2, p2) = stores(&d2)?;
            let g2 = compute_metric(&t2, &p2, Metric::Bpref).map_err(|e| e.to_string())?[&0];
            ensure!(close(got, g2, 1e-12, 1e-12), "Bpref changes from {got} to {g2} when unjudged documents are removed; {v:?}");
            let mut padded = vec![];
            let mut s = 0.0;
            for x in &judged {
                for _ in 0..r.below(4) {
                    s -= 1.0;
                    padded.push((0u32, 1000 + (-s) as u32, s));
                }
                s -= 1.0;
                padded.push((0, x.0, s));
            }
            let (t3, p3) = stores(&Data { trues: trues.clone(), preds: padded })?;
            let g3 = compute_metric(&t3, &p3, Metric::Bpref).map_err(|e| e.to_string())?[&0];
            ensure!(close(got, g3, 1e-12, 1e-12), "Bpref changes from {got} to {g3} when unjudged documents are inserted; {v:?}");
            o.count("unjudged insertions/removals compared", 2);
        }
        o.sig(hash_str(&format!("{v:?}")));
        Ok(())
    });
    ctx.require("no judged non-relevant", 100);
    ctx.require("fewer non-relevant", 100);
}

type Scores1 = BTreeMap<usize, f64>;
fn eval(t: &TrueRelStore<usize>, p: &PredRelStore<usize>, m: Metric) -> Result<Scores1, String> {
    compute_metric(t, p, m).map_err(|e| format!("{m:?}: {e}"))
}

fn consistency(rng: &mut Rng, obs: &mut Obs, o: &Opts) -> CaseResult {
    let d = gen::data_idx(rng, o);
    obs.sig(sig(&d));
    obs.sample(|| json!({"judgments": d.trues.len(), "predictions": d.preds.len(), "head": brief(&d).chars().take(300).collect::<String>()}));
    let (t, p) = stores(&d)?;
    let views = d.views();
    let burges_ok = max_grade(&d) <= 1000;
    let v0 = views.values().next().unwrap();
    let mut ks = gen::cutoffs(rng, v0.ranked.len(), v0.n_rel());
    while ks.len() > 6 {
        ks.remove(rng.below(ks.len()));
    }
    let mut prev: BTreeMap<(Kind, usize), f64> = BTreeMap::new();
    // k = 0 means the whole list, so it comes last in cutoff order
    ks.sort_unstable_by_key(|&k| if k == 0 { usize::MAX } else { k });
    let rprec = eval(&t, &p, Metric::RPrecision)?;
    let bpref = eval(&t, &p, Metric::Bpref)?;
    for &k in &ks {
        let mut s: BTreeMap<Kind, Scores1> = BTreeMap::new();
        for kind in model::ALL {
            if kind.has_k() && (!kind.burges() || burges_ok) {
                s.insert(kind, eval(&t, &p, kind.at(k))?);
            }
        }
        for (q, v) in &views {
            let r = v.n_rel();
            let kk = if k == 0 { v.ranked.len() } else { k };
            let ctxs = || format!("k={k} query {q}: ranked {} judged {}", clip(&v.ranked), clip(&v.judged));
            for (kind, m) in &s {
                let x = m[q];
                obs.count("scores checked for range", 1);
                ensure!(x.is_finite() && x >= 0.0, "{kind:?} = {x}; {}", ctxs());
                match kind {
                    Kind::Hits => ensure!(x <= kk.min(r).min(v.ranked.len()) as f64 && x.fract() == 0.0, "hits = {x}; {}", ctxs()),
                    Kind::Success => ensure!(x == 0.0 || x == 1.0, "success = {x}; {}", ctxs()),
                    Kind::Dcg | Kind::DcgB => {}
                    _ => ensure!(x <= 1.0 + 1e-9, "{kind:?} = {x} > 1; {}", ctxs()),
                }
                if matches!(kind, Kind::Hits | Kind::Success | Kind::Recall | Kind::Ap | Kind::Rr | Kind::Dcg | Kind::DcgB) {
                    if let Some(&y) = prev.get(&(*kind, *q)) {
                        ensure!(x >= y - 1e-9 * (1.0 + y.abs()), "{kind:?} drops from {y} to {x} with a larger cutoff; {}", ctxs());
                        obs.count("monotonicity pairs", 1);
                    }
                    prev.insert((*kind, *q), x);
                }
            }
            let (h, pr, rc, f1) = (s[&Kind::Hits][q], s[&Kind::Precision][q], s[&Kind::Recall][q], s[&Kind::F1][q]);
            ensure!(close(h, pr * kk as f64, 1e-9, 1e-9), "hits {h} != k*precision {}; {}", pr * kk as f64, ctxs());
            ensure!(close(h, rc * r as f64, 1e-9, 1e-9), "hits {h} != R*recall {}; {}", rc * r as f64, ctxs());
            let su = s[&Kind::Success][q];
            ensure!((su > 0.0) == (h > 0.0), "success {su} but hits {h}; {}", ctxs());
            ensure!((s[&Kind::Rr][q] > 0.0) == (h > 0.0), "rr {} but hits {h}; {}", s[&Kind::Rr][q], ctxs());
            ensure!((s[&Kind::Ap][q] > 0.0) == (h > 0.0), "ap {} but hits {h}; {}", s[&Kind::Ap][q], ctxs());
            ensure!(f1 <= pr.max(rc) + 1e-9 && f1 >= pr.min(rc) - 1e-9, "f1 {f1} not between precision {pr} and recall {rc}; {}", ctxs());
            ensure!(s[&Kind::Ap][q] <= rc + 1e-9, "ap {} exceeds recall {rc}; {}", s[&Kind::Ap][q], ctxs());
            if (h - r as f64).abs() < 0.5 && kk as f64 == h && h > 0.0 {
                ensure!(close(f1, 1.0, 1e-9, 0.0) && close(s[&Kind::Ap][q], 1.0, 1e-9, 0.0), "perfect top k: f1 {f1}, ap {}; {}", s[&Kind::Ap][q], ctxs());
            }
            for (dk, nk) in [(Kind::Dcg, Kind::Ndcg), (Kind::DcgB, Kind::NdcgB)] {
                if let (Some(a), Some(b)) = (s.get(&dk), s.get(&nk)) {
                    let i = model::idcg(v, k, dk.burges());
                    ensure!(close(a[q], b[q] * i, 1e-9, 1e-9), "{dk:?} {} != {nk:?} {} * ideal {i}; {}", a[q], b[q], ctxs());
                    ensure!(i > 0.0 || b[q] == 1.0, "{nk:?} = {} although there is no gain; {}", b[q], ctxs());
                }
            }
            obs.count("identities checked", 8);
        }
    }
    let mut at_r: BTreeMap<usize, (Scores1, Scores1)> = BTreeMap::new();
    for (q, v) in &views {
        let r = v.n_rel();
        for (n, x) in [("r_precision", rprec[q]), ("bpref", bpref[q])] {
            ensure!(x.is_finite() && (0.0..=1.0 + 1e-9).contains(&x), "{n} = {x}; ranked {} judged {}", clip(&v.ranked), clip(&v.judged));
        }
        if r > 0 {
            if !at_r.contains_key(&r) {
                at_r.insert(r, (eval(&t, &p, Metric::Precision { k: r })?, eval(&t, &p, Metric::Recall { k: r })?));
            }
            let (a, b) = (at_r[&r].0[q], at_r[&r].1[q]);
            ensure!(close(rprec[q], a, 1e-9, 1e-12) && close(a, b, 1e-9, 1e-12), "r_precision {} precision@R {a} recall@R {b} (R={r})", rprec[q]);
        } else {
            ensure!(rprec[q] == 0.0 && bpref[q] == 0.0, "no relevant document but r_precision {} bpref {}", rprec[q], bpref[q]);
        }
    }
    Ok(())
}

fn extremes(rng: &mut Rng, obs: &mut Obs) -> CaseResult {
    // Perfect and worst rankings of a random judgment set.
    let n = gen::size(rng, 600);
    let gr = *rng.pick(&[Grades::Binary, Grades::Small, Grades::Wide]);
    let trues: Vec<(usize, usize, u32)> = (0..n).map(|i| (0, i, gen::grade(rng, gr, 0.5, 1000))).collect();
    let r = trues.iter().filter(|x| x.2 > 0).count();
    if r == 0 {
        return Ok(());
    }
    let mut order: Vec<usize> = (0..n).collect();
    rng.shuffle(&mut order);
    order.sort_by(|&a, &b| trues[b].2.cmp(&trues[a].2));
    // perfect: exactly the relevant ones, best first; optionally followed by non-relevant ones
    let extra = rng.below(n + 3);
    let mut preds: Vec<(usize, usize, f64)> = vec![];
    for (i, &d) in order.iter().enumerate() {
        if trues[d].2 > 0 {
            preds.push((0, d, 1000.0 - i as f64));
        }
    }
    for i in 0..extra {
        let d = if rng.chance(0.5) && r + i < n { order[r + i] } else { n + i };
        preds.push((0, d, -1.0 - i as f64));
    }
    let d = Data { trues: trues.clone(), preds };
    let (t, p) = stores(&d)?;
    for k in [0, 1, r, r + 1, n + extra + 5] {
        for kind in [Kind::Rr, Kind::Success, Kind::Ndcg, Kind::NdcgB] {
            let x = eval(&t, &p, kind.at(k))?[&0];
            ensure!(close(x, 1.0, 1e-9, 0.0), "perfect ranking: {:?} = {x}; {}", kind.at(k), brief(&d));
        }
    }
    for (kind, k) in [(Kind::Ap, 0), (Kind::Ap, r), (Kind::RPrec, 0), (Kind::Bpref, 0), (Kind::Recall, r), (Kind::Precision, r), (Kind::F1, r), (Kind::Recall, 0), (Kind::Precision, 1)] {
        let x = eval(&t, &p, kind.at(k))?[&0];
        ensure!(close(x, 1.0, 1e-9, 0.0), "perfect ranking: {:?} = {x}; {}", kind.at(k), brief(&d));
    }
    obs.count("perfect rankings", 1);
    // worst: no relevant document retrieved
    let mut w: Vec<(usize, usize, f64)> = order.iter().filter(|&&x| trues[x].2 == 0).map(|&x| (0, x, rng.f64())).collect();
    w.push((0, n + 7, 0.5));
    let dw = Data { trues, preds: w };
    let (t, p) = stores(&dw)?;
    for kind in model::ALL {
        for k in [0, 1, 5, n] {
            let x = eval(&t, &p, kind.at(k))?[&0];
            ensure!(x == 0.0, "nothing relevant retrieved but {:?} = {x}; {}", kind.at(k), brief(&dw));
        }
    }
    obs.count("empty-handed rankings", 1);
    obs.sig(sig(&d));
    Ok(())
}

pub fn c08(ctx: &mut Ctx) {
    ctx.rule = "Random data sets; every metric at several cutoffs is checked for range, finiteness and the identities between metrics of the code under test itself; perfect and empty-handed rankings of random judgments. Distinct = hash of the data set.".into();
    ctx.assumptions = vec!["Burges variants: grades up to 1000".into(), "identities are checked with tolerance 1e-9".into()];
    ctx.require("identities checked", 20000);
    ctx.require("perfect rankings", 300);
    let n = ctx.n(90000, 3000000);
    ctx.run("random", n, |r, _, o| consistency(r, o, &Opts { max_docs: 200, max_queries: 8, ..Default::default() }));
    let m = ctx.n(1500, 50000);
    ctx.run("deep", m, |r, _, o| consistency(r, o, &Opts { max_docs: 2600, max_queries: 2, ..Default::default() }));
    let m = ctx.n(40, 1500);
    ctx.run("very-deep", m, |r, _, o| {
        let (s, p) = (*r.pick(&[Scores::Distinct, Scores::FewLevels, Scores::Decimals]), *r.pick(&[0.0005, 0.002]));
        consistency(r, o, &Opts { max_docs: 140_000, max_queries: 1, scores: Some(s), grades: Some(Grades::Small), p_rel: Some(p), ..Default::default() })
    });
    let m = ctx.n(30, 1000);
    ctx.run("many-relevant", m, |r, _, o| {
        let (docs, ret) = (gen::huge(r, 200_000), *r.pick(&[2e-5, 1e-4, 1e-3]));
        consistency(r, o, &Opts { max_docs: docs, max_queries: 1, docs: Some(docs), grades: Some(Grades::Small), p_rel: Some(0.8), p_ret: Some(ret), ..Default::default() })
    });
    let m = ctx.n(12, 500);
    ctx.run("very-many-queries", m, |r, _, o| {
        let q = gen::huge(r, 80_000);
        consistency(r, o, &Opts { max_docs: 2, max_queries: q, queries: Some(q), ..Default::default() })
    });
    ctx.run("extremes", n / 2, |r, _, o| extremes(r, o));
    ctx.run_t("known", 1, 1, |_, _, _| {
        let d = Data { trues: vec![(0usize, 0usize, 1024)], preds: vec![(0, 0, 1.0)] };
        let (t, p) = stores(&d)?;
        let a = eval(&t, &p, Metric::NDCGBurges { k: 0 })?[&0];
        ctx.known_finding("ndcg-burges-grade-1024", !close(a, 1.0, 1e-9, 0.0), "ndcg_burges of the perfect ranking of one document of grade 1024 is NaN (the gain 2^1024 overflows f64)")
    });
}

/// All metric scores of a data set for the chosen cutoffs.
fn all_scores<K: Key>(d: &Data<K>, ks: &[usize], burges: bool) -> Result<BTreeMap<(Kind, usize), BTreeMap<K, f64>>, String> {
    let (t, p) = stores(d)?;
    let mut out = BTreeMap::new();
    for kind in model::ALL {
        if kind.burges() && !burges {
            continue;
        }
        let one = [0usize];
        for &k in if kind.has_k() { ks } else { &one[..] } {
            out.insert((kind, k), compute_metric(&t, &p, kind.at(k)).map_err(|e| format!("{kind:?}@{k}: {e}"))?);
        }
    }
    Ok(out)
}

fn metamorphic(rng: &mut Rng, obs: &mut Obs, o: &Opts) -> CaseResult {
    let mut d = gen::data_idx(rng, o);
    for r in d.preds.iter_mut() {
        if r.2.is_nan() {
            r.2 = 0.0;
        }
    }
    let (nq, nd) = gen::dims(&d);
    let burges = max_grade(&d) <= 1000;
    let views = d.views();
    let v0 = views.values().next().unwrap();
    let mut ks = gen::cutoffs(rng, v0.ranked.len(), v0.n_rel());
    while ks.len() > 4 {
        ks.remove(rng.below(ks.len()));
    }
    let base = all_scores(&d, &ks, burges)?;
    obs.sig(sig(&d));
    let cmp = |what: &str, got: &BTreeMap<(Kind, usize), Scores1>, skip: &dyn Fn(Kind, usize) -> bool, obs: &mut Obs| -> CaseResult {
        for (key, m) in &base {
            if skip(key.0, key.1) {
                continue;
            }
            let g = &got[key];
            ensure!(m.len() == g.len(), "{what}: {} scores instead of {}", g.len(), m.len());
            for (q, x) in m {
                obs.count("related scores compared", 1);
                ensure!(close(*x, g[q], 1e-9, 1e-12), "{what}: {:?} of query {q} changes from {x:e} to {:e}; {}", key.0.at(key.1), g[q], brief(&d));
            }
        }
        obs.count(&format!("relation {what}"), 1);
        Ok(())
    };
    match rng.below(9) {
        0 => {
            // strictly increasing transformation: replace scores by dense ranks, then stretch them
            let mut lv: Vec<f64> = d.preds.iter().map(|r| r.2 + 0.0).collect();
            lv.sort_by(|a, b| a.partial_cmp(b).unwrap());
            lv.dedup();
            let mode = rng.below(4);
            let off = rng.range(0, 1000) as f64;
            let mut e = d.clone();
            for r in e.preds.iter_mut() {
                let i = lv.partition_point(|x| *x < r.2) as f64;
                r.2 = match mode {
                    0 => i,
                    1 => -1e6 + i * 0.5 - off,
                    2 => 1e-3 * (i - lv.len() as f64),
                    _ => {
                        if lv.len() < 900 {
                            2.0f64.powf(i - 450.0)
                        } else {
                            i * 1e15
                        }
                    }
                };
            }
            cmp("increasing transformation of the scores", &all_scores(&e, &ks, burges)?, &|_, _| false, obs)
        }
        1 => {
            // rename queries arbitrarily
            let mut q: Vec<usize> = (0..nq).map(|i| i * 7 + 3).collect();
            rng.shuffle(&mut q);
            let docs: Vec<usize> = (0..nd).collect();
            let e = gen::rename(&d, &q, &docs);
            let g = all_scores(&e, &ks, burges)?;
            let back: BTreeMap<usize, usize> = q.iter().enumerate().map(|(i, x)| (*x, i)).collect();
            let g = g.into_iter().map(|(k, m)| (k, m.into_iter().map(|(q, x)| (back[&q], x)).collect())).collect();
            cmp("renaming of the queries", &g, &|_, _| false, obs)
        }
        2 => {
            // order-preserving renaming of the documents into strings
            let q: Vec<String> = (0..nq).map(|i| format!("{i:05}")).collect();
            let docs: Vec<String> = (0..nd).map(|i| format!("doc{:07}", i * 3)).collect();
            let g = all_scores(&gen::rename(&d, &q, &docs), &ks, burges)?;
            let g = g.into_iter().map(|(k, m)| (k, m.into_iter().map(|(q, x)| (q.parse().unwrap(), x)).collect())).collect();
            cmp("order-preserving renaming of the documents", &g, &|_, _| false, obs)
        }
        3 => {
            // arbitrary renaming when no ties exist
            let mut e = d.clone();
            let mut i = 0.0;
            for r in e.preds.iter_mut() {
                r.2 = i;
                i += 1.0;
            }
            let b2 = all_scores(&e, &ks, burges)?;
            let q: Vec<usize> = (0..nq).collect();
            let mut docs: Vec<usize> = (0..nd).collect();
            rng.shuffle(&mut docs);
            let g = all_scores(&gen::rename(&e, &q, &docs), &ks, burges)?;
            for (key, m) in &b2 {
                for (q, x) in m {
                    ensure!(close(*x, g[key][q], 1e-9, 1e-12), "renaming documents: {key:?} of query {q} changes from {x} to {}; {}", g[key][q], brief(&e));
                    obs.count("related scores compared", 1);
                }
            }
            obs.count("relation arbitrary renaming of the documents", 1);
            Ok(())
        }
        4 => {
            // change everything below rank k (k > 0)
            let kmin = ks.iter().copied().filter(|&k| k > 0).max().unwrap_or(1);
            let mut e = Data { trues: d.trues.clone(), preds: vec![] };
            let mut per: BTreeMap<usize, Vec<(usize, f64)>> = BTreeMap::new();
            for r in &d.preds {
                per.entry(r.0).or_default().push((r.1, r.2));
            }
            let k = *rng.pick(&[1, 2, 5, kmin]);
            for (q, mut l) in per {
                l.sort_by(|a, b| b.1.partial_cmp(&a.1).unwrap().then(a.0.cmp(&b.0)));
                let cut = l.len().min(k);
                for (i, x) in l[..cut].iter().enumerate() {
                    e.preds.push((q, x.0, -(i as f64)));
                }
                if cut == k {
                    match rng.below(3) {
                        0 => {}
                        1 => {
                            for x in &l[cut..] {
                                e.preds.push((q, x.0, -1e9 - rng.f64()));
                            }
                        }
                        _ => {
                            for i in 0..rng.below(6) {
                                e.preds.push((q, nd + 5 + i, -1e9 - i as f64));
                            }
                        }
                    }
                }
            }
            let t = all_scores(&d, &[k], burges)?;
            let g = all_scores(&e, &[k], burges)?;
            for (key, m) in &t {
                if !key.0.has_k() {
                    continue;
                }
                for (q, x) in m {
                    obs.count("related scores compared", 1);
                    ensure!(close(*x, g[key][q], 1e-9, 1e-12), "changes below rank {k}: {:?} of query {q} changes from {x} to {}; {} vs {}", key.0.at(key.1), g[key][q], brief(&d), brief(&e));
                }
            }
            obs.count("relation changes below rank k", 1);
            Ok(())
        }
        5 => {
            // judge unjudged documents as 0 (retrieved or not)
            let mut e = d.clone();
            let have: std::collections::BTreeSet<(usize, usize)> = d.trues.iter().map(|r| (r.0, r.1)).collect();
            for r in &d.preds {
                if !have.contains(&(r.0, r.1)) && rng.chance(0.5) {
                    e.trues.push((r.0, r.1, 0));
                }
            }
            for q in 0..nq {
                for i in 0..rng.below(3) {
                    e.trues.push((q, nd + 10 + i, 0));
                }
            }
            cmp("judging unjudged documents as 0", &all_scores(&e, &ks, burges)?, &|k, _| k == Kind::Bpref, obs)
        }
        6 => {
            // other positive grades
            let mut e = d.clone();
            for r in e.trues.iter_mut() {
                if r.2 > 0 {
                    r.2 = *rng.pick(&[1, 2, 3, 9, 1000, u32::MAX, 1 << 31]);
                }
            }
            cmp("other positive grades", &all_scores(&e, &ks, false)?, &|k, _| k.graded(), obs)
        }
        7 => {
            // a set of unjudged documents is replaced by other unjudged documents at the same ranks
            let have: std::collections::BTreeSet<(usize, usize)> = d.trues.iter().map(|r| (r.0, r.1)).collect();
            let mut e = Data { trues: d.trues.clone(), preds: vec![] };
            let mut per: BTreeMap<usize, Vec<(usize, f64)>> = BTreeMap::new();
            for r in &d.preds {
                per.entry(r.0).or_default().push((r.1, r.2));
            }
            for (q, mut l) in per {
                l.sort_by(|a, b| b.1.partial_cmp(&a.1).unwrap().then(a.0.cmp(&b.0)));
                for (i, x) in l.iter().enumerate() {
                    let id = if have.contains(&(q, x.0)) { x.0 } else { nd + 100 + i };
                    e.preds.push((q, id, 1e4 - i as f64));
                }
            }
            cmp("other unjudged documents", &all_scores(&e, &ks, burges)?, &|_, _| false, obs)
        }
        _ => {
            // swap a better document above a worse one
            let mut per: BTreeMap<usize, Vec<(usize, f64)>> = BTreeMap::new();
            for r in &d.preds {
                per.entry(r.0).or_default().push((r.1, r.2));
            }
            let grade: BTreeMap<(usize, usize), u32> = d.trues.iter().map(|r| ((r.0, r.1), r.2)).collect();
            let mut a = Data { trues: d.trues.clone(), preds: vec![] };
            let mut b = a.clone();
            for (q, mut l) in per {
                l.sort_by(|a, b| b.1.partial_cmp(&a.1).unwrap().then(a.0.cmp(&b.0)));
                for (i, x) in l.iter().enumerate() {
                    a.preds.push((q, x.0, -(i as f64)));
                }
                let g = |x: usize| grade.get(&(q, x)).copied();
                let mut pairs = vec![];
                for i in 0..l.len().min(60) {
                    for j in i + 1..l.len().min(60) {
                        if g(l[i].0).unwrap_or(0) < g(l[j].0).unwrap_or(0) {
                            pairs.push((i, j));
                        }
                    }
                }
                if !pairs.is_empty() {
                    let &(i, j) = rng.pick(&pairs);
                    l.swap(i, j);
                    obs.count("upward moves", 1);
                }
                for (i, x) in l.iter().enumerate() {
                    b.preds.push((q, x.0, -(i as f64)));
                }
            }
            let (sa, sb) = (all_scores(&a, &ks, burges)?, all_scores(&b, &ks, burges)?);
            for (key, m) in &sa {
                for (q, x) in m {
                    let y = sb[key][q];
                    obs.count("related scores compared", 1);
                    ensure!(y >= x - 1e-9 * (1.0 + x.abs()), "moving a better document up lowers {:?} of query {q} from {x} to {y}; {} vs {}", key.0.at(key.1), brief(&a), brief(&b));
                }
            }
            Ok(())
        }
    }
}

pub fn c09(ctx: &mut Ctx) {
    ctx.rule = "Pairs of related data sets (nine relations) evaluated by the code under test; scores must be equal (or not lower, for upward moves). Distinct = hash of the base data set.".into();
    ctx.assumptions = vec!["scores are compared with tolerance 1e-9".into()];
    ctx.require("related scores compared", 50000);
    ctx.require("upward moves", 300);
    let n = ctx.n(150000, 5000000);
    ctx.run("random", n, |r, _, o| metamorphic(r, o, &Opts { max_docs: 120, max_queries: 8, ..Default::default() }));
    let n = ctx.n(2000, 60000);
    ctx.run("deep", n, |r, _, o| metamorphic(r, o, &Opts { max_docs: 2100, max_queries: 2, ..Default::default() }));
    let n = ctx.n(72, 3000);
    ctx.run("very-deep", n, |r, _, o| {
        let (s, p) = (*r.pick(&[Scores::Distinct, Scores::FewLevels, Scores::Decimals]), *r.pick(&[0.0005, 0.002]));
        metamorphic(r, o, &Opts { max_docs: 140_000, max_queries: 1, scores: Some(s), grades: Some(Grades::Small), p_rel: Some(p), ..Default::default() })
    });
    let n = ctx.n(24, 1000);
    ctx.run("very-many-queries", n, |r, _, o| {
        let q = gen::huge(r, 70_000);
        metamorphic(r, o, &Opts { max_docs: 2, max_queries: q, queries: Some(q), ..Default::default() })
    });
}

fn evaluation(rng: &mut Rng, obs: &mut Obs, o: &Opts) -> CaseResult {
    let d0 = gen::data_idx(rng, o);
    let (nq, nd) = gen::dims(&d0);
    let st = *rng.pick(&gen::IDS);
    let qi = gen::ids(rng, nq, st, "q");
    let di = gen::ids(rng, nd, gen::Ids::Plain, "d");
    let mut d = gen::rename(&d0, &qi, &di);
    // query-set relation
    let mode = rng.below(6);
    let mut missing = false;
    match mode {
        0 => {
            // a predicted query without judgments
            let extra = *rng.pick(&["", "zz-last", " 00", "q", "~"]);
            if !qi.iter().any(|x| x == extra) {
                d.preds.push((extra.to_string(), "d_0".into(), 0.5));
                missing = true;
            }
        }
        1 => {
            let victim = rng.pick(&qi).clone();
            if d.preds.iter().any(|r| r.0 == victim) {
                d.trues.retain(|r| r.0 != victim);
                missing = true;
            }
        }
        2 => {
            // judgments for queries nobody predicted
            for i in 0..rng.range(1, 4) {
                d.trues.push((format!("unasked{i}"), "d_0".into(), rng.below(3) as u32));
            }
        }
        _ => {}
    }
    if rng.chance(0.15) {
        let names: std::collections::BTreeMap<&String, u32> = {
            let all: std::collections::BTreeSet<&String> = d.trues.iter().flat_map(|r| [&r.0, &r.1]).chain(d.preds.iter().flat_map(|r| [&r.0, &r.1])).collect();
            all.into_iter().zip(0u32..).collect()
        };
        let ids = gen::vague(names.len());
        let id = |s: &String| ids[names[s] as usize].clone();
        let d = Data {
            trues: d.trues.iter().map(|r| (id(&r.0), id(&r.1), r.2)).collect(),
            preds: d.preds.iter().map(|r| (id(&r.0), id(&r.1), r.2)).collect(),
        };
        obs.count("stores with opaque ids", 1);
        return evaluation_of(rng, obs, d, missing);
    }
    evaluation_of(rng, obs, d, missing)
}
fn evaluation_of<K: Key + std::hash::Hash>(rng: &mut Rng, obs: &mut Obs, d: Data<K>, missing: bool) -> CaseResult {
    let (t, p) = stores(&d)?;
    let views = d.views();
    let uncovered = d.true_queries().iter().any(|q| !views.contains_key(q));
    obs.sig(sig(&d));
    obs.sample(|| json!({"queries_true": d.true_queries().len(), "queries_pred": views.len(), "missing": missing, "head": brief(&d).chars().take(200).collect::<String>()}));
    for _ in 0..3 {
        let kind = *rng.pick(&model::ALL);
        if !in_domain(kind, &d) {
            continue;
        }
        let k = *rng.pick(&[0, 1, 2, 3, 5, 10, 100, usize::MAX]);
        let m = kind.at(k);
        let (a, b) = (compute_metric(&t, &p, m), elinor::evaluate(&t, &p, m));
        if missing {
            obs.count("unjudged predicted queries", 1);
            ensure!(matches!(a, Err(ElinorError::MissingEntry(_))), "compute_metric with an unjudged predicted query: {a:?}; {}", brief(&d));
            ensure!(matches!(b, Err(ElinorError::MissingEntry(_))), "evaluate with an unjudged predicted query is {:?}; {}", b.map(|x| x.mean()), brief(&d));
            continue;
        }
        if uncovered && matches!(a, Err(ElinorError::MissingEntry(_))) && matches!(b, Err(ElinorError::MissingEntry(_))) {
            obs.count("uncovered judged queries rejected", 1);
            continue;
        }
        let (a, b) = (a.map_err(|e| format!("compute_metric {m:?}: {e}; {}", brief(&d)))?, b.map_err(|e| format!("evaluate {m:?}: {e}"))?);
        ensure!(a.keys().eq(views.keys()), "{m:?}: scored {:?}, predicted {:?}", a.keys(), views.keys());
        ensure!(b.metric() == m, "metric() is {:?}, requested {m:?}", b.metric());
        ensure!(b.scores().keys().eq(views.keys()), "{m:?}: evaluate scored {:?}, predicted {:?}", b.scores().keys(), views.keys());
        let n = views.len() as f64;
        let (mut sum, mut maxabs) = (0.0, 0.0f64);
        for (q, v) in &views {
            let want = model::metric(kind, k, v);
            ensure!(close(a[q], b.scores()[q], 1e-12, 1e-12), "{m:?}: evaluate gives {}, compute_metric {}", b.scores()[q], a[q]);
            ensure!(close(a[q], want, 1e-9, 1e-12), "{m:?} of {q:?} = {}, by definition {want}; {}", a[q], brief(&d));
            sum += want;
            maxabs = maxabs.max(want.abs());
            obs.count("query scores", 1);
        }
        let mean = sum / n;
        let var = views.values().map(|v| (model::metric(kind, k, v) - mean).powi(2)).sum::<f64>() / n;
        ensure!(close(b.mean(), mean, 1e-9, 1e-12), "{m:?}: mean {} instead of {mean} over {n} queries", b.mean());
        if var.is_finite() {
            let tol = 1e-9 * maxabs * maxabs * n.sqrt() + 1e-12;
            ensure!(close(b.variance(), var, 1e-8, tol), "{m:?}: variance {} instead of {var} over {n} queries", b.variance());
            ensure!(close(b.std_dev() * b.std_dev(), b.variance(), 1e-9, 1e-300), "{m:?}: std_dev {} variance {}", b.std_dev(), b.variance());
        }
        obs.count("evaluations", 1);
        // isolation: a query evaluated alone
        let q = views.keys().nth(rng.below(views.len())).unwrap().clone();
        let alone = Data {
            trues: d.trues.iter().filter(|r| r.0 == q).cloned().collect(),
            preds: d.preds.iter().filter(|r| r.0 == q).cloned().collect(),
        };
        let (t1, p1) = stores(&alone)?;
        let e1 = elinor::evaluate(&t1, &p1, m).map_err(|e| format!("alone: {e}"))?;
        ensure!(close(e1.scores()[&q], b.scores()[&q], 1e-12, 1e-12), "{m:?}: query {q:?} scores {} alone but {} among others; {}", e1.scores()[&q], b.scores()[&q], brief(&d));
        ensure!(e1.scores().len() == 1 && close(e1.mean(), e1.scores()[&q], 1e-12, 1e-12) && e1.variance().abs() <= 1e-12 * (1.0 + maxabs * maxabs), "single query: mean {} variance {}", e1.mean(), e1.variance());
        obs.count("isolated queries", 1);
    }
    Ok(())
}

pub fn c10(ctx: &mut Ctx) {
    ctx.rule = "Random data sets with equal, nested and disjoint query sets; evaluate/compute_metric compared with the definitions, with each other and with each query evaluated alone. Distinct = hash of the data set.".into();
    ctx.assumptions = vec!["at least one predicted query (an empty prediction store has no mean)".into()];
    ctx.require("query scores", 20000);
    ctx.require("unjudged predicted queries", 200);
    ctx.require("isolated queries", 1000);
    let n = ctx.n(150000, 5000000);
    ctx.run("random", n, |r, _, o| evaluation(r, o, &Opts { max_docs: 40, max_queries: 60, same_queries: false, ..Default::default() }));
    let n = ctx.n(1000, 40000);
    ctx.run("many", n, |r, _, o| evaluation(r, o, &Opts { max_docs: 6, max_queries: 3000, same_queries: false, ..Default::default() }));
    let n = ctx.n(32, 1200);
    ctx.run("very-many", n, |r, _, o| {
        let q = gen::huge(r, 140_000);
        evaluation(r, o, &Opts { max_docs: 2, max_queries: q, queries: Some(q), same_queries: false, ..Default::default() })
    });
    let n = ctx.n(32, 1200);
    ctx.run("very-deep", n, |r, _, o| {
        let p = *r.pick(&[0.0005, 0.002]);
        evaluation(r, o, &Opts { max_docs: 140_000, max_queries: 2, grades: Some(Grades::Small), p_rel: Some(p), same_queries: false, ..Default::default() })
    });
    ctx.run_t("known", 1, 1, |_, _, _| {
        let d = Data { trues: vec![("a", "d", 1), ("b", "d", 1)], preds: vec![("a", "d", 1.0)] };
        let (t, p) = stores(&d)?;
        let r = compute_metric(&t, &p, Metric::Precision { k: 0 });
        ctx.known_finding(
            "uncovered-judged-query",
            r.is_ok(),
            "a judged query without predictions (judged {a,b}, predicted {a}) is silently left out instead of the documented MissingEntry",
        )
    });
}

fn names_ok(case: u64, rng: &mut Rng, obs: &mut Obs) -> CaseResult {
    let kind = model::ALL[(case % 13) as usize];
    let k = match rng.below(6) {
        0 => 0,
        1 => rng.range(1, 200),
        2 => 10usize.pow(rng.below(19) as u32),
        3 => usize::MAX - rng.below(3),
        4 => 1usize << rng.below(64),
        _ => (rng.u64() >> rng.below(64)) as usize,
    };
    let m = kind.at(k);
    let s = m.to_string();
    ensure!(s == kind.label(k), "{m:?} prints as {s:?}, documented {:?}", kind.label(k));
    ensure!(format!("{m:#}") == s, "{m:?} alternate form {m:#}");
    let back: Metric = s.parse().map_err(|e| format!("{s:?} does not parse: {e}"))?;
    ensure!(back == m, "{s:?} parses to {back:?}, printed from {m:?}");
    let bare: Metric = kind.name().parse().map_err(|e| format!("{:?} does not parse: {e}", kind.name()))?;
    ensure!(bare == kind.at(0), "{:?} parses to {bare:?}", kind.name());
    if kind.has_k() {
        let at = format!("{}@{k}", kind.name());
        let x: Metric = at.parse().map_err(|e| format!("{at:?} does not parse: {e}"))?;
        ensure!(x == kind.at(k), "{at:?} parses to {x:?}");
        let z = format!("{}@00{k}", kind.name());
        if let Ok(x) = z.parse::<Metric>() {
            ensure!(x == kind.at(k), "{z:?} parses to {x:?}");
        }
    }
    obs.count("round trips", 1);
    obs.sig(hash_str(&s));
    Ok(())
}
/// Is `s` a well-formed metric name according to the documentation? None = unspecified.
fn well_formed(s: &str) -> Option<Metric> {
    let (name, k) = match s.split_once('@') {
        Some((n, k)) => (n, Some(k)),
        None => (s, None),
    };
    let kind = model::ALL.into_iter().find(|x| x.name() == name)?;
    match k {
        None => Some(kind.at(0)),
        Some(k) if !k.is_empty() && k.bytes().all(|b| b.is_ascii_digit()) => k.parse().ok().map(|k| kind.at(k)),
        _ => None,
    }
}
fn names_bad(rng: &mut Rng, obs: &mut Obs) -> CaseResult {
    let kind = *rng.pick(&model::ALL);
    let base = if rng.chance(0.5) { kind.name().to_string() } else { format!("{}@{}", kind.name(), rng.below(120)) };
    let mut cs: Vec<char> = base.chars().collect();
    const POOL: [&str; 40] = [
        "@", "@@", " ", "\n", "\t", "-", "+", ".", "_", "0", "9", "k", "K", "A", "é", "３", "@3", "@-1", "@+1", "@1.0", "@1e2", "@0x1", "@3 ", "@ 3",
        "18446744073709551616", "@18446744073709551616", "@99999999999999999999999", "map", "mrr", "n", "ndcg", "burges", "_burges", "precision", "s", "\0", "😀", "@３", "@½", "^$",
    ];
    for _ in 0..rng.range(1, 3) {
        match rng.below(6) {
            0 => {
                let ins: Vec<char> = rng.pick(&POOL).chars().collect();
                let at = rng.below(cs.len() + 1);
                cs.splice(at..at, ins);
            }
            1 if !cs.is_empty() => {
                let at = rng.below(cs.len());
                cs.remove(at);
            }
            2 if !cs.is_empty() => {
                let at = rng.below(cs.len());
                cs[at] = cs[at].to_ascii_uppercase();
            }
            3 if cs.len() > 1 => {
                let at = rng.below(cs.len() - 1);
                cs.swap(at, at + 1);
            }
            4 => cs.extend(rng.pick(&POOL).chars()),
            _ => {
                let ins: Vec<char> = rng.pick(&POOL).chars().collect();
                cs.splice(0..0, ins);
            }
        }
    }
    let s: String = cs.into_iter().collect();
    let r = s.parse::<Metric>();
    obs.count("strings parsed", 1);
    obs.sig(hash_str(&s));
    obs.sample(|| json!({"string": s, "accepted": r.is_ok()}));
    match well_formed(&s) {
        Some(m) => {
            // suffixes on the two metrics without cutoff are unspecified
            if s.contains('@') && matches!(m, Metric::RPrecision | Metric::Bpref) {
                return Ok(());
            }
            ensure!(r == Ok(m), "{s:?} parses to {r:?}, expected {m:?}");
            obs.count("well-formed strings", 1);
        }
        None => {
            if let Ok(m) = &r {
                // r_precision/bpref with any @digits suffix: unspecified
                if s.starts_with("r_precision@") || s.starts_with("bpref@") {
                    return Ok(());
                }
                return Err(format!("{s:?} is accepted as {m:?}"));
            }
            ensure!(matches!(r, Err(ElinorError::InvalidFormat(_))), "{s:?} gives {r:?}");
            obs.count("malformed strings rejected", 1);
        }
    }
    Ok(())
}
pub fn c11(ctx: &mut Ctx) {
    ctx.rule = "All 13 metrics with random cutoffs printed and parsed back; random edits of metric strings compared with the documented grammar name[@digits]. Distinct = string.".into();
    ctx.assumptions = vec!["a cutoff suffix on r_precision or bpref, which have no cutoff, is unspecified".into()];
    ctx.require("round trips", 2000);
    ctx.require("malformed strings rejected", 5000);
    let n = ctx.n(30000, 600000);
    ctx.run("well-formed", n, |r, i, o| names_ok(i, r, o));
    ctx.run("edited", n, |r, _, o| names_bad(r, o));
}


/// C31: nothing but documented errors, whatever the stores.
fn robust<K: Key>(rng: &mut Rng, obs: &mut Obs, qs: &[K], ds: &[K]) -> CaseResult {
    let p_t = *rng.pick(&[0.0, 0.1, 0.5, 1.0]);
    let p_p = *rng.pick(&[0.0, 0.1, 0.5, 1.0]);
    let odd = [f64::NAN, -f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 0.0, -0.0, 5e-324, f64::MAX, f64::MIN];
    let mut d: Data<K> = Data { trues: vec![], preds: vec![] };
    let all_zero = rng.chance(0.2);
    for q in qs {
        let (pt, pp) = (p_t * rng.below(3) as f64, p_p * rng.below(3) as f64);
        for x in ds {
            if rng.chance(pt) {
                let g = if all_zero { 0 } else { gen::grade(rng, Grades::Huge, 0.5, 0) };
                d.trues.push((q.clone(), x.clone(), g));
            }
            if rng.chance(pp) {
                let s = if rng.chance(0.5) { *rng.pick(&odd) } else { rng.normal() };
                d.preds.push((q.clone(), x.clone(), s));
            }
        }
    }
    let (t, p) = stores(&d)?;
    let tq: std::collections::BTreeSet<K> = d.trues.iter().map(|r| r.0.clone()).collect();
    let pq: std::collections::BTreeSet<K> = d.preds.iter().map(|r| r.0.clone()).collect();
    ensure!(t.n_queries() == tq.len() && p.n_queries() == pq.len() && t.n_docs() == d.trues.len() && p.n_docs() == d.preds.len(), "counts {} {} {} {} of {}", t.n_queries(), p.n_queries(), t.n_docs(), p.n_docs(), brief(&d));
    for q in qs {
        for x in ds.iter().take(3) {
            let _ = (t.get_score(q, x), p.get_score(q, x));
        }
        ensure!(t.get_sorted(q).map_or(0, |s| s.len()) == t.get_map(q).map_or(0, |s| s.len()), "sorted and mapped judgments of {q:?} differ in number");
    }
    obs.count(if pq.is_empty() { "no predictions" } else if tq.is_empty() { "no judgments" } else { "both stores non-empty" }, 1);
    for _ in 0..4 {
        let kind = *rng.pick(&model::ALL);
        let k = match rng.below(4) {
            0 => rng.below(5),
            1 => usize::MAX - rng.below(2),
            2 => 1usize << rng.below(64),
            _ => rng.u64() as usize,
        };
        let m = kind.at(k);
        let (a, b) = (compute_metric(&t, &p, m), elinor::evaluate(&t, &p, m));
        obs.count("evaluations", 1);
        if !pq.is_subset(&tq) {
            ensure!(matches!(a, Err(ElinorError::MissingEntry(_))) && matches!(b, Err(ElinorError::MissingEntry(_))), "{m:?} with unjudged predicted queries is {a:?}; {}", brief(&d));
            obs.count("missing entries", 1);
            continue;
        }
        if tq != pq && matches!((&a, &b), (Err(ElinorError::MissingEntry(_)), Err(ElinorError::MissingEntry(_)))) {
            continue; // documented; see the known finding of C10
        }
        let a = a.map_err(|e| format!("{m:?}: {e}; {}", brief(&d)))?;
        let b = b.map_err(|e| format!("evaluate {m:?}: {e}; {}", brief(&d)))?;
        ensure!(a.keys().eq(pq.iter()) && b.scores().keys().eq(pq.iter()), "{m:?} scores {:?}, predicted {pq:?}", a.keys());
        let _ = (b.mean(), b.variance(), b.std_dev(), b.metric().to_string());
        if !kind.burges() {
            for (q, x) in &a {
                ensure!(x.is_finite() && *x >= 0.0, "{m:?} of {q:?} is {x}; {}", brief(&d));
                ensure!(matches!(kind, Kind::Hits | Kind::Dcg) || *x <= 1.0 + 1e-9, "{m:?} of {q:?} is {x}; {}", brief(&d));
            }
        }
    }
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    (d.trues.len(), d.preds.len(), p_t.to_bits(), p_p.to_bits()).hash(&mut h);
    d.preds.iter().for_each(|r| r.2.to_bits().hash(&mut h));
    obs.sig(h.finish());
    let n = t.records().len() + p.records().len();
    ensure!(n == d.trues.len() + d.preds.len() && t.into_records().len() + p.into_records().len() == n, "records lost; {}", brief(&d));
    Ok(())
}
/// Very deep rankings and very many queries: nothing may overflow the stack, allocate in vain or take more than linear time
/// in them (except in the number of relevant documents).
fn robust_huge(rng: &mut Rng, i: u64, obs: &mut Obs) -> CaseResult {
    let n = rng.range(300_000, 700_000);
    let (nq, nd) = [(1, n), (n, 1), (700, n / 700)][i as usize % 3];
    let st = *rng.pick(&[Scores::Distinct, Scores::AllTied, Scores::FewLevels]);
    let odd = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -0.0];
    let (mut t, mut p) = (elinor::TrueRelStoreBuilder::new(), elinor::PredRelStoreBuilder::new());
    let rel = if nd > 1 { 40.0 / nd as f64 } else { 0.3 };
    for q in 0..nq {
        t.add_record(q, usize::MAX, 1).map_err(|e| e.to_string())?;
        for d in 0..nd {
            if rng.chance(0.3) {
                t.add_record(q, d, if rng.chance(rel) { 1 + rng.below(3) as u32 } else { 0 }).map_err(|e| e.to_string())?;
            }
            let s = if rng.chance(0.01) { *rng.pick(&odd) } else { gen::score(rng, st) };
            p.add_record(q, d, s.into()).map_err(|e| e.to_string())?;
        }
    }
    let (t, p) = (t.build(), p.build());
    ensure!(p.n_docs() == nq * nd && p.n_queries() == nq && t.n_queries() == nq, "{} predictions of {}, {} queries of {nq}", p.n_docs(), nq * nd, p.n_queries());
    for kind in model::ALL {
        for k in [0, rng.range(1, nd), nd, usize::MAX] {
            let m = kind.at(k);
            let e = elinor::evaluate(&t, &p, m).map_err(|e| format!("{m:?} of {nq} queries with {nd} documents: {e}"))?;
            ensure!(e.scores().len() == nq, "{m:?} scores {} of {nq} queries", e.scores().len());
            for (q, x) in e.scores() {
                ensure!(x.is_finite() && *x >= 0.0 && (matches!(kind, Kind::Hits | Kind::Dcg | Kind::DcgB) || *x <= 1.0 + 1e-9), "{m:?} of query {q} is {x} ({nq} queries with {nd} documents)");
            }
            obs.count("evaluations of huge stores", 1);
            if !kind.has_k() {
                break;
            }
        }
    }
    obs.sig(rng.u64());
    ensure!(t.into_records().len() > nq && p.into_records().len() == nq * nd, "records lost");
    Ok(())
}
pub fn c31(ctx: &mut Ctx) {
    ctx.rule = "Stores over small universes of ids of eight types with every fill from empty to full on either side, NaN and infinite predicted scores, grades up to u32::MAX and cutoffs up to usize::MAX; any panic, hang, undocumented error or non-finite score is a violation. Distinct = hash of the predictions.".into();
    ctx.assumptions = vec!["the mean over no query at all is unspecified".into(), "Burges gains of grades above 1000 need not be finite (see C07, C08)".into()];
    for k in ["no predictions", "no judgments", "both stores non-empty", "missing entries"] {
        ctx.require(k, 1000);
    }
    ctx.require("evaluations", 50000);
    let n = ctx.n(600_000, 20_000_000);
    ctx.run("random", n, |r, i, o| {
        let (nq, nd) = (r.below(5), r.below(12));
        match i % 9 {
            0 => {
                let v: Vec<String> = ["", " ", "a", "A", "\0", "é", "e\u{301}", "\u{10ffff}", "aa", "a ", "{}", "%s"].iter().map(|s| s.to_string()).collect();
                robust(r, o, &v[..nq], &v[..nd])
            }
            1 => {
                let v = ["", "0", "00", "-0", "q", "qq", "\u{feff}", "\n", "~", "z", "Z", "\u{1f600}"];
                robust(r, o, &v[..nq], &v[..nd])
            }
            2 => {
                let v: Vec<u32> = [0, 1, u32::MAX, 5, 1 << 31, 7, 8, 9, 10, 11, 12, 13].to_vec();
                robust(r, o, &v[..nq], &v[..nd])
            }
            3 => {
                let v: Vec<usize> = [usize::MAX, 0, 1, 5, 1 << 63, 7, 8, 9, 10, 11, 12, 13].to_vec();
                robust(r, o, &v[..nq], &v[..nd])
            }
            4 => {
                let v: Vec<char> = ['\0', 'a', '\u{10ffff}', 'é', 'b', 'c', 'd', 'e', 'f', 'g', 'h', '\u{d7ff}'].to_vec();
                robust(r, o, &v[..nq], &v[..nd])
            }
            5 => {
                let v: Vec<i64> = [i64::MIN, i64::MAX, 0, -1, 1, 2, 3, 4, 5, 6, 7, 8].to_vec();
                robust(r, o, &v[..nq], &v[..nd])
            }
            7 => {
                let v = gen::vague(12);
                robust(r, o, &v[..nq], &v[..nd])
            }
            6 => {
                let v = [false, true];
                robust(r, o, &v[..nq.min(2)], &v[..nd.min(2)])
            }
            _ => {
                let v: Vec<std::net::Ipv4Addr> = (0..12u8).map(|i| std::net::Ipv4Addr::new(255 - i, 0, i, 1)).collect();
                robust(r, o, &v[..nq], &v[..nd])
            }
        }
    });
    ctx.require("evaluations of huge stores", 100);
    let n = ctx.n(6, 60);
    ctx.run("huge", n, robust_huge);
}
