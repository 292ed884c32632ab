//! C01-C03: relevance stores.
use crate::gen;
use crate::model::cmp_score;
use crate::report::{CaseResult, Ctx, Obs};
use crate::rng::{hash_str, Rng};
use crate::ensure;
use elinor::relevance::{RelevanceStore, RelevanceStoreBuilder};
use elinor::{ElinorError, Record};
use ordered_float::OrderedFloat;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::{Debug, Display};

pub trait Key: Ord + Clone + Display + Debug {}
impl<T: Ord + Clone + Display + Debug> Key for T {}

type Model<K, T> = BTreeMap<K, BTreeMap<K, T>>;

/// Compares every accessor of a store with the model.
pub fn check_store<K: Key, T: Ord + Clone + Debug>(
    what: &str,
    store: &RelevanceStore<K, T>,
    model: &Model<K, T>,
    absent: &[K],
    obs: &mut Obs,
) -> CaseResult {
    let total: usize = model.values().map(|m| m.len()).sum();
    ensure!(store.n_queries() == model.len(), "{what}: n_queries {} != {}", store.n_queries(), model.len());
    ensure!(store.n_docs() == total, "{what}: n_docs {} != {total}", store.n_docs());
    let qs: Vec<K> = store.query_ids().cloned().collect();
    let qset: BTreeSet<K> = qs.iter().cloned().collect();
    ensure!(qs.len() == qset.len() && qset.iter().eq(model.keys()), "{what}: query_ids {qs:?} differ from {:?}", model.keys());
    let mut recs = store.records();
    recs.sort();
    let mut want: Vec<Record<K, T>> = vec![];
    for (q, m) in model {
        for (d, s) in m {
            want.push(Record { query_id: q.clone(), doc_id: d.clone(), score: s.clone() });
        }
    }
    want.sort();
    ensure!(recs == want, "{what}: records() {recs:?} differ from accepted {want:?}");
    for (q, m) in model {
        let got = store.get_map(q).ok_or_else(|| format!("{what}: get_map({q:?}) is None"))?;
        ensure!(got == m, "{what}: get_map({q:?}) = {got:?}, accepted {m:?}");
        let sorted = store.get_sorted(q).ok_or_else(|| format!("{what}: get_sorted({q:?}) is None"))?;
        ensure!(sorted.len() == m.len(), "{what}: get_sorted({q:?}) has {} entries, accepted {}", sorted.len(), m.len());
        for r in sorted {
            ensure!(m.get(&r.doc_id) == Some(&r.score), "{what}: get_sorted({q:?}) lists {:?} with {:?}", r.doc_id, r.score);
        }
        for (d, s) in m {
            let g = store.get_score(q, d);
            ensure!(g == Some(s), "{what}: get_score({q:?}, {d:?}) = {g:?}, accepted {s:?}");
            obs.count("lookups", 1);
        }
        for d in absent {
            let g = store.get_score(q, d);
            ensure!(g == m.get(d), "{what}: get_score({q:?}, {d:?}) = {g:?}, accepted {:?}", m.get(d));
            obs.count("lookups", 1);
        }
    }
    for q in absent {
        ensure!(store.get_map(q).is_some() == model.contains_key(q), "{what}: get_map({q:?}) for absent query");
        ensure!(store.get_sorted(q).is_some() == model.contains_key(q), "{what}: get_sorted({q:?}) for absent query");
        if !model.contains_key(q) {
            for d in absent {
                ensure!(store.get_score(q, d).is_none(), "{what}: get_score({q:?}, {d:?}) of an absent query is Some");
            }
        }
    }
    Ok(())
}

/// Operations as indices; some pairs repeat if `dups`.
fn ops(rng: &mut Rng, dups: bool, big: u8) -> (Vec<(usize, usize)>, usize, usize) {
    let (nq, nd) = if big == 2 {
        match rng.below(3) {
            0 => (1, rng.range(66_000, 140_000)),
            1 => (rng.range(66_000, 110_000), 1),
            _ => (rng.range(260, 520), rng.range(260, 300)),
        }
    } else if big == 1 {
        match rng.below(4) {
            0 => (1, rng.range(1000, 6000)),
            1 => (rng.range(500, 5000), 2),
            2 => (1 << rng.range(5, 8), (1 << rng.range(3, 6)) + 1),
            _ => (rng.range(20, 300), rng.range(3, 40)),
        }
    } else {
        (rng.range(1, 6), gen::size(rng, 140))
    };
    let fill = *rng.pick(&[0.3, 0.8, 1.0]);
    let mut v = vec![];
    for q in 0..nq {
        for d in 0..nd {
            if rng.chance(fill) {
                v.push((q, d));
            }
        }
    }
    if v.is_empty() && rng.chance(0.9) {
        v.push((0, 0));
    }
    if dups && !v.is_empty() {
        for _ in 0..rng.range(0, 1 + v.len() / 3) {
            let x = *rng.pick(&v);
            v.push(x);
            if rng.chance(0.2) {
                v.push(x);
            }
        }
    }
    match rng.below(4) {
        0 => {}
        1 => v.reverse(),
        2 => v.sort_by_key(|x| (x.1, x.0)),
        _ => rng.shuffle(&mut v),
    }
    (v, nq, nd)
}

fn drive<K: Key, T: Ord + Clone + Debug>(
    rng: &mut Rng,
    obs: &mut Obs,
    kname: &str,
    ops: &[(usize, usize)],
    qk: &[K],
    dk: &[K],
    absent: &[K],
    mut score: impl FnMut(&mut Rng) -> T,
    builder_only: bool,
) -> CaseResult {
    let mut model: Model<K, T> = BTreeMap::new();
    let mut b = if rng.chance(0.5) { RelevanceStoreBuilder::<K, T>::new() } else { Default::default() };
    let mut accepted: Vec<Record<K, T>> = vec![];
    let mut all: Vec<Record<K, T>> = vec![];
    let mut rejected = 0;
    for (i, &(q, d)) in ops.iter().enumerate() {
        let s = score(rng);
        let rec = Record { query_id: qk[q].clone(), doc_id: dk[d].clone(), score: s.clone() };
        all.push(rec.clone());
        let r = b.add_record(qk[q].clone(), dk[d].clone(), s.clone());
        let m = model.entry(qk[q].clone()).or_default();
        if m.contains_key(&dk[d]) {
            rejected += 1;
            ensure!(matches!(r, Err(ElinorError::DuplicateEntry(_))), "{kname}: op {i}: duplicate ({:?},{:?}) returned {r:?}", qk[q], dk[d]);
        } else {
            ensure!(r.is_ok(), "{kname}: op {i}: fresh pair ({:?},{:?}) rejected: {r:?}", qk[q], dk[d]);
            m.insert(dk[d].clone(), s);
            accepted.push(rec);
        }
    }
    obs.count("add_record calls", ops.len() as u64);
    obs.count("duplicates rejected", rejected);
    obs.count(&format!("key type {kname}"), 1);
    let store = b.build();
    check_store(&format!("{kname} builder"), &store, &model, absent, obs)?;
    let st2 = RelevanceStore::from_records(gen::hinted(rng, all.iter().cloned()));
    if rejected > 0 {
        ensure!(matches!(st2, Err(ElinorError::DuplicateEntry(_))), "{kname}: from_records with duplicates returned {:?}", st2.map(|s| s.n_docs()));
    } else {
        ensure!(st2.is_ok(), "{kname}: from_records without duplicates failed");
    }
    if builder_only {
        return Ok(());
    }
    rng.shuffle(&mut accepted);
    let st3 = RelevanceStore::from_records(gen::hinted(rng, accepted.into_iter())).map_err(|e| format!("{kname}: from_records: {e}"))?;
    check_store(&format!("{kname} from_records"), &st3, &model, absent, obs)?;
    let again = RelevanceStore::from_records(st3.into_records()).map_err(|e| format!("{kname}: into_records round trip: {e}"))?;
    check_store(&format!("{kname} into_records"), &again, &model, absent, obs)?;
    let again = RelevanceStore::from_records(store.records()).map_err(|e| format!("{kname}: records round trip: {e}"))?;
    check_store(&format!("{kname} records"), &again, &model, absent, obs)?;
    Ok(())
}

fn case(rng: &mut Rng, obs: &mut Obs, dups: bool, big: u8) -> CaseResult {
    let (mut v, nq, nd) = ops(rng, dups, big);
    let (sa, sb) = (*rng.pick(&gen::IDS), *rng.pick(&gen::IDS));
    let style = rng.below(6);
    let h = hash_str(&format!("{v:?}{style}{sa:?}{sb:?}"));
    if v.len() > 1 {
        obs.sig(h);
    }
    obs.sample(|| json!({"queries": nq, "docs": nd, "adds": v.len(), "duplicates_allowed": dups, "key_style": style, "ids": format!("{sa:?}/{sb:?}")}));
    match style {
        0 | 1 => {
            let q = gen::ids(rng, nq, sa, "q");
            let d = gen::ids(rng, nd, sb, "d");
            let mut absent: Vec<String> = vec!["".into(), "zzz".into(), "q".into(), "d_0 ".into(), "D_0".into(), " ".into()];
            absent.push(q[0].clone());
            absent.push(d[nd - 1].clone());
            absent.push(format!("{}x", d[0]));
            if style == 0 {
                drive(rng, obs, "String/f64", &v, &q, &d, &absent, |r| OrderedFloat(gen::score(r, gen::Scores::Extreme)), dups)?;
                // borrowed look-ups
                let mut b = RelevanceStoreBuilder::new();
                let mut m: Model<String, u32> = BTreeMap::new();
                for &(i, j) in &v {
                    if b.add_record(q[i].clone(), d[j].clone(), (i + j) as u32).is_ok() {
                        m.entry(q[i].clone()).or_default().insert(d[j].clone(), (i + j) as u32);
                    }
                }
                let s = b.build();
                for (qq, mm) in &m {
                    for a in &absent {
                        ensure!(s.get_score(qq.as_str(), a.as_str()) == mm.get(a), "get_score(&str) {qq:?} {a:?}");
                    }
                    for (dd, x) in mm {
                        ensure!(s.get_score(qq.as_str(), dd.as_str()) == Some(x), "get_score(&str) {qq:?} {dd:?}");
                    }
                    ensure!(s.get_map(qq.as_str()) == Some(mm), "get_map(&str) {qq:?}");
                    ensure!(s.get_sorted(qq.as_str()).map(|x| x.len()) == Some(mm.len()), "get_sorted(&str) {qq:?}");
                }
                Ok(())
            } else {
                let q: Vec<&str> = q.iter().map(|s| s.as_str()).collect();
                let d: Vec<&str> = d.iter().map(|s| s.as_str()).collect();
                let absent: Vec<&str> = absent.iter().map(|s| s.as_str()).collect();
                drive(rng, obs, "&str/u32", &v, &q, &d, &absent, |r| gen::grade(r, gen::Grades::Huge, 0.7, 0), dups)
            }
        }
        2 => {
            // chars: limit the universe
            v.iter_mut().for_each(|x| *x = (x.0 % 20000, x.1 % 20000));
            if !dups {
                let mut seen = BTreeSet::new();
                v.retain(|x| seen.insert(*x));
            }
            let cs: Vec<char> = (0..20000u32).map(|i| char::from_u32(0x21 + i).unwrap()).collect();
            drive(rng, obs, "char/i16", &v, &cs, &cs, &['\u{10000}', '!', ' '], |r| r.u64() as i16, dups)
        }
        3 => {
            let q: Vec<u32> = (0..nq).map(|i| (i as u32).wrapping_mul(2654435761)).collect();
            let d: Vec<u32> = (0..nd).map(|i| u32::MAX - i as u32).collect();
            drive(rng, obs, "u32/String", &v, &q, &d, &[7, 0, u32::MAX, q[0], d[0]], |r| format!("{}", r.below(50)), dups)
        }
        4 => {
            let ids = gen::vague(nq.max(nd) + 3);
            drive(rng, obs, "opaque ids/u32", &v, &ids[..nq], &ids[..nd], &[ids[0].clone(), ids[nd].clone(), ids[nq].clone(), ids[nd + 1].clone()], |r| r.below(4) as u32, dups)
        }
        _ => {
            let q: Vec<i64> = (0..nq).map(|i| i as i64 - (nq / 2) as i64).collect();
            let d: Vec<i64> = (0..nd).map(|i| i64::MIN + 3 * i as i64).collect();
            drive(rng, obs, "i64/u32", &v, &q, &d, &[7, 0, i64::MAX, i64::MIN, -1], |r| r.u64() as u32, dups)
        }
    }
}

pub fn c01(ctx: &mut Ctx) {
    ctx.rule = "Random add_record histories (index grids x fill x order, ids of several types) replayed on the real builder and on a BTreeMap model, every accessor compared; non-trivial = at least two insertions, counted by the hash of the history.".into();
    ctx.require("evaluations", 500);
    ctx.require("lookups", 10000);
    let (a, b) = (ctx.n(60000, 3000000), ctx.n(1500, 60000));
    ctx.run("small", a, |r, _, o| case(r, o, false, 0));
    ctx.run("small-dups", a / 4, |r, _, o| case(r, o, true, 0));
    ctx.run("big", b, |r, _, o| case(r, o, false, 1));
    let n = ctx.n(16, 400);
    ctx.run("huge", n, |r, _, o| case(r, o, false, 2));
}

fn dup_histories(rng: &mut Rng, obs: &mut Obs) -> CaseResult {
    // Directed histories: duplicates immediately after, much later, in other queries, after rejected ones.
    let n = gen::size(rng, 300);
    let nq = rng.range(2, 40);
    let mut b = RelevanceStoreBuilder::<String, u32>::new();
    let mut model: Model<String, u32> = BTreeMap::new();
    let mut log: Vec<(String, String)> = vec![];
    for step in 0..n * 3 {
        let (q, d) = if !log.is_empty() && rng.chance(0.4) {
            match rng.below(4) {
                0 => log[0].clone(),
                1 => log[log.len() - 1].clone(),
                2 => {
                    // the same document under another query, or swapped roles
                    let x = rng.pick(&log).clone();
                    if rng.chance(0.5) {
                        (format!("q{}", rng.below(nq)), x.1)
                    } else {
                        (x.1, x.0)
                    }
                }
                _ => rng.pick(&log).clone(),
            }
        } else {
            (format!("q{}", rng.below(nq)), format!("d{}", rng.below(n + 2)))
        };
        let score = step as u32;
        let r = b.add_record(q.clone(), d.clone(), score);
        let m = model.entry(q.clone()).or_default();
        let present = m.contains_key(&d);
        if present {
            ensure!(matches!(r, Err(ElinorError::DuplicateEntry(_))), "step {step}: duplicate ({q},{d}) returned {r:?}");
            obs.count("duplicates rejected", 1);
        } else {
            ensure!(r.is_ok(), "step {step}: fresh ({q},{d}) returned {r:?}");
            m.insert(d.clone(), score);
        }
        log.push((q, d));
    }
    obs.count("add_record calls", (n * 3) as u64);
    obs.sig(hash_str(&format!("{log:?}")));
    let absent: Vec<String> = vec!["q0".into(), "d0".into(), "nope".into()];
    check_store("dup history", &b.build(), &model, &absent, obs)
}

fn trec_dups(rng: &mut Rng, obs: &mut Obs) -> CaseResult {
    let (v, nq, nd) = ops(rng, true, 0);
    let q = gen::ids(rng, nq, gen::Ids::Plain, "q");
    let d = gen::ids(rng, nd, gen::Ids::Mixed, "d");
    let uniq: BTreeSet<&(usize, usize)> = v.iter().collect();
    let dup = uniq.len() != v.len();
    let qrels: Vec<String> = v.iter().map(|x| format!("{} 0 {} {}", q[x.0], d[x.1], rng.below(3))).collect();
    let run: Vec<String> = v.iter().enumerate().map(|(i, x)| format!("{} Q0 {} {} {} r", q[x.0], d[x.1], i + 1, rng.below(100))).collect();
    let a = elinor::trec::parse_true_rels_in_trec(gen::hinted(rng, qrels.iter()));
    let b = elinor::trec::parse_pred_rels_in_trec(gen::hinted(rng, run.iter()));
    obs.sig(hash_str(&format!("{qrels:?}")));
    if dup {
        obs.count("duplicate files", 1);
        ensure!(matches!(a, Err(ElinorError::DuplicateEntry(_))), "qrels with duplicates accepted or wrong error: {qrels:?}");
        ensure!(matches!(b, Err(ElinorError::DuplicateEntry(_))), "run with duplicates accepted or wrong error: {run:?}");
    } else {
        let (a, b) = (a.map_err(|e| format!("qrels: {e}"))?, b.map_err(|e| format!("run: {e}"))?);
        ensure!(a.n_docs() == v.len() && b.n_docs() == v.len(), "n_docs after parsing");
    }
    Ok(())
}

pub fn c02(ctx: &mut Ctx) {
    ctx.rule = "Random insertion histories in which earlier pairs are re-inserted (first, latest, random, other query, swapped roles), on the builder, from_records and the TREC parsers, compared with a set model; distinct = hash of the history.".into();
    ctx.require("duplicates rejected", 1000);
    ctx.require("duplicate files", 50);
    let n = ctx.n(25000, 1000000);
    ctx.run("histories", n, |r, _, o| dup_histories(r, o));
    ctx.run("typed", n, |r, _, o| case(r, o, true, 0));
    let m = ctx.n(600, 20000);
    ctx.run("typed-big", m, |r, _, o| case(r, o, true, 1));
    let m = ctx.n(16, 400);
    ctx.run("typed-huge", m, |r, _, o| case(r, o, true, 2));
    ctx.run("trec", n / 2, |r, _, o| trec_dups(r, o));
}

fn sorted_case<K: Key>(rng: &mut Rng, obs: &mut Obs, docs: Vec<K>, q: &[K], tag: &str) -> CaseResult {
    let st = *rng.pick(&gen::SCORES);
    let nan = st == gen::Scores::Extreme && rng.chance(0.2);
    let mut recs: Vec<(K, K, f64)> = vec![];
    for qq in q {
        for d in &docs {
            if rng.chance(0.8) {
                let mut s = gen::score(rng, st);
                if nan && rng.chance(0.1) {
                    s = f64::NAN;
                }
                recs.push((qq.clone(), d.clone(), s));
            }
        }
    }
    let mut reference: Option<Vec<Vec<K>>> = None;
    for round in 0..3 {
        match round {
            1 => recs.reverse(),
            2 => rng.shuffle(&mut recs),
            _ => {}
        }
        let s = RelevanceStore::from_records(recs.iter().map(|r| Record { query_id: r.0.clone(), doc_id: r.1.clone(), score: OrderedFloat(r.2) }))
            .map_err(|e| format!("{tag}: {e}"))?;
        let mut lists = vec![];
        for qq in q {
            let mut want: Vec<(&K, f64)> = recs.iter().filter(|r| &r.0 == qq).map(|r| (&r.1, r.2)).collect();
            let Some(got) = s.get_sorted(qq) else {
                ensure!(want.is_empty(), "{tag}: no list for {qq:?}");
                continue;
            };
            for w in got.windows(2) {
                obs.count("adjacent pairs", 1);
                let c = cmp_score(w[0].score.0, w[1].score.0);
                ensure!(c.is_ge(), "{tag} {st:?}: {:?} ({:e}) ranked above {:?} ({:e})", w[0].doc_id, w[0].score.0, w[1].doc_id, w[1].score.0);
                if c.is_eq() {
                    obs.count("tied pairs", 1);
                    ensure!(w[0].doc_id < w[1].doc_id, "{tag} {st:?}: tie {:?} before {:?} (score {:e})", w[0].doc_id, w[1].doc_id, w[0].score.0);
                }
            }
            want.sort_by(|a, b| cmp_score(b.1, a.1).then(a.0.cmp(b.0)));
            ensure!(got.len() == want.len(), "{tag}: list length {} != {}", got.len(), want.len());
            for (g, w) in got.iter().zip(&want) {
                ensure!(&g.doc_id == w.0 && cmp_score(g.score.0, w.1).is_eq(), "{tag} {st:?}: got {:?}:{:e}, expected {:?}:{:e}", g.doc_id, g.score.0, w.0, w.1);
            }
            lists.push(got.iter().map(|g| g.doc_id.clone()).collect::<Vec<_>>());
        }
        match &reference {
            None => reference = Some(lists),
            Some(r) => ensure!(r == &lists, "{tag}: order depends on insertion order"),
        }
    }
    obs.count(&format!("scores {st:?}"), 1);
    obs.sig(hash_str(&format!("{:?}", recs.iter().take(200).map(|r| r.2.to_bits()).collect::<Vec<_>>())) ^ recs.len() as u64);
    obs.sample(|| json!({"keys": tag, "scores": format!("{st:?}"), "records": recs.len(), "head": format!("{:?}", recs.iter().take(4).collect::<Vec<_>>())}));
    Ok(())
}

fn sorted_trues(rng: &mut Rng, obs: &mut Obs, max: usize) -> CaseResult {
    let n = gen::size(rng, max);
    let mut recs: Vec<(u32, u32)> = (0..n as u32)
        .map(|d| {
            (d, match rng.below(3) {
                0 => rng.below(3) as u32,
                1 => gen::grade(rng, gen::Grades::Huge, 0.8, 0),
                _ => rng.u64() as u32,
            })
        })
        .collect();
    rng.shuffle(&mut recs);
    let s = RelevanceStore::from_records(recs.iter().map(|r| Record { query_id: 1u32, doc_id: r.0, score: r.1 })).map_err(|e| e.to_string())?;
    recs.sort_by(|a, b| b.1.cmp(&a.1).then(a.0.cmp(&b.0)));
    let got: Vec<(u32, u32)> = s.get_sorted(&1).unwrap().iter().map(|r| (r.doc_id, r.score)).collect();
    ensure!(got == recs, "judgments: got {got:?}, expected {recs:?}");
    obs.count("true lists", 1);
    obs.sig(hash_str(&format!("{recs:?}")));
    Ok(())
}

pub fn c03(ctx: &mut Ctx) {
    ctx.rule = "Stores with random score multisets (ties, ulp neighbours, extremes, NaN) inserted in three orders; every adjacent pair of every ranked list is checked, and the whole list against an independent sort; distinct = hash of the score bits.".into();
    ctx.assumptions = vec!["NaN scores are ordered above all numbers (the order of the public PredScore type)".into()];
    ctx.require("adjacent pairs", 50000);
    ctx.require("tied pairs", 5000);
    let n = ctx.n(40000, 1500000);
    ctx.run("preds", n, |rng, i, obs| {
        let nd = gen::size(rng, 1100);
        match i % 5 {
            0 => {
                let st = *rng.pick(&gen::IDS);
                let docs = gen::ids(rng, nd, st, "d");
                let q = gen::ids(rng, 1 + (i as usize / 4) % 3, gen::Ids::Plain, "q");
                sorted_case(rng, obs, docs, &q, "String")
            }
            1 => {
                let docs = gen::ids(rng, nd, gen::Ids::Prefix, "d");
                let d: Vec<&str> = docs.iter().map(|s| s.as_str()).collect();
                sorted_case(rng, obs, d, &["q", "r"], "&str")
            }
            2 => sorted_case(rng, obs, (0..nd as u32).map(|x| x.wrapping_mul(2654435761)).collect(), &[1, 2], "u32"),
            3 => sorted_case(rng, obs, gen::vague(nd), &gen::vague(2), "opaque ids"),
            _ => sorted_case(rng, obs, (0..nd as u32).map(|x| char::from_u32(0x100 + x).unwrap()).collect(), &['a'], "char"),
        }
    });
    ctx.run("trues", n / 2, |r, _, o| sorted_trues(r, o, 1100));
    let n = ctx.n(16, 300);
    ctx.run("huge", n, |rng, i, obs| {
        let nd = rng.range(66_000, 300_000);
        match i % 3 {
            0 => sorted_case(rng, obs, (0..nd as u32).map(|x| x.wrapping_mul(2654435761)).collect(), &[1], "u32"),
            1 => {
                let docs = gen::ids(rng, nd, gen::Ids::Plain, "d");
                sorted_case(rng, obs, docs, &["q".to_string()], "String")
            }
            _ => sorted_trues(rng, obs, 300_000),
        }
    });
}
