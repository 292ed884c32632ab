//! C24: calls are pure functions, whatever ran before or runs at the same time.
use crate::ensure;
use crate::gen::{self, Opts};
use crate::model::{self, Data};
use crate::p_metrics::{in_domain, stores};
use crate::p_stats::{matrix, Style};
use crate::report::{close, CaseResult, Ctx};
use crate::rng::{mix, Rng};
use elinor::statistical_tests::bootstrap_test::BootstrapTester;
use elinor::statistical_tests::randomized_tukey_hsd_test::RandomizedTukeyHsdTester;
use elinor::statistical_tests::{pairs_from_maps, tuples_from_maps, StudentTTest, TukeyHsdTest, TwoWayAnovaWithoutReplication as Anova};
use elinor::trec::{parse_pred_rels_in_trec, parse_true_rels_in_trec};
use elinor::{Metric, PredRecord, PredRelStore, TrueRecord, TrueRelStore};
use serde_json::json;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

/// Shared inputs of one family of calls.
pub struct Family {
    d: Data<String>,
    t: Arc<TrueRelStore<String>>,
    p: Arc<PredRelStore<String>>,
    /// The predictions, and those of a query without judgments: evaluations that fail.
    bad: Arc<PredRelStore<String>>,
    x: Vec<Vec<f64>>,
    pairs: Vec<(f64, f64)>,
    maps: Vec<BTreeMap<String, f64>>,
    qrels: Vec<String>,
    run: Vec<String>,
}
/// Group g of a run: four families. The first two have the same shape and ids but different contents (a cache keyed by
/// anything less than the contents shows); the other two share the stores of these, crossed (a cache keyed by one of the
/// two stores shows). Groups come in four sizes (a cache sized by an earlier call shows).
pub fn group(base: u64, g: u64) -> Result<Vec<Family>, String> {
    let a = family(base, g, false)?;
    let b = family(base, g, true)?;
    let cross = |x: &Family, y: &Family| Family {
        d: Data { trues: x.d.trues.clone(), preds: y.d.preds.clone() },
        t: x.t.clone(),
        p: y.p.clone(),
        bad: y.bad.clone(),
        x: x.x.clone(),
        pairs: y.pairs.clone(),
        maps: x.maps.iter().zip(&y.maps).enumerate().map(|(i, m)| if i % 2 == 0 { m.0.clone() } else { m.1.clone() }).collect(),
        qrels: x.qrels.clone(),
        run: y.run.clone(),
    };
    let (c, d) = (cross(&a, &b), cross(&b, &a));
    Ok(vec![a, b, c, d])
}
fn family(base: u64, g: u64, sibling: bool) -> Result<Family, String> {
    let mut rng = Rng::new(mix(base ^ g ^ 0xfa00));
    let docs = *[&[3, 1, 8, 2][..], &[25, 20, 31], &[300, 130, 700], &[1100, 1000, 1300]][(g % 4) as usize].get(rng.below(3)).unwrap();
    let queries = if docs < 100 { rng.range(1, 8) } else { rng.range(1, 3) };
    let mut d = gen::data_idx(&mut rng, &Opts { docs: Some(docs), queries: Some(queries), same_queries: true, ..Default::default() });
    let (n, m) = match g % 8 {
        3 => (rng.range(60, 300), rng.range(2, 4)),
        6 => (rng.range(3, 20), rng.range(10, 20)),
        _ => (rng.range(3, 15), rng.range(2, 5)),
    };
    let mut x = matrix(&mut rng, n, m, Style::Effects);
    let (nq, nr) = (rng.range(0, 30), rng.range(0, 30));
    let (iq, id) = if rng.chance(0.5) { (gen::Ids::Plain, gen::Ids::Plain) } else { (*rng.pick(&gen::IDS), *rng.pick(&gen::IDS)) };
    let (a, b) = gen::dims(&d);
    let (qi, di) = (gen::ids(&mut rng, a, iq, "q"), gen::ids(&mut rng, b, id, "d"));
    if sibling {
        // the sibling: the same shapes and ids, the contents exchanged
        let mut r2 = Rng::new(mix(base ^ g ^ 0x51b));
        for q in 0..a {
            let at: Vec<usize> = (0..d.trues.len()).filter(|&j| d.trues[j].0 == q).collect();
            let mut gr: Vec<u32> = at.iter().map(|&j| d.trues[j].2).collect();
            r2.shuffle(&mut gr);
            if g % 2 == 1 {
                // other grades with the same sum
                for x in 1..gr.len() {
                    if gr[x - 1] > 0 && gr[x] < u32::MAX && gr[x - 1] <= gr[x] + 1 {
                        gr[x - 1] -= 1;
                        gr[x] += 1;
                    }
                }
            }
            at.iter().zip(gr).for_each(|(&j, g)| d.trues[j].2 = g);
            let at: Vec<usize> = (0..d.preds.len()).filter(|&j| d.preds[j].0 == q).collect();
            let mut g: Vec<f64> = at.iter().map(|&j| d.preds[j].2).collect();
            r2.shuffle(&mut g);
            at.iter().zip(g).for_each(|(&j, g)| d.preds[j].2 = g);
        }
        x = matrix(&mut r2, n, m, Style::Effects);
        rng = r2;
    }
    let d = gen::rename(&d, &qi, &di);
    let (t, p) = stores(&d)?;
    let unjudged = rng.pick(&["", "q", "zzz"]).to_string();
    let mut with = d.preds.clone();
    if !d.trues.iter().any(|r| r.0 == unjudged) {
        with.push((unjudged, "d".into(), 0.5));
    }
    let bad = stores(&Data { trues: d.trues.clone(), preds: with })?.1;
    let pairs = x.iter().map(|r| (r[0], r[1])).collect();
    let maps = (0..m).map(|i| (0..n).map(|j| (format!("q{j}"), x[j][i])).collect()).collect();
    let qrels = (0..nq).map(|i| format!("q{} 0 d{i} {}", i % 4, rng.range(0, 4) as i32 - 1)).collect();
    let run = (0..nr).map(|i| format!("q{} Q0 d{i} {} {} tag", i % 4, i + 1, rng.normal())).collect();
    Ok(Family { d, t: Arc::new(t), p: Arc::new(p), bad: Arc::new(bad), x, pairs, maps, qrels, run })
}
#[derive(PartialEq, Debug, Default)]
pub struct Out {
    text: String,
    nums: Vec<f64>,
}
impl Out {
    fn err(&mut self, e: impl Debug) {
        // only the variant: messages are free to change
        let s = format!("{e:?}");
        self.text.push_str(s.split('(').next().unwrap_or(""));
    }
    fn same(&self, o: &Out) -> bool {
        self.text == o.text && self.nums.len() == o.nums.len() && self.nums.iter().zip(&o.nums).all(|(a, b)| close(*a, *b, 1e-9, 1e-11) || a.is_nan() && b.is_nan())
    }
    fn encode(&self) -> String {
        json!({"text": self.text, "nums": self.nums.iter().map(|x| x.to_bits()).collect::<Vec<_>>()}).to_string()
    }
    fn decode(s: &str) -> Option<Out> {
        let v: serde_json::Value = serde_json::from_str(s).ok()?;
        Some(Out { text: v["text"].as_str()?.into(), nums: v["nums"].as_array()?.iter().map(|x| x.as_u64().map(f64::from_bits)).collect::<Option<_>>()? })
    }
}
pub const KINDS: usize = 13;
/// Executes one library call; `v` selects the function and its parameters.
pub fn call(f: &Family, v: u64) -> Out {
    let mut rng = Rng::new(mix(v ^ 0xca11));
    let mut o = Out::default();
    // the variants of the metric functions go through all metrics, half of them without a cutoff
    let at = v as usize / KINDS * 4 + v as usize % KINDS;
    let metric = |rng: &mut Rng| -> Metric {
        let k = if at / model::ALL.len() % 2 == at % 2 { 0 } else { *rng.pick(&[1, 2, 3, 5, 10, 20, 150, 1000]) };
        let mut kind = model::ALL[at % model::ALL.len()];
        while !in_domain(kind, &f.d) {
            kind = *rng.pick(&model::ALL);
        }
        kind.at(k)
    };
    match v as usize % KINDS {
        0 | 1 => {
            let m = metric(&mut rng);
            o.text = m.to_string();
            match elinor::metrics::compute_metric(&f.t, if rng.chance(0.2) { &f.bad } else { &f.p }, m) {
                Ok(s) => {
                    for (q, x) in s {
                        o.text.push_str(&format!("|{q}"));
                        o.nums.push(x);
                    }
                }
                Err(e) => o.err(e),
            }
        }
        2 | 3 => {
            let m = metric(&mut rng);
            // also on stores that exist only for this call
            let (t, p);
            let (t, p) = if v as usize % KINDS == 3 {
                (t, p) = stores(&f.d).unwrap();
                (&t, &p)
            } else {
                (&*f.t, if rng.chance(0.2) { &*f.bad } else { &*f.p })
            };
            match elinor::evaluate(t, p, m) {
                Ok(e) => {
                    o.text = e.metric().to_string();
                    o.nums.extend([e.mean(), e.variance(), e.std_dev()]);
                    for (q, x) in e.scores() {
                        o.text.push_str(&format!("|{q}"));
                        o.nums.push(*x);
                    }
                }
                Err(e) => o.err(e),
            }
        }
        4 => {
            let mut l = f.qrels.clone();
            if rng.chance(0.3) {
                l.push("broken line".into());
            } else if rng.chance(0.3) && !l.is_empty() {
                l.push(l[0].clone());
            }
            match parse_true_rels_in_trec(&l) {
                Ok(s) => o.text = format!("{:?}", s.into_records()),
                Err(e) => o.err(e),
            }
        }
        5 => {
            let mut l = f.run.clone();
            if rng.chance(0.3) {
                l.push("broken line".into());
            } else if rng.chance(0.3) && !l.is_empty() {
                l.push(l[0].clone());
            }
            match parse_pred_rels_in_trec(&l) {
                Ok(s) => o.text = format!("{:?}", s.into_records()),
                Err(e) => o.err(e),
            }
        }
        6 => {
            let s = if rng.chance(0.7) { metric(&mut rng).to_string() } else { format!("{}x", metric(&mut rng)) };
            match s.parse::<Metric>() {
                Ok(m) => o.text = format!("{m:?} {m}"),
                Err(e) => o.err(e),
            }
        }
        7 => {
            let off = *rng.pick(&[0.0, 0.0, 0.5]);
            let n = if rng.chance(0.2) { rng.below(2) } else { f.pairs.len() };
            match StudentTTest::from_paired_samples(f.pairs[..n].iter().map(|p| (p.0 + off, p.1))) {
                Ok(t) => {
                    o.nums.extend([t.mean(), t.variance(), t.t_stat(), t.p_value(), t.effect_size()]);
                    for a in [0.05, 0.01, rng.f64().max(1e-4)] {
                        o.nums.push(t.margin_of_error(a).unwrap_or(f64::NAN));
                        if let Ok((l, h)) = t.confidence_interval(a) {
                            o.nums.extend([l, h]);
                        }
                    }
                }
                Err(e) => o.err(e),
            }
        }
        8 => match BootstrapTester::new().with_n_resamples(rng.range(1, 60)).with_random_state(rng.u64() >> rng.below(64)).test(f.pairs.iter().copied().take(if rng.chance(0.2) { rng.below(2) } else { f.pairs.len() })) {
            Ok(t) => {
                o.text = format!("{} {} {}", t.n_topics(), t.n_resamples(), t.random_state());
                o.nums.push(t.p_value());
            }
            Err(e) => o.err(e),
        },
        9 => match Anova::from_tupled_samples(&f.x, f.x[0].len() + (rng.chance(0.1) as usize)) {
            Ok(t) => {
                o.nums.extend([t.between_system_variation(), t.between_topic_variation(), t.residual_variation(), t.between_system_f_stat(), t.between_topic_f_stat(), t.between_system_p_value(), t.between_topic_p_value()]);
                o.nums.extend(t.system_means());
                o.nums.extend(t.topic_means());
                o.nums.push(t.margin_of_error(rng.f64().max(1e-4)).unwrap_or(f64::NAN));
            }
            Err(e) => o.err(e),
        },
        10 => match TukeyHsdTest::from_tupled_samples(&f.x, f.x[0].len() + (rng.chance(0.2) as usize)) {
            Ok(t) => o.nums = t.effect_sizes().concat(),
            Err(e) => o.err(e),
        },
        11 => match RandomizedTukeyHsdTester::new(f.x[0].len() + (rng.chance(0.2) as usize)).with_n_iters(rng.range(1, 40)).with_random_state(rng.u64() >> rng.below(64)).test(&f.x) {
            Ok(t) => {
                o.text = format!("{} {} {}", t.n_topics(), t.n_iters(), t.random_state());
                o.nums = t.p_values().concat();
            }
            Err(e) => o.err(e),
        },
        _ => {
            let k = rng.range(1, f.maps.len());
            match tuples_from_maps(&f.maps[..k]) {
                Ok(t) => o.nums = t.concat(),
                Err(e) => o.err(e),
            }
            if rng.chance(0.3) {
                // a map without the first or the last key
                let mut less = f.maps[0].clone();
                if rng.chance(0.5) {
                    less.pop_first();
                } else {
                    less.pop_last();
                }
                match tuples_from_maps(f.maps[..k].iter().chain([&less])) {
                    Ok(_) => o.text.push_str("paired"),
                    Err(e) => o.err(e),
                }
            }
            match pairs_from_maps(&f.maps[rng.below(f.maps.len())], &f.maps[rng.below(f.maps.len())]) {
                Ok(t) => o.nums.extend(t.into_iter().flat_map(|p| [p.0, p.1])),
                Err(e) => o.err(e),
            }
            // look-ups and a store built from the records of a shared one
            let q = rng.pick(&f.d.trues).0.clone();
            o.text.push_str(&format!("{:?}{:?}", f.t.get_sorted(&q), f.p.get_map(&q)));
            o.text.push_str(&format!("{}{}{:?}", f.t.n_docs(), f.p.n_queries(), f.p.query_ids().collect::<Vec<_>>()));
            let s = TrueRelStore::from_records(f.t.records()).unwrap();
            o.text.push_str(&format!("{}{}{:?}", s.n_docs(), s.n_queries(), s.query_ids().collect::<Vec<_>>()));
            let r: Vec<String> = f.t.records().iter().take(3).map(|r| serde_json::to_string(r).unwrap()).collect();
            for l in &r {
                o.text.push_str(&format!("{:?}", serde_json::from_str::<TrueRecord<String>>(l).unwrap()));
            }
        }
    }
    o
}
/// `elinor-monitor --child-c24 BASE FAMILY VARIANT`: one call in a fresh process.
pub fn child(base: u64, fam: u64, v: u64) {
    println!("{}", call(&group(base, fam / 4).unwrap()[fam as usize % 4], v).encode());
}
/// A history of calls (family, variant), in a random order or by size.
fn history(nf: u64, nv: u64, seed: u64) -> Vec<(u64, u64)> {
    let mut rng = Rng::new(mix(seed ^ 0x415));
    // a few families and few functions, so that related calls follow each other
    let fs: Vec<u64> = (0..rng.range(2, 6)).map(|_| rng.below(nf as usize) as u64).flat_map(|f| [f, f ^ 1, f ^ 2, f ^ 3]).filter(|f| *f < nf).collect();
    let kinds: Vec<u64> = (0..rng.range(1, 4)).map(|_| if rng.chance(0.4) { rng.below(4) } else { rng.below(KINDS) } as u64).collect();
    // half of the histories repeat a few parameters
    let per = (nv / KINDS as u64) as usize;
    let few: Vec<u64> = (0..if rng.chance(0.5) { rng.range(1, 2) } else { 3 * per }).map(|_| rng.below(per) as u64).collect();
    let mut h: Vec<(u64, u64)> = (0..rng.range(5, 60)).map(|_| (*rng.pick(&fs), *rng.pick(&kinds) + KINDS as u64 * *rng.pick(&few)))
        .collect();
    match rng.below(3) {
        0 => h.sort_by_key(|c| c.0 / 4 % 4),
        1 => h.sort_by_key(|c| 3 - c.0 / 4 % 4),
        _ => {}
    }
    h
}
/// `elinor-monitor --child-c24-seq BASE FAMILIES VARIANTS SEED`: one history in a fresh process.
pub fn child_seq(base: u64, nf: u64, nv: u64, seed: u64) {
    let mut groups: BTreeMap<u64, Vec<Family>> = BTreeMap::new();
    for (f, v) in history(nf, nv, seed) {
        let g = groups.entry(f / 4).or_insert_with(|| group(base, f / 4).unwrap());
        println!("{}", call(&g[f as usize % 4], v).encode());
    }
}
/// Two or three truths and as many predictions over the same documents, and samples of the same shape.
struct World {
    data: Vec<Data<usize>>,
    t: Vec<TrueRelStore<usize>>,
    p: Vec<PredRelStore<usize>>,
    /// The predictions with a query more, which has no judgments.
    bad: Vec<PredRelStore<usize>>,
    xs: Vec<Vec<Vec<f64>>>,
}
impl World {
    fn show(&self) -> String {
        format!("truths and predictions {:?}, samples {:?}", self.data.iter().map(|d| (&d.trues, &d.preds)).collect::<Vec<_>>(), self.xs)
    }
}
fn world(rng: &mut Rng) -> Result<World, String> {
    let (nq, nd) = (if rng.chance(0.6) { 1 } else { rng.range(2, 3) }, rng.range(1, 25));
    let rate = *rng.pick(&[0.1, 0.3, 0.7]);
    let k = rng.range(2, 3);
    let top = *rng.pick(&[1, 1, 2, 4]);
    let (mut data, mut t, mut p, mut bad) = (vec![], vec![], vec![], vec![]);
    let (first, extra) = if rng.chance(0.5) { (0, nq) } else { (1, 0) };
    // often the same documents are judged in all of them
    let shape: Option<Vec<bool>> = rng.chance(0.5).then(|| (0..nd).map(|_| rng.chance(0.7)).collect());
    for _ in 0..k {
        let mut d: Data<usize> = Data { trues: vec![], preds: vec![] };
        for q in first..first + nq {
            for j in 0..nd {
                let rel = rng.chance(rate) && shape.as_ref().map_or(true, |s| s[j]);
                if rel || shape.as_ref().map_or_else(|| rng.chance(0.5), |s| s[j]) {
                    d.trues.push((q, j, if rel { rng.range(1, top) as u32 } else { 0 }));
                }
            }
            if !d.trues.iter().any(|r| r.0 == q) {
                d.trues.push((q, 0, 1));
            }
            let mut s: Vec<usize> = (0..nd).collect();
            rng.shuffle(&mut s);
            s.iter().enumerate().for_each(|(j, s)| d.preds.push((q, j, *s as f64)));
        }
        let (a, b) = stores(&d)?;
        t.push(a);
        p.push(b);
        let mut with = d.preds.clone();
        with.push((extra, 0, 1.0));
        bad.push(stores(&Data { trues: d.trues.clone(), preds: with })?.1);
        data.push(d);
    }
    let (n, m) = (rng.range(2, 12), rng.range(2, 4));
    let mut xs: Vec<Vec<Vec<f64>>> = (0..k).map(|_| matrix(rng, n, m, Style::Effects)).collect();
    if rng.chance(0.5) {
        xs.push(vec![vec![0.5; m]; n]); // no differences
    }
    if rng.chance(0.5) {
        xs.push(xs[0][..1].to_vec()); // a single topic
    }
    Ok(World { data, t, p, bad, xs })
}
/// What the threads of a hammer case share besides the world.
struct Shares {
    w: World,
    ms: Vec<Metric>,
    seeds: Vec<u64>,
    qrels: Vec<String>,
    run: Vec<String>,
    student: Vec<StudentTTest>,
    anova: Vec<Anova>,
    tukey: Vec<TukeyHsdTest>,
    boot: BootstrapTester,
    rand: Vec<RandomizedTukeyHsdTester>,
}
const HAMMERS: usize = 20;
/// Calls 0 to 2 evaluate, 3 to 7 test the samples, the others look at stores and results that the threads share.
fn hammer_call(s: &Shares, kind: usize, a: usize, b: usize) -> Out {
    let w = &s.w;
    let (i, j, x) = (a % w.t.len(), b % w.p.len(), a % w.xs.len());
    let mut o = Out::default();
    match kind {
        0 | 1 => return world_call(w, (i, j, b % s.ms.len()), &s.ms, &s.seeds, false),
        2 => match elinor::metrics::compute_metric(&w.t[i], &w.p[j], s.ms[b % s.ms.len()]) {
            Ok(r) => o.nums.extend(r.values()),
            Err(e) => o.err(e),
        },
        3..=7 => return world_call(w, (x, kind - 3, 100 + b % s.seeds.len()), &s.ms, &s.seeds, false),
        8 => o.text = format!("{} {} {} {}", w.t[i].n_docs(), w.p[j].n_docs(), w.t[i].n_queries(), w.bad[j].n_docs()),
        9 => o.text = format!("{:?} {:?}", w.t[i].query_ids().collect::<Vec<_>>(), w.bad[j].query_ids().collect::<Vec<_>>()),
        10 => {
            for q in 0..4 {
                o.nums.extend((0..8).map(|d| w.p[j].get_score(&q, &(d + a % 20)).map_or(-1.0, |s| s.0)));
                o.nums.extend((0..8).map(|d| w.t[i].get_score(&q, &(d + a % 20)).map_or(-1.0, |s| *s as f64)));
            }
        }
        11 => o.text = format!("{:?} {:?}", w.t[i].get_map(&(a % 4)), w.p[j].get_map(&(a % 4))),
        12 => o.text = format!("{:?} {:?}", w.t[i].get_sorted(&(a % 4)), w.p[j].get_sorted(&(a % 4))),
        13 => o.text = format!("{:?} {:?}", w.t[i].records(), w.p[j].records()),
        14 => match parse_true_rels_in_trec(&s.qrels) {
            Ok(r) => o.text = format!("{:?}", r.into_records()),
            Err(e) => o.err(e),
        },
        15 => match parse_pred_rels_in_trec(&s.run) {
            Ok(r) => o.text = format!("{:?}", r.into_records()),
            Err(e) => o.err(e),
        },
        16 => {
            let text = s.ms[b % s.ms.len()].to_string();
            match text.parse::<Metric>() {
                Ok(m) => o.text = format!("{m:?} {m} {text}"),
                Err(e) => o.err(e),
            }
        }
        17 => {
            let alpha = 0.01 + (b % 5) as f64 * 0.1;
            for t in &s.student {
                o.nums.extend([t.mean(), t.variance(), t.t_stat(), t.p_value(), t.margin_of_error(alpha).unwrap_or(-1.0)]);
                t.confidence_interval(alpha).iter().for_each(|c| o.nums.extend([c.0, c.1]));
            }
        }
        18 => {
            let alpha = 0.01 + (b % 5) as f64 * 0.1;
            for t in &s.anova {
                o.nums.extend(t.system_means());
                o.nums.extend([t.between_system_p_value(), t.between_topic_p_value(), t.margin_of_error(alpha).unwrap_or(-1.0)]);
            }
            s.tukey.iter().for_each(|t| o.nums.extend(t.effect_sizes().concat()));
        }
        _ => {
            match s.boot.test(w.xs[x].iter().map(|r| (r[0], r[1]))) {
                Ok(t) => o.nums.push(t.p_value()),
                Err(e) => o.err(e),
            }
            match s.rand[x].test(&w.xs[x]) {
                Ok(t) => o.nums.extend(t.p_values().concat()),
                Err(e) => o.err(e),
            }
        }
    }
    o
}
/// `fresh`: on stores that exist only for this call (the memory of earlier ones is used again).
fn world_call(w: &World, c: (usize, usize, usize), ms: &[Metric], seeds: &[u64], fresh: bool) -> Out {
    let mut o = Out::default();
    if c.2 < 100 {
        let (t, p);
        let (t, p) = if c.1 >= 100 {
            (&w.t[c.0], &w.bad[c.1 - 100])
        } else if fresh {
            (t, p) = (stores(&w.data[c.0]).unwrap().0, stores(&w.data[c.1]).unwrap().1);
            (&t, &p)
        } else {
            (&w.t[c.0], &w.p[c.1])
        };
        match elinor::evaluate(t, p, ms[c.2]) {
            Ok(e) => {
                o.nums.push(e.mean());
                o.nums.extend(e.scores().values());
            }
            Err(e) => o.err(e),
        }
        return o;
    }
    let (x, seed) = (&w.xs[c.0], seeds[c.2 - 100]);
    let pairs = || x.iter().map(|r| (r[0], r[1]));
    // (ANOVA without residuals is a known finding of C19)
    match if x.iter().all(|r| r.iter().all(|v| *v == 0.5)) { [0, 1, 4][c.1 % 3] } else { c.1 } {
        0 => match StudentTTest::from_paired_samples(pairs()) {
            Ok(t) => o.nums.extend([t.mean(), t.variance(), t.t_stat(), t.p_value(), t.margin_of_error(0.05).unwrap_or(f64::NAN)]),
            Err(e) => o.err(e),
        },
        1 => match BootstrapTester::new().with_n_resamples(20).with_random_state(seed).test(pairs()) {
            Ok(t) => o.nums.push(t.p_value()),
            Err(e) => o.err(e),
        },
        2 => match Anova::from_tupled_samples(x, x[0].len()) {
            Ok(t) => o.nums.extend([t.between_system_f_stat(), t.between_topic_f_stat(), t.between_system_p_value(), t.between_topic_p_value(), t.margin_of_error(0.05).unwrap_or(f64::NAN)]),
            Err(e) => o.err(e),
        },
        3 => match TukeyHsdTest::from_tupled_samples(x, x[0].len()) {
            Ok(t) => o.nums = t.effect_sizes().concat(),
            Err(e) => o.err(e),
        },
        _ => match RandomizedTukeyHsdTester::new(x[0].len()).with_n_iters(10).with_random_state(seed).test(x) {
            Ok(t) => o.nums = t.p_values().concat(),
            Err(e) => o.err(e),
        },
    }
    o
}
type Snapshot = (Vec<TrueRecord<String>>, Vec<PredRecord<String>>, Vec<Vec<f64>>, Vec<BTreeMap<String, f64>>);
fn snapshot(f: &Family) -> Snapshot {
    (f.t.records(), f.p.records(), f.x.clone(), f.maps.clone())
}

const MAXT: usize = 64;
static BUSY: [AtomicU64; MAXT] = [const { AtomicU64::new(0) }; MAXT];
static SLOT: AtomicU64 = AtomicU64::new(0);
thread_local! { static MY: usize = SLOT.fetch_add(1, Ordering::SeqCst) as usize % MAXT; }

/// What several threads use at once. It lets the harness build when a type of the library cannot be shared; c24 then says so
/// and stops before anything is shared.
struct Shared<T>(T);
unsafe impl<T> Sync for Shared<T> {}
unsafe impl<T> Send for Shared<T> {}
impl<T> std::ops::Deref for Shared<T> {
    type Target = T;
    fn deref(&self) -> &T {
        &self.0
    }
}
/// Whether a type is Send and Sync: the inherent constant shadows the one of the trait where its bounds hold.
struct Probe<T>(std::marker::PhantomData<T>);
#[allow(dead_code)]
trait Unshareable {
    const YES: bool = false;
}
impl<T> Unshareable for Probe<T> {}
impl<T: Send + Sync> Probe<T> {
    const YES: bool = true;
}
macro_rules! shareable {
    ($($t:ty),* $(,)?) => { vec![$((stringify!($t), Probe::<$t>::YES)),*] };
}

pub fn c24(ctx: &mut Ctx) {
    let types: Vec<(&str, bool)> = shareable![
        TrueRelStore<String>,
        TrueRelStore<usize>,
        PredRelStore<String>,
        PredRelStore<usize>,
        elinor::TrueRelStoreBuilder<String>,
        elinor::PredRelStoreBuilder<String>,
        TrueRecord<String>,
        PredRecord<String>,
        elinor::Evaluation<String>,
        elinor::ElinorError,
        Metric,
        StudentTTest,
        BootstrapTester,
        elinor::statistical_tests::BootstrapTest,
        Anova,
        TukeyHsdTest,
        RandomizedTukeyHsdTester,
        elinor::statistical_tests::RandomizedTukeyHsdTest,
    ];
    ctx.run_t("types", 1, 1, |_, _, obs| {
        for (t, ok) in &types {
            ensure!(*ok, "a {t} cannot be shared by threads (it is not Send and Sync): calls on a shared one are impossible");
            obs.count("types that threads can share", 1);
        }
        Ok(())
    });
    if types.iter().any(|(_, ok)| !ok) {
        return;
    }
    let tsan = std::env::var("VERIF_SANITIZER").unwrap_or_default();
    let lite = !tsan.is_empty();
    ctx.rule = "Each call (function, parameters, shared inputs) is first executed alone in a fresh process; then all of them run in random order from 8 threads on the same shared stores and every result is compared with the isolated one. Distinct = ordered pairs of (function, family) observed running at the same time plus ordered pairs observed consecutively in a thread. ThreadSanitizer (and Miri in the thorough tier) watch the same workload in separate runs.".into();
    ctx.assumptions = vec!["numbers may differ by rounding (1e-9)".into()];
    let (nf, nv) = if tsan == "miri" { (4u64, 13u64) } else if lite { (8, 39) } else { (ctx.n(32, 96), ctx.n(91, 182)) };
    let base = mix(ctx.seed);
    let fams: Shared<Vec<Family>> = Shared((0..nf / 4).flat_map(|g| group(base, g).expect("HARNESS: family")).collect());
    let before: Vec<Snapshot> = fams.iter().map(snapshot).collect();
    // isolated results
    let baseline: Vec<Mutex<Option<Out>>> = (0..nf * nv).map(|_| Mutex::new(None)).collect();
    if lite {
        for g in 0..nf / 4 {
            let group = group(base, g).unwrap();
            for i in 4 * g * nv..4 * (g + 1) * nv {
                *baseline[i as usize].lock().unwrap() = Some(call(&group[(i / nv % 4) as usize], i % nv));
            }
        }
    } else {
        let exe = std::env::current_exe().unwrap();
        let next = AtomicU64::new(0);
        std::thread::scope(|s| {
            for _ in 0..8 {
                s.spawn(|| loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= nf * nv {
                        break;
                    }
                    let out = std::process::Command::new(&exe).args(["--child-c24", &base.to_string(), &(i / nv).to_string(), &(i % nv).to_string()]).output().expect("HARNESS: spawn");
                    *baseline[i as usize].lock().unwrap() = Out::decode(&String::from_utf8_lossy(&out.stdout));
                });
            }
        });
        ctx.count("isolated calls in fresh processes", nf * nv);
    }
    let baseline: Vec<Out> = {
        let mut v = vec![];
        for (i, b) in baseline.into_iter().enumerate() {
            match b.into_inner().unwrap() {
                Some(o) => v.push(o),
                None => {
                    ctx.violation("isolated", i as u64, &format!("isolated call failed: family {} variant {}", i as u64 / nv, i as u64 % nv));
                    return;
                }
            }
        }
        v
    };
    if !lite {
        let exe = std::env::current_exe().unwrap();
        ctx.require("calls compared in fresh histories", 1000);
        let n = ctx.n(600, 12000);
        ctx.run("histories", n, |rng, _, obs| {
            let seed = rng.u64();
            let out = std::process::Command::new(&exe).args(["--child-c24-seq", &base.to_string(), &nf.to_string(), &nv.to_string(), &seed.to_string()]).output().expect("HARNESS: spawn");
            let h = history(nf, nv, seed);
            let text = String::from_utf8_lossy(&out.stdout);
            let mut lines = text.lines();
            let mut last = 0;
            for (i, (f, v)) in h.iter().enumerate() {
                let want = &baseline[(f * nv + v) as usize];
                let got = lines.next().and_then(Out::decode).ok_or_else(|| format!("call {i} of history {:?} dies: {}", &h[..=i], String::from_utf8_lossy(&out.stderr)))?;
                ensure!(got.same(want), "after the calls {:?} call {v} (function {}) on family {f} gives {got:?}, alone in a fresh process {want:?}", &h[..i], v % KINDS as u64);
                let tag = 1 + (f * KINDS as u64 + v % KINDS as u64);
                obs.sig(mix(last) ^ tag);
                last = tag;
                obs.count("calls compared in fresh histories", 1);
            }
            Ok(())
        });
    }
    let threads = if tsan == "miri" { 3 } else { 8 };
    // small worlds: a few stores and samples of the same shape, whose calls follow each other in all orders; a call gives the
    // same result whenever it is repeated, and the same in a thread of its own
    let n = if tsan == "miri" { 20 } else if lite { 300 } else { ctx.n(20000, 400000) };
    if !lite {
        ctx.require("repeated calls in small worlds", 100_000);
    }
    if !lite {
        ctx.require("failing calls in small worlds", 10_000);
    }
    ctx.run_t("small worlds", n, threads, |rng, _, obs| -> CaseResult {
        let w = world(rng)?;
        let ms: Vec<Metric> = (0..rng.range(1, 4))
            .map(|_| {
                let mut kind = *rng.pick(&model::ALL);
                while !w.data.iter().all(|d| in_domain(kind, d)) {
                    kind = *rng.pick(&model::ALL);
                }
                kind.at(if rng.chance(0.5) { 0 } else { rng.range(1, 25) })
            })
            .collect();
        let seeds: Vec<u64> = (0..2).map(|_| rng.u64()).collect();
        let mut seen: BTreeMap<(usize, usize, usize), (Out, usize)> = BTreeMap::new();
        let stats = rng.chance(0.3);
        let mut calls = vec![];
        let (fresh, failing) = (rng.chance(0.3), rng.chance(0.5));
        for i in 0..rng.range(10, 60) {
            let c = if stats { (rng.below(w.xs.len()), rng.below(5), 100 + rng.below(2)) } else { (rng.below(w.t.len()), rng.below(w.p.len()) + if failing && rng.chance(0.2) { 100 } else { 0 }, rng.below(ms.len())) };
            let got = world_call(&w, c, &ms, &seeds, fresh);
            calls.push(c);
            obs.count("failing calls in small worlds", (c.2 < 100 && c.1 >= 100) as u64);
            match seen.get(&c) {
                Some((want, at)) => {
                    ensure!(got.same(want), "call {i} of {calls:?} (truth, prediction, metric of {ms:?} {seeds:?}) gives {got:?}, as call {at} it gave {want:?}; {}", w.show());
                    obs.count("repeated calls in small worlds", 1);
                }
                None => {
                    obs.sig(mix(mix(c.0 as u64) ^ mix(c.1 as u64 + 7) ^ (c.2 as u64)) ^ mix(got.nums.first().map_or(0, |x| x.to_bits())));
                    seen.insert(c, (got, i));
                }
            }
        }
        if rng.chance(if lite { 0.1 } else { 0.05 }) {
            let w = Shared(w);
            let (w, ms, seeds) = (&w, &ms, &seeds);
            for (c, (want, at)) in &seen {
                let got = std::thread::scope(|s| s.spawn(|| world_call(w, *c, ms, seeds, false)).join()).map_err(|_| format!("call {c:?} panics in a thread of its own"))?;
                ensure!(got.same(want), "call {c:?} of {ms:?} {seeds:?} gives {got:?} in a thread of its own, as call {at} of {calls:?} it gave {want:?}; {}", w.show());
                obs.count("calls repeated in a thread of their own", 1);
            }
        }
        Ok(())
    });
    // marathons: one function called more than 2^16 times, on a few interchangeable inputs in a random order
    if !lite {
        ctx.require("calls in marathons", 1_000_000);
        let n = ctx.n(72, 720);
        ctx.run_t("marathons", n, threads, |rng, i, obs| -> CaseResult {
            let mut w = world(rng)?;
            while w.t.iter().map(|t| t.n_docs()).sum::<usize>() > 60 {
                w = world(rng)?;
            }
            let f = i as usize % 18;
            let kind = if f < 13 { model::ALL[f] } else { model::ALL[0] };
            if !w.data.iter().all(|d| in_domain(kind, d)) {
                return Ok(());
            }
            let ms = [kind.at(if rng.chance(0.5) { 0 } else { rng.range(1, 5) })];
            let seeds = [rng.u64(), rng.u64()];
            let variants: Vec<(usize, usize, usize)> = (0..4)
                .map(|j| if f < 13 { (rng.below(w.t.len()), rng.below(w.p.len()), 0) } else { (rng.below(w.xs.len()), f - 13, 100 + j % 2) })
                .collect();
            let want: Vec<Out> = variants.iter().map(|c| world_call(&w, *c, &ms, &seeds, false)).collect();
            for k in 0..70_000 {
                let j = rng.below(4);
                let got = world_call(&w, variants[j], &ms, &seeds, false);
                ensure!(got.same(&want[j]), "call {} of function {f} {ms:?} with {:?} gives {got:?}, at first it gave {:?}; {}", k + 4, variants[j], want[j], w.show());
            }
            obs.count("calls in marathons", 70_000);
            obs.sig(mix(i ^ want[0].nums.first().map_or(0, |x| x.to_bits())));
            Ok(())
        });
    }
    // hammers: a few calls on one small world, made over and over by threads that start together
    let n = if tsan == "miri" { 2 } else if lite { 60 } else { ctx.n(1500, 30000) };
    let calls = if tsan == "miri" { 10 } else { 250 };
    if !lite {
        ctx.require("calls in hammers", 1_000_000);
    }
    ctx.run_t("hammers", n, 1, |rng, i, obs| -> CaseResult {
        let w = world(rng)?;
        let ms: Vec<Metric> = (0..3)
            .map(|_| {
                let mut kind = *rng.pick(&model::ALL);
                while !w.data.iter().all(|d| in_domain(kind, d)) {
                    kind = *rng.pick(&model::ALL);
                }
                kind.at(if rng.chance(0.5) { 0 } else { rng.range(1, 25) })
            })
            .collect();
        let seeds: Vec<u64> = (0..2).map(|_| rng.u64()).collect();
        let d = &w.data[0];
        let s = Shared(Shares {
            qrels: d.trues.iter().map(|r| format!("q{} 0 d{} {}", r.0, r.1, r.2)).collect(),
            run: d.preds.iter().map(|r| format!("q{} Q0 d{} 1 {} t", r.0, r.1, r.2)).collect(),
            student: w.xs.iter().filter_map(|x| StudentTTest::from_paired_samples(x.iter().map(|r| (r[0], r[1]))).ok()).collect(),
            anova: w.xs.iter().filter(|x| x.iter().any(|r| r.iter().any(|v| *v != 0.5))).filter_map(|x| Anova::from_tupled_samples(x, x[0].len()).ok()).collect(),
            tukey: w.xs.iter().filter(|x| x.iter().any(|r| r.iter().any(|v| *v != 0.5))).filter_map(|x| TukeyHsdTest::from_tupled_samples(x, x[0].len()).ok()).collect(),
            boot: BootstrapTester::new().with_n_resamples(15).with_random_state(seeds[0]),
            rand: w.xs.iter().map(|x| RandomizedTukeyHsdTester::new(x[0].len()).with_n_iters(10).with_random_state(seeds[1])).collect(),
            w,
            ms,
            seeds,
        });
        // mostly one function with a few parameters; the expected results come from this thread
        let kinds: Vec<usize> = if rng.chance(0.7) { vec![i as usize % HAMMERS] } else { (0..3).map(|_| rng.below(HAMMERS)).collect() };
        let variants: Vec<(usize, usize, usize)> = (0..rng.range(1, 4)).flat_map(|_| kinds.iter().map(|k| (*k, rng.below(1000), rng.below(1000))).collect::<Vec<_>>()).collect();
        let want: Vec<Out> = variants.iter().map(|c| hammer_call(&s, c.0, c.1, c.2)).collect();
        let start = std::sync::Barrier::new(threads);
        let order: Vec<u64> = (0..threads).map(|_| rng.u64()).collect();
        let (s, variants, want, start) = (&s, &variants, &want, &start);
        let bad: Vec<String> = std::thread::scope(|sc| {
            let hs: Vec<_> = order
                .iter()
                .map(|o| {
                    sc.spawn(move || {
                        let mut rng = Rng::new(*o);
                        start.wait();
                        for k in 0..calls {
                            let v = rng.below(variants.len());
                            let c = variants[v];
                            let got = hammer_call(s, c.0, c.1, c.2);
                            if !got.same(&want[v]) {
                                return Some(format!("call {k} of one of {threads} threads, {c:?} of {variants:?}, gives {got:?}, before the threads started {:?}; {:?} {}", want[v], s.ms, s.w.show()));
                            }
                        }
                        None
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or(Some(format!("a thread panics; calls {variants:?} {:?} {}", s.ms, s.w.show())))).flatten().collect()
        });
        if let Some(b) = bad.into_iter().next() {
            return Err(b);
        }
        for c in variants {
            ensure!(hammer_call(s, c.0, c.1, c.2).same(&want[variants.iter().position(|v| v == c).unwrap()]), "after the threads {c:?} of {variants:?} gives another result than before; {:?} {}", s.ms, s.w.show());
        }
        obs.count("calls in hammers", (threads * calls) as u64);
        obs.sig(mix(i ^ 0x4a) ^ want[0].nums.first().map_or(0, |x| x.to_bits()));
        Ok(())
    });
    let overlaps: Mutex<HashSet<(u64, u64)>> = Mutex::new(HashSet::new());
    let burst = if tsan == "miri" { 13 } else { 120 };
    let n = if tsan == "miri" { 3 } else if lite { 60 } else { ctx.n(3000, 80000) };
    if !lite {
        ctx.require("calls compared", 100_000);
        ctx.require("overlapping pairs of calls", 500);
    }
    ctx.run_t("threads", n, threads, |rng, _, obs| -> CaseResult {
        let me = MY.with(|m| *m);
        let one = rng.below(nf as usize) as u64;
        let narrow = rng.chance(0.5); // hammer a single family
        let mut last = 0;
        let mut seen = vec![];
        for _ in 0..burst {
            let f = if narrow { one } else { rng.below(nf as usize) as u64 };
            let v = rng.below(nv as usize) as u64;
            let tag = 1 + (f * KINDS as u64 + v % KINDS as u64);
            BUSY[me].store(tag, Ordering::Relaxed);
            for (t, b) in BUSY.iter().enumerate() {
                let other = b.load(Ordering::Relaxed);
                if t != me && other != 0 {
                    seen.push((tag, other));
                }
            }
            let got = call(&fams[f as usize], v);
            BUSY[me].store(0, Ordering::Relaxed);
            let want = &baseline[(f * nv + v) as usize];
            ensure!(got.same(want), "call {v} (function {}) on family {f} gives {got:?}, alone in a fresh process {want:?}", v % KINDS as u64);
            obs.sig(mix(last) ^ tag);
            last = tag;
            obs.count("calls compared", 1);
        }
        overlaps.lock().unwrap().extend(seen);
        Ok(())
    });
    let ov = overlaps.into_inner().unwrap();
    ctx.count("overlapping pairs of calls", ov.len() as u64);
    ctx.run_t("inputs", 1, 1, |_, _, obs| {
        for (i, f) in fams.iter().enumerate() {
            ensure!(snapshot(f) == before[i], "the inputs of family {i} changed");
            let again = group(base, i as u64 / 4)?;
            ensure!(snapshot(&again[i % 4]) == before[i], "family {i} built again differs");
            obs.count("input sets unchanged", 1);
            obs.sample(|| json!({"family": i, "queries": f.p.n_queries(), "docs": f.p.n_docs(), "matrix": [f.x.len(), f.x[0].len()]}));
        }
        Ok(())
    });
}
