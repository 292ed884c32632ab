//! Workload generators.
use crate::model::Data;
use crate::rng::Rng;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Scores {
    Distinct,
    FewLevels,
    AllTied,
    Integers,
    Decimals,
    Ulps,
    Extreme,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Grades {
    Binary,
    Small,
    NoneRelevant,
    AllRelevant,
    Wide,
    Huge,
}
pub const SCORES: [Scores; 7] =
    [Scores::Distinct, Scores::FewLevels, Scores::AllTied, Scores::Integers, Scores::Decimals, Scores::Ulps, Scores::Extreme];
pub const GRADES: [Grades; 6] =
    [Grades::Binary, Grades::Small, Grades::NoneRelevant, Grades::AllRelevant, Grades::Wide, Grades::Huge];

pub fn score(rng: &mut Rng, st: Scores) -> f64 {
    match st {
        Scores::Distinct => rng.normal() * 10.0,
        Scores::FewLevels => [0.0, 0.25, 0.5, 0.75, 1.0][rng.below(5)],
        Scores::AllTied => 0.5,
        Scores::Integers => rng.range(0, 20) as f64 - 10.0,
        Scores::Decimals => (rng.range(0, 2000) as f64 - 500.0) / 1000.0,
        Scores::Ulps => {
            let base = [1.0f64, 0.3, -7.25, 1e-300, 123456.789, 16777216.0, 0.1][rng.below(7)];
            let d = rng.range(0, 6) as i64 - 3;
            f64::from_bits((base.to_bits() as i64 + d) as u64)
        }
        Scores::Extreme => *rng.pick(&[
            0.0, -0.0, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, -5e-324, 1e-310, f64::INFINITY, f64::NEG_INFINITY,
            1.0, -1.0, 1e300, 9007199254740992.0, 9007199254740993.0, 9007199254740994.0, 3.4028235e38, 3.5e38, 1e-46, 2e-46,
        ]),
    }
}
pub fn grade(rng: &mut Rng, g: Grades, p_rel: f64, max_wide: u32) -> u32 {
    match g {
        Grades::NoneRelevant => 0,
        Grades::AllRelevant => rng.range(1, 4) as u32,
        Grades::Binary => rng.chance(p_rel) as u32,
        Grades::Small => {
            if rng.chance(p_rel) {
                rng.range(1, 4) as u32
            } else {
                0
            }
        }
        Grades::Wide => {
            if rng.chance(p_rel) {
                *rng.pick(&[1, 2, 3, 7, 8, 9, 15, 31, 32, 52, 53, 54, 63, 64, 65, 100, 127, 128, 255, 256, 500, 999, 1000].map(|x: u32| x.min(max_wide)))
            } else {
                0
            }
        }
        Grades::Huge => {
            if rng.chance(p_rel) {
                *rng.pick(&[1u32, 65535, 65536, 1 << 24, (1 << 24) + 1, i32::MAX as u32, 1 << 31, (1 << 31) + 1, u32::MAX - 1, u32::MAX])
            } else {
                0
            }
        }
    }
}
/// Sizes: mostly small, sometimes around powers of two and powers of ten.
pub fn size(rng: &mut Rng, max: usize) -> usize {
    if max > 1100 && rng.chance(0.4) {
        // log-uniform up to the maximum, plus the neighbourhoods of powers of two and ten
        let hi = (max as f64).ln();
        let x = (5.0 + (hi - 5.0) * rng.f64()).exp() as usize;
        let n = match rng.below(4) {
            0 => x.next_power_of_two() + rng.below(5) - 2,
            1 => 10usize.pow((x as f64).log10().round() as u32) + rng.below(5) - 2,
            _ => x,
        };
        return n.clamp(1, max);
    }
    let n = match rng.below(20) {
        0..=7 => rng.range(1, 6),
        8..=13 => rng.range(2, 16),
        14..=16 => rng.range(10, 60),
        17..=18 => {
            let p = 1usize << rng.range(4, 8);
            p + rng.below(3) - 1
        }
        _ => {
            if rng.chance(0.5) {
                let p = 1usize << rng.range(8, 10);
                p + rng.below(3) - 1
            } else {
                *rng.pick(&[99, 100, 101, 999, 1000, 1001, 333, 777])
            }
        }
    };
    n.clamp(1, max)
}
/// Log-uniform between 1500 and `max`, half of the time next to a power of two.
pub fn huge(rng: &mut Rng, max: usize) -> usize {
    let x = (1500f64.ln() + ((max as f64).ln() - 1500f64.ln()) * rng.f64()).exp() as usize;
    if rng.chance(0.5) {
        return x;
    }
    (x.next_power_of_two() + rng.below(5) - 2).min(max)
}
#[derive(Clone, Copy, Debug)]
pub enum Ids {
    Plain,
    Padded,
    Unicode,
    Prefix,
    Mixed,
    Overlap,
    /// All strings over a letter and a separator: joined ids are ambiguous.
    Separators,
    /// Long ids that differ only at one end or in the middle.
    Long,
}
pub const IDS: [Ids; 8] = [Ids::Long, Ids::Plain, Ids::Padded, Ids::Unicode, Ids::Prefix, Ids::Mixed, Ids::Overlap, Ids::Separators];
/// n distinct id strings.
pub fn ids(rng: &mut Rng, n: usize, st: Ids, tag: &str) -> Vec<String> {
    let off = rng.below(1000);
    let sep = *rng.pick(&[' ', ':', '-', '_', '/', ',', '|', '\t', '@', '.', '\0', '#']);
    let (pre, suf) = match (rng.below(3), if n > 5000 { 40 } else { rng.range(10, 300) }) {
        (0, l) => ("x".repeat(l), String::new()),
        (1, l) => (String::new(), "y".repeat(l)),
        (_, l) => ("é".repeat(l / 2), "z".repeat(l / 2)),
    };
    let mut v: Vec<String> = (0..n)
        .map(|i| match st {
            Ids::Long => format!("{pre}{i}{suf}"),
            Ids::Plain => format!("{tag}_{i}"),
            Ids::Padded => format!("{tag}{:06}", i + off),
            Ids::Unicode => {
                let c = ['é', 'ß', '日', '本', 'Ω', '😀', 'a', 'Z', 'ж', '\u{301}'][i % 10];
                format!("{c}{tag}{}", i)
            }
            Ids::Prefix => {
                // strings that are prefixes of one another (up to length 48), then numbered
                let reps = i % 48;
                format!("{}{}", "x".repeat(reps), if i < 48 { String::new() } else { format!("y{i}") })
            }
            Ids::Mixed => match i % 4 {
                0 => format!("{i}"),
                1 => format!("0{}", i - 1),
                2 => format!("{}.0", i - 2),
                _ => format!("-{i}"),
            },
            Ids::Overlap => format!("{i}"),
            Ids::Separators => {
                let x = i + 2;
                let len = usize::BITS - 1 - x.leading_zeros();
                (0..len).rev().map(|b| if x >> b & 1 == 0 { 'a' } else { sep }).collect()
            }
        })
        .collect();
    if n > 1 && rng.chance(0.3) {
        // arbitrary order
        rng.shuffle(&mut v);
    }
    v
}

#[derive(Clone, Debug)]
pub struct Opts {
    pub max_docs: usize,
    pub max_queries: usize,
    pub scores: Option<Scores>,
    pub grades: Option<Grades>,
    /// Largest grade of the Wide style.
    pub max_wide: u32,
    /// Every predicted query judged and vice versa.
    pub same_queries: bool,
    /// Share of relevant documents among the judged ones.
    pub p_rel: Option<f64>,
    /// Share of retrieved documents.
    pub p_ret: Option<f64>,
    /// Number of queries.
    pub queries: Option<usize>,
    /// Number of documents considered per query.
    pub docs: Option<usize>,
}
impl Default for Opts {
    fn default() -> Self {
        Self { max_docs: 1100, max_queries: 40, scores: None, grades: None, max_wide: 1000, same_queries: true, p_rel: None, p_ret: None, queries: None, docs: None }
    }
}
type Rows<T> = Vec<(usize, usize, T)>;
/// A ranking in blocks of unjudged, non-relevant, equally graded and arbitrarily judged documents; some judged documents
/// are not retrieved.
fn blocks(rng: &mut Rng, q: usize, n: usize, st: Scores, gr: Grades, o: &Opts) -> (Rows<u32>, Rows<f64>) {
    let mut docs: Vec<usize> = (0..n).collect();
    if rng.chance(0.6) {
        rng.shuffle(&mut docs);
    }
    let ret = if rng.chance(0.5) { n } else { rng.range(1, n) };
    let mut s: Vec<f64> = (0..ret).map(|_| score(rng, st)).collect();
    s.sort_by(|a, b| b.total_cmp(a));
    let p: Rows<f64> = docs.iter().zip(s).map(|(&d, s)| (q, d, s)).collect();
    let mut t = vec![];
    let (mut i, mut last) = (0, 9);
    let mut budget = o.p_rel.map_or(usize::MAX, |p| (2.0 * p * n as f64) as usize + 4);
    let max_len = 1 + (n as f64).powf(rng.f64()) as usize;
    while i < n {
        let kind = rng.below(4);
        if kind == last {
            continue;
        }
        last = kind;
        let len = rng.range(1, max_len).min(n - i);
        let g = grade(rng, gr, 1.0, o.max_wide);
        for &d in &docs[i..i + len] {
            let g = match kind {
                0 => continue,
                1 => 0,
                2 => g,
                _ => grade(rng, gr, 0.5, o.max_wide),
            };
            budget -= (g > 0 && budget > 0) as usize;
            t.push((q, d, if budget > 0 { g } else { 0 }));
        }
        i += len;
    }
    (t, p)
}
/// Index-based data set: queries and documents are numbers, mapped to ids by the caller.
pub fn data_idx(rng: &mut Rng, o: &Opts) -> Data<usize> {
    let nq = match rng.below(10) {
        0..=3 => 1,
        4..=7 => rng.range(2, 5),
        8 => rng.range(5, 20),
        _ => rng.range(1, o.max_queries.max(1)),
    }
    .min(o.max_queries);
    let nq = o.queries.unwrap_or(nq);
    let cap = (o.max_docs * 4 / nq).clamp(1, o.max_docs);
    let (mut trues, mut preds) = (vec![], vec![]);
    for q in 0..nq {
        let st = o.scores.unwrap_or_else(|| *rng.pick(&SCORES));
        let gr = o.grades.unwrap_or_else(|| *rng.pick(&GRADES));
        let p_rel = o.p_rel.unwrap_or_else(|| *rng.pick(&[0.002, 0.05, 0.2, 0.5, 0.8]));
        let n_univ = match o.docs {
            Some(n) => n,
            None => size(rng, cap),
        };
        let p_judged = *rng.pick(&[0.1, 0.4, 0.7, 1.0]);
        let p_ret = o.p_ret.unwrap_or_else(|| *rng.pick(&[0.2, 0.5, 0.9, 1.0]));
        let (mut t, mut p) = (vec![], vec![]);
        for d in 0..n_univ {
            if rng.chance(p_judged) {
                t.push((q, d, grade(rng, gr, p_rel, o.max_wide)));
            }
            if rng.chance(p_ret) {
                p.push((q, d, score(rng, st)));
            }
        }
        if n_univ > 3 && o.p_ret.is_none() && rng.chance(0.2) {
            (t, p) = blocks(rng, q, n_univ, st, gr, o);
        }
        if t.is_empty() {
            t.push((q, rng.below(n_univ), grade(rng, gr, p_rel, o.max_wide)));
        }
        if p.is_empty() {
            p.push((q, rng.below(n_univ), score(rng, st)));
        }
        trues.extend(t);
        preds.extend(p);
    }
    if !o.same_queries && rng.chance(0.5) {
        // drop some predicted queries (judged queries without predictions)
        let keep: Vec<bool> = (0..nq).map(|_| rng.chance(0.7)).collect();
        if keep.iter().any(|&x| x) {
            preds.retain(|r| keep[r.0]);
        }
    }
    match rng.below(4) {
        0 => {}
        1 => {
            trues.reverse();
            preds.reverse();
        }
        _ => {
            rng.shuffle(&mut trues);
            rng.shuffle(&mut preds);
        }
    }
    Data { trues, preds }
}
/// An id type whose printed form does not tell ids apart and whose order is not that of anything printed.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Vague(pub u32);
impl Ord for Vague {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        o.0.rotate_left(16).cmp(&self.0.rotate_left(16))
    }
}
impl PartialOrd for Vague {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl std::fmt::Display for Vague {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "id{}", self.0 % 3)
    }
}
pub fn vague(n: usize) -> Vec<Vague> {
    (0..n as u32).map(|i| Vague(i.wrapping_mul(40503))).collect()
}
/// Renames a data set.
pub fn rename<K: Clone>(d: &Data<usize>, q: &[K], docs: &[K]) -> Data<K> {
    Data {
        trues: d.trues.iter().map(|r| (q[r.0].clone(), docs[r.1].clone(), r.2)).collect(),
        preds: d.preds.iter().map(|r| (q[r.0].clone(), docs[r.1].clone(), r.2)).collect(),
    }
}
pub fn dims(d: &Data<usize>) -> (usize, usize) {
    let q = d.trues.iter().map(|r| r.0).chain(d.preds.iter().map(|r| r.0)).max().unwrap_or(0) + 1;
    let n = d.trues.iter().map(|r| r.1).chain(d.preds.iter().map(|r| r.1)).max().unwrap_or(0) + 1;
    (q, n)
}
#[allow(dead_code)]
pub fn data(rng: &mut Rng, o: &Opts) -> Data<String> {
    let d = data_idx(rng, o);
    let (q, n) = dims(&d);
    let (a, b) = (*rng.pick(&IDS), *rng.pick(&IDS));
    let qi = ids(rng, q, a, "q");
    let di = ids(rng, n, b, "d");
    rename(&d, &qi, &di)
}
/// Interesting cutoffs for one query of `len` predictions and `r` relevant documents.
pub fn cutoffs(rng: &mut Rng, len: usize, r: usize) -> Vec<usize> {
    let mut v = vec![0, 1, 2, 3, 5, 10, 20, len, len + 1, r, r + 1, 2 * len + 3, usize::MAX, usize::MAX - 1, 1 << 32, (1 << 32) + 1, rng.u64() as usize >> rng.below(56)];
    if len > 1 {
        v.push(len - 1);
        v.push(rng.range(1, len));
        v.push(len / 2);
    }
    if r > 1 {
        v.push(r - 1);
    }
    v.sort_unstable();
    v.dedup();
    v
}

/// An iterator with one of several honest size hints (an exact one, none at all, a lower bound of 0 or of a half).
pub struct Hinted<I> {
    it: I,
    kind: u8,
}
pub fn hinted<I: ExactSizeIterator>(rng: &mut Rng, it: I) -> Hinted<I> {
    Hinted { it, kind: rng.below(4) as u8 }
}
impl<I: ExactSizeIterator> Iterator for Hinted<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.it.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.it.len();
        match self.kind {
            0 => (n, Some(n)),
            1 => (0, None),
            2 => (0, Some(n.saturating_mul(2).saturating_add(1))),
            _ => (n / 2, None),
        }
    }
}
