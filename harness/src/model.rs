//! Reference models written from the documented definitions.
use elinor::Metric;
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Kind {
    Hits,
    Success,
    Precision,
    Recall,
    F1,
    RPrec,
    Ap,
    Rr,
    Bpref,
    Dcg,
    Ndcg,
    DcgB,
    NdcgB,
}
pub const ALL: [Kind; 13] = [
    Kind::Hits, Kind::Success, Kind::Precision, Kind::Recall, Kind::F1, Kind::RPrec, Kind::Ap, Kind::Rr,
    Kind::Bpref, Kind::Dcg, Kind::Ndcg, Kind::DcgB, Kind::NdcgB,
];
impl Kind {
    pub fn name(self) -> &'static str {
        match self {
            Kind::Hits => "hits",
            Kind::Success => "success",
            Kind::Precision => "precision",
            Kind::Recall => "recall",
            Kind::F1 => "f1",
            Kind::RPrec => "r_precision",
            Kind::Ap => "ap",
            Kind::Rr => "rr",
            Kind::Bpref => "bpref",
            Kind::Dcg => "dcg",
            Kind::Ndcg => "ndcg",
            Kind::DcgB => "dcg_burges",
            Kind::NdcgB => "ndcg_burges",
        }
    }
    pub fn has_k(self) -> bool {
        !matches!(self, Kind::RPrec | Kind::Bpref)
    }
    pub fn graded(self) -> bool {
        matches!(self, Kind::Dcg | Kind::Ndcg | Kind::DcgB | Kind::NdcgB)
    }
    pub fn burges(self) -> bool {
        matches!(self, Kind::DcgB | Kind::NdcgB)
    }
    pub fn at(self, k: usize) -> Metric {
        match self {
            Kind::Hits => Metric::Hits { k },
            Kind::Success => Metric::Success { k },
            Kind::Precision => Metric::Precision { k },
            Kind::Recall => Metric::Recall { k },
            Kind::F1 => Metric::F1 { k },
            Kind::RPrec => Metric::RPrecision,
            Kind::Ap => Metric::AP { k },
            Kind::Rr => Metric::RR { k },
            Kind::Bpref => Metric::Bpref,
            Kind::Dcg => Metric::DCG { k },
            Kind::Ndcg => Metric::NDCG { k },
            Kind::DcgB => Metric::DCGBurges { k },
            Kind::NdcgB => Metric::NDCGBurges { k },
        }
    }
    /// Printed name according to the documentation.
    pub fn label(self, k: usize) -> String {
        if k == 0 || !self.has_k() {
            self.name().to_string()
        } else {
            format!("{}@{k}", self.name())
        }
    }
}

/// Order of predicted scores: numeric, NaN above everything (OrderedFloat's documented order).
pub fn cmp_score(a: f64, b: f64) -> Ordering {
    match (a.is_nan(), b.is_nan()) {
        (true, true) => Ordering::Equal,
        (true, false) => Ordering::Greater,
        (false, true) => Ordering::Less,
        _ => a.partial_cmp(&b).unwrap(),
    }
}

/// One query as the metrics see it: the judged grade (if any) of each ranked document, and all judged grades.
#[derive(Clone, Debug, PartialEq)]
pub struct QView {
    pub ranked: Vec<Option<u32>>,
    pub judged: Vec<u32>,
}
impl QView {
    pub fn n_rel(&self) -> usize {
        self.judged.iter().filter(|&&g| g >= 1).count()
    }
}

/// Ranks the predictions of one query and attaches the judgments.
pub fn view<K: Ord + Clone>(trues: &[(K, u32)], preds: &[(K, f64)]) -> QView {
    let map: BTreeMap<&K, u32> = trues.iter().map(|(d, g)| (d, *g)).collect();
    let mut order: Vec<&(K, f64)> = preds.iter().collect();
    order.sort_by(|a, b| cmp_score(b.1, a.1).then_with(|| a.0.cmp(&b.0)));
    QView {
        ranked: order.iter().map(|(d, _)| map.get(d).copied()).collect(),
        judged: trues.iter().map(|x| x.1).collect(),
    }
}

fn gain(g: u32, burges: bool) -> f64 {
    if burges {
        if g < 64 {
            ((1u128 << g) - 1) as f64
        } else {
            // 2^g - 1 rounds to 2^g
            let mut x = 1.0f64;
            for _ in 0..g.min(2000) {
                x *= 2.0;
            }
            x
        }
    } else {
        g as f64
    }
}
fn dcg_of<I: Iterator<Item = u32>>(grades: I, burges: bool) -> f64 {
    let mut s = 0.0;
    for (i, g) in grades.enumerate() {
        if g > 0 {
            s += gain(g, burges) * std::f64::consts::LN_2 / ((i + 2) as f64).ln();
        }
    }
    s
}
pub fn idcg(v: &QView, k: usize, burges: bool) -> f64 {
    let mut ideal = v.judged.clone();
    ideal.sort_unstable_by(|a, b| b.cmp(a));
    let m = if k == 0 { ideal.len() } else { ideal.len().min(k) };
    dcg_of(ideal[..m].iter().copied(), burges)
}

/// The documented value of a metric at cutoff k.
pub fn metric(kind: Kind, k: usize, v: &QView) -> f64 {
    let len = v.ranked.len();
    let depth = if k == 0 { len } else { k.min(len) };
    let div = if k == 0 { len } else { k };
    let rel: Vec<bool> = v.ranked.iter().map(|g| matches!(g, Some(x) if *x >= 1)).collect();
    let r = v.n_rel();
    let hits = |d: usize| rel[..d.min(len)].iter().filter(|&&x| x).count();
    match kind {
        Kind::Hits => hits(depth) as f64,
        Kind::Success => (hits(depth) > 0) as u8 as f64,
        Kind::Precision => {
            if div == 0 {
                0.0
            } else {
                hits(depth) as f64 / div as f64
            }
        }
        Kind::Recall => {
            if r == 0 {
                0.0
            } else {
                hits(depth) as f64 / r as f64
            }
        }
        Kind::F1 => {
            // 2PR/(P+R) with P = h/k, R = h/r simplifies to 2h/(k + r)
            let h = hits(depth) as f64;
            if r == 0 || h == 0.0 {
                0.0
            } else {
                2.0 * h / (div as f64 + r as f64)
            }
        }
        Kind::RPrec => {
            if r == 0 {
                0.0
            } else {
                hits(r) as f64 / r as f64
            }
        }
        Kind::Ap => {
            if r == 0 {
                return 0.0;
            }
            let (mut seen, mut s) = (0usize, 0.0);
            for (i, &x) in rel[..depth].iter().enumerate() {
                if x {
                    seen += 1;
                    s += seen as f64 / (i + 1) as f64;
                }
            }
            s / r as f64
        }
        Kind::Rr => rel[..depth].iter().position(|&x| x).map_or(0.0, |i| 1.0 / (i + 1) as f64),
        Kind::Bpref => {
            let n = v.judged.len() - r;
            if r == 0 {
                return 0.0;
            }
            let (mut above, mut s) = (0usize, 0.0);
            for g in &v.ranked {
                match g {
                    Some(0) => above += 1,
                    Some(_) => {
                        s += if above == 0 { 1.0 } else { 1.0 - above.min(r) as f64 / n.min(r) as f64 };
                    }
                    None => {}
                }
            }
            s / r as f64
        }
        Kind::Dcg | Kind::DcgB => dcg_of(v.ranked[..depth].iter().map(|g| g.unwrap_or(0)), kind.burges()),
        Kind::Ndcg | Kind::NdcgB => {
            let d = dcg_of(v.ranked[..depth].iter().map(|g| g.unwrap_or(0)), kind.burges());
            let i = idcg(v, k, kind.burges());
            if i == 0.0 {
                1.0
            } else {
                d / i
            }
        }
    }
}

pub type Rec<K, T> = (K, K, T);

/// A whole data set, records in insertion order.
#[derive(Clone, Debug)]
pub struct Data<K> {
    pub trues: Vec<Rec<K, u32>>,
    pub preds: Vec<Rec<K, f64>>,
}
impl<K: Ord + Clone> Data<K> {
    pub fn true_queries(&self) -> BTreeSet<K> {
        self.trues.iter().map(|r| r.0.clone()).collect()
    }
    pub fn views(&self) -> BTreeMap<K, QView> {
        let mut t: BTreeMap<&K, Vec<(K, u32)>> = BTreeMap::new();
        for (q, d, g) in &self.trues {
            t.entry(q).or_default().push((d.clone(), *g));
        }
        let mut p: BTreeMap<&K, Vec<(K, f64)>> = BTreeMap::new();
        for (q, d, s) in &self.preds {
            p.entry(q).or_default().push((d.clone(), *s));
        }
        p.into_iter()
            .map(|(q, ps)| (q.clone(), view(t.get(q).map_or(&[][..], |x| x.as_slice()), &ps)))
            .collect()
    }
}
