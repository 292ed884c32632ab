//! C25-C29: the command-line tools, run as real processes on files in a scratch directory.
use crate::dist;
use crate::ensure;
use crate::gen;
use crate::model::{self, Data};
use crate::p_metrics::{in_domain, stores};
use crate::p_parse::{long, number, token};
use crate::p_stats::{own_bootstrap, own_tukey};
use crate::report::{close, CaseResult, Ctx, Obs};
use crate::rng::{hash_str, mix, Rng};
use elinor::statistical_tests::{StudentTTest, TukeyHsdTest, TwoWayAnovaWithoutReplication as Anova};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

extern "C" {
    fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
    fn signal(sig: i32, handler: usize) -> usize;
    fn fcntl(fd: i32, cmd: i32, ...) -> i32;
}
const F_SETPIPE_SZ: i32 = 1031;
const RLIMIT_FSIZE: i32 = 1;
const SIGXFSZ: i32 = 25;
const SIG_IGN: usize = 1;

/// Scratch directory removed on drop.
struct Scratch(PathBuf);
static NEXT: AtomicU64 = AtomicU64::new(0);
impl Scratch {
    fn new() -> Self {
        let p = std::env::temp_dir().join(format!("elinor-cli-{}-{}", std::process::id(), NEXT.fetch_add(1, Ordering::SeqCst)));
        fs::create_dir_all(&p).unwrap_or_else(|e| panic!("HARNESS: scratch directory: {e}"));
        Scratch(p)
    }
    fn path(&self, f: impl AsRef<Path>) -> PathBuf {
        self.0.join(f)
    }
    fn write(&self, f: impl AsRef<Path>, c: impl AsRef<[u8]>) -> PathBuf {
        let p = self.path(f);
        fs::write(&p, c).unwrap_or_else(|e| panic!("HARNESS: write {p:?}: {e}"));
        p
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}
#[derive(Debug)]
pub struct Ran {
    code: Option<i32>,
    out: String,
    err: String,
}
impl Ran {
    fn ok(&self) -> bool {
        self.code == Some(0)
    }
}
#[derive(Clone, Default)]
struct How {
    /// file size limit
    fsize: Option<u64>,
    /// standard output goes to this file
    stdout: Option<PathBuf>,
    /// standard output is a small pipe whose reader goes away after so many bytes
    pipe: Option<usize>,
    /// content of standard input (a pipe)
    stdin: Option<Vec<u8>>,
}
/// A file name of a kind that is legal but easily mishandled. The extension says nothing about the content.
fn odd_name(rng: &mut Rng, stem: &str) -> std::ffi::OsString {
    use std::os::unix::ffi::OsStringExt;
    match rng.below(12) {
        0 => format!("{stem}.tsv").into(),
        1 => format!("{stem}.csv").into(),
        2 => format!("{stem}.gz").into(),
        3 => format!("{stem}.jsonl").into(),
        4 => format!("{stem}.json").into(),
        5 => stem.into(),
        6 => format!("{stem}[1].csv").into(),
        7 => format!("{stem}*.txt").into(),
        8 => format!("~{stem}?.CSV").into(),
        9 => format!(".{stem}").into(),
        10 => format!("-{stem} %20,é;$HOME").into(),
        _ => std::ffi::OsString::from_vec([stem.as_bytes(), b"\xff\xe9.csv"].concat()),
    }
}
fn tool(name: &str, args: &[&std::ffi::OsStr], how: &How) -> Ran {
    let repo = std::env::var("VERIF_REPO").unwrap_or_else(|_| "/repo".into());
    let exe = format!("{repo}/target/debug/elinor-{name}");
    let mut c = Command::new(&exe);
    c.args(args).stdin(Stdio::null()).stderr(Stdio::piped());
    c.env_remove("RUST_BACKTRACE").env_remove("RUST_LIB_BACKTRACE").env("POLARS_MAX_THREADS", "1");
    if how.stdin.is_some() {
        c.stdin(Stdio::piped());
    }
    let mut reader = None;
    match &how.stdout {
        _ if how.pipe.is_some() => {
            let (r, w) = std::io::pipe().unwrap_or_else(|e| panic!("HARNESS: pipe: {e}"));
            use std::os::fd::AsRawFd;
            let size = unsafe { fcntl(w.as_raw_fd(), F_SETPIPE_SZ, 4096) };
            assert!(size == 4096, "HARNESS: pipe size {size}");
            c.stdout(w);
            reader = Some(r);
        }
        Some(p) => {
            let f = fs::OpenOptions::new().write(true).create(true).truncate(true).open(p).unwrap_or_else(|e| panic!("HARNESS: stdout file: {e}"));
            c.stdout(f);
        }
        None => {
            c.stdout(Stdio::piped());
        }
    }
    if let Some(n) = how.fsize {
        unsafe {
            c.pre_exec(move || {
                signal(SIGXFSZ, SIG_IGN);
                let r = [n, n];
                if setrlimit(RLIMIT_FSIZE, &r) != 0 {
                    return Err(std::io::Error::last_os_error());
                }
                Ok(())
            });
        }
    }
    if how.pipe == Some(0) {
        reader = None;
    }
    let mut child = c.spawn().unwrap_or_else(|e| panic!("HARNESS: {exe}: {e}"));
    // the writing end is only open in the child from here on
    c.stdout(Stdio::null());
    if let (Some(b), Some(mut w)) = (how.stdin.clone(), child.stdin.take()) {
        std::thread::spawn(move || {
            use std::io::Write;
            let _ = w.write_all(&b);
        });
    }
    if let Some(mut r) = reader {
        use std::io::Read;
        let mut buf = vec![0; how.pipe.unwrap()];
        let mut got = 0;
        while got < buf.len() {
            match r.read(&mut buf[got..]) {
                Ok(n) if n > 0 => got += n,
                _ => break,
            }
        }
    }
    // drain the pipes in threads, with a deadline
    let (so, se) = (child.stdout.take(), child.stderr.take());
    let rd = |s: Option<Box<dyn std::io::Read + Send>>| {
        std::thread::spawn(move || {
            let mut v = vec![];
            if let Some(mut s) = s {
                let _ = s.read_to_end(&mut v);
            }
            String::from_utf8_lossy(&v).into_owned()
        })
    };
    let o = rd(so.map(|s| Box::new(s) as _));
    let e = rd(se.map(|s| Box::new(s) as _));
    let t0 = Instant::now();
    let st = loop {
        match child.try_wait() {
            Ok(Some(s)) => break s,
            Ok(None) if t0.elapsed() > Duration::from_secs(120) => {
                let _ = child.kill();
                let _ = child.wait();
                panic!("elinor-{name} {args:?} did not exit within 120 s");
            }
            Ok(None) => std::thread::sleep(Duration::from_micros(if t0.elapsed() < Duration::from_millis(20) { 500 } else { 3000 })),
            Err(e) => panic!("HARNESS: wait: {e}"),
        }
    };
    let code = st.code().or(st.signal().map(|s| 128 + s));
    Ran { code, out: o.join().unwrap(), err: e.join().unwrap().chars().take(600).collect() }
}
macro_rules! run {
    ($name:expr, $how:expr; $($a:expr),* $(,)?) => {{
        let args: Vec<std::ffi::OsString> = vec![$(std::ffi::OsString::from($a)),*];
        let refs: Vec<&std::ffi::OsStr> = args.iter().map(|a| a.as_os_str()).collect();
        tool($name, &refs, $how)
    }};
}
fn run_v(name: &str, args: &[std::ffi::OsString], how: &How) -> Ran {
    let refs: Vec<&std::ffi::OsStr> = args.iter().map(|a| a.as_os_str()).collect();
    tool(name, &refs, how)
}

// ------------------------------------------------------------------ TREC files
#[derive(Clone)]
struct Trec {
    lines: Vec<String>,
    recs: Vec<(String, String, f64)>,
}
impl Trec {
    fn text(&self, rng: &mut Rng) -> String {
        let nl = if rng.chance(0.2) { "\r\n" } else { "\n" };
        let mut s = self.lines.join(nl);
        if !self.lines.is_empty() && rng.chance(0.8) {
            s.push_str(nl);
        }
        s
    }
    fn hash(&self) -> u64 {
        self.lines.iter().fold(3, |h, l| mix(h ^ hash_str(l)))
    }
}
fn trec(rng: &mut Rng, max: usize, qrels: bool, finite_spelling: bool) -> Trec {
    let n = if max > 100_000 { gen::huge(rng, max) } else { gen::size(rng, max).max(1) };
    let nq = match rng.below(4) {
        0 => 1,
        1 => rng.range(1, n.min(20)),
        _ => rng.range(1, n),
    };
    let hostile = rng.chance(0.5);
    let names: Vec<String> = (0..nq.min(1000)).map(|i| if hostile && rng.chance(0.5) { token(rng) } else { format!("q{i}") }).collect();
    let mut seen = BTreeSet::new();
    let (mut lines, mut recs) = (vec![], vec![]);
    for i in 0..n {
        let q = rng.below(nq);
        let q = names.get(q).cloned().unwrap_or_else(|| format!("q{q}"));
        let d = if hostile && rng.chance(0.002) { long(rng) } else if hostile && rng.chance(0.6) { token(rng) } else { format!("doc{:03}", rng.below(5 * n)) };
        if !seen.insert((q.clone(), d.clone())) {
            continue;
        }
        let ws = |rng: &mut Rng| if hostile { *rng.pick(&[" ", "\t", "  ", " \t", "\u{3000}"]) } else { " " };
        let (a, b, c) = (ws(rng), ws(rng), ws(rng));
        if qrels {
            let s = match rng.below(6) {
                0 => -(rng.range(1, 5) as i32),
                1 => *rng.pick(&[i32::MAX, i32::MIN, 1000]),
                _ => rng.below(4) as i32,
            };
            lines.push(format!("{q}{a}0{b}{d}{c}{s}"));
            recs.push((q, d, s.max(0) as f64));
        } else {
            let (v, sp) = if finite_spelling && rng.chance(0.5) {
                number(rng)
            } else {
                let v = (rng.below(200001) as f64 - 100000.0) / 1000.0;
                (v, format!("{v}"))
            };
            lines.push(format!("{q}{a}Q0{b}{d}{c}{i}{a}{sp}{b}tag{}", if rng.chance(0.1) { " extra" } else { "" }));
            recs.push((q, d, v));
        }
    }
    Trec { lines, recs }
}
fn jsonl_records(path: &Path) -> Result<Vec<(String, String, serde_json::Number)>, String> {
    let b = fs::read(path).map_err(|e| format!("no readable output file: {e}"))?;
    let s = String::from_utf8(b).map_err(|_| "output is not UTF-8".to_string())?;
    ensure!(s.is_empty() || s.ends_with('\n'), "output does not end with a newline");
    s.split_terminator('\n')
        .map(|l| {
            let v: Value = serde_json::from_str(l).map_err(|e| format!("output line {l:?}: {e}"))?;
            let o = v.as_object().ok_or_else(|| format!("output line {l:?} is not an object"))?;
            ensure!(o.len() == 3, "output line {l:?} has {} fields", o.len());
            match (&v["query_id"], &v["doc_id"], &v["score"]) {
                (Value::String(q), Value::String(d), Value::Number(n)) => Ok((q.clone(), d.clone(), n.clone())),
                _ => Err(format!("output line {l:?}")),
            }
        })
        .collect()
}
fn check_converted(out: &Path, t: &Trec, qrels: bool) -> CaseResult {
    let mut got = jsonl_records(out)?;
    ensure!(got.len() == t.recs.len(), "{} output lines for {} input records", got.len(), t.recs.len());
    got.sort_by(|a, b| (&a.0, &a.1).cmp(&(&b.0, &b.1)));
    let mut want = t.recs.clone();
    want.sort_by(|a, b| (&a.0, &a.1).cmp(&(&b.0, &b.1)));
    for (g, w) in got.iter().zip(&want) {
        ensure!(g.0 == w.0 && g.1 == w.1, "output holds ({:?}, {:?}), input ({:?}, {:?})", g.0, g.1, w.0, w.1);
        let x = g.2.as_f64().unwrap_or(f64::NAN);
        ensure!(x == w.2 && (!qrels || g.2.is_u64()), "score of ({:?}, {:?}) is {} instead of {:?}", g.0, g.1, g.2, w.2);
    }
    Ok(())
}
fn c25_case(rng: &mut Rng, obs: &mut Obs, max: usize) -> CaseResult {
    let sc = Scratch::new();
    let qrels = rng.chance(0.5);
    let t = trec(rng, max, qrels, true);
    let ty = if qrels { "true" } else { "pred" };
    let text = t.text(rng);
    let i = sc.write(if rng.chance(0.5) { "in.trec".into() } else { odd_name(rng, "in") }, &text);
    let name = if rng.chance(0.5) { "out.jsonl".into() } else { odd_name(rng, "out") };
    let o = if rng.chance(0.5) { sc.write(name, "stale content\n".repeat(rng.range(1, 400))) } else { sc.path(name) };
    obs.sig(t.hash());
    obs.sample(|| json!({"type": ty, "records": t.recs.len(), "first": t.lines[0]}));
    let h = How::default();
    let r = if rng.chance(0.5) { run!("convert", &h; "-i", &i, "-o", &o, "-r", ty) } else { run!("convert", &h; "--rel-type", ty, "--input-trec", &i, "--output-jsonl", &o) };
    ensure!(r.ok(), "valid {ty} file rejected ({r:?}): {:?}", t.lines.iter().take(30).collect::<Vec<_>>());
    check_converted(&o, &t, qrels).map_err(|e| format!("{e} (type {ty}): {:?}", t.lines.iter().take(30).collect::<Vec<_>>()))?;
    obs.count("records converted", t.recs.len() as u64);
    let bytes = fs::read(&o).unwrap();
    let r = run!("convert", &h; "-i", &i, "-o", &o, "-r", ty);
    ensure!(r.ok() && fs::read(&o).unwrap() == bytes, "second conversion differs ({r:?})");
    if rng.chance(0.2) {
        let r = run!("convert", &How { stdin: Some(text.clone().into_bytes()), ..h.clone() }; "-i", "/dev/stdin", "-o", &o, "-r", ty);
        ensure!(r.ok() && fs::read(&o).unwrap() == bytes, "conversion of the same text read from a pipe differs ({r:?})");
        obs.count("conversions from a pipe", 1);
    }
    if rng.chance(0.2) {
        let r = run!("convert", &h; "-i", &i, "-o", &i, "-r", ty);
        ensure!(r.ok() && fs::read(&i).unwrap() == bytes, "conversion into the input file itself differs ({r:?}): {:?}", fs::read_to_string(&i).map(|s| s.chars().take(300).collect::<String>()));
        obs.count("conversions in place", 1);
    }
    // defects
    let mut l = t.lines.clone();
    let mid = rng.below(l.len() + 1);
    let at = *rng.pick(&[0, l.len(), mid]);
    let kind = rng.below(4);
    match kind {
        0 => l.insert(at, "qx 0 dx".into()),
        1 => l.insert(at, if qrels { "qx 0 dx 1.5" } else { "qx Q0 dx 1 abc tag" }.into()),
        2 => {
            let j = rng.below(l.len());
            let x = l[j].clone();
            l.insert(at, x);
        }
        _ if !qrels => l.insert(at, format!("qx Q0 dx 1 {} tag", rng.pick(&["nan", "inf", "-inf", "NaN", "1e999", "-1e400", "infinity"]))),
        _ => l.insert(at, "".into()),
    }
    let i = sc.write("bad.trec", l.join("\n") + "\n");
    let r = run!("convert", &h; "-i", &i, "-o", &o, "-r", ty);
    ensure!(!r.ok(), "defective {ty} file (kind {kind}, line {at}) converted with exit status 0: {:?}", l.iter().take(30).collect::<Vec<_>>());
    obs.count("defective files rejected", 1);
    Ok(())
}
/// Both converted files are readable by elinor-evaluate.
fn c25_chain(rng: &mut Rng, obs: &mut Obs) -> CaseResult {
    let sc = Scratch::new();
    let d = cli_data(rng, false, 12);
    let (mut tl, mut pl) = (vec![], vec![]);
    for (q, k, g) in &d.trues {
        tl.push(format!("{q} 0 {k} {g}"));
    }
    for (q, k, s) in &d.preds {
        pl.push(format!("{q} Q0 {k} 1 {s:?} t"));
    }
    rng.shuffle(&mut tl);
    rng.shuffle(&mut pl);
    let (a, b) = (sc.write("t", tl.join("\n")), sc.write("p", pl.join("\n")));
    let (ao, bo) = (sc.path("t.jsonl"), sc.path("p.jsonl"));
    let h = How::default();
    let r = run!("convert", &h; "-i", &a, "-o", &ao, "-r", "true");
    ensure!(r.ok(), "{r:?}");
    let r = run!("convert", &h; "-i", &b, "-o", &bo, "-r", "pred");
    ensure!(r.ok(), "{r:?}");
    let r = run!("evaluate", &h; "-t", &ao, "-p", &bo, "-m", "ap", "ndcg@3");
    ensure!(r.ok(), "converted files are not readable by elinor-evaluate: {r:?}");
    check_stdout(&r.out, &d, &[(model::Kind::Ap, 0), (model::Kind::Ndcg, 3)])?;
    obs.count("conversion chains", 1);
    obs.sig(mix(d.preds.len() as u64) ^ rng.u64());
    Ok(())
}
pub fn c25(ctx: &mut Ctx) {
    ctx.rule = "elinor-convert run on random TREC files (hostile ids, white space, line endings, number spellings; stale or absent output); output read by an independent JSON reader and compared record by record; same file converted twice; every file also with one injected defect; converted pairs fed to elinor-evaluate. Distinct = input text.".into();
    ctx.require("records converted", 500);
    ctx.require("defective files rejected", 100);
    ctx.require("conversion chains", 5);
    ctx.require("conversions from a pipe", 20);
    ctx.require("conversions in place", 20);
    let n = ctx.n(500, 8000);
    ctx.run("files", n, |r, _, o| c25_case(r, o, 60));
    let n = ctx.n(20, 300);
    ctx.run("large", n, |r, _, o| c25_case(r, o, 5000));
    let n = ctx.n(12, 150);
    ctx.run("huge", n, |r, _, o| c25_case(r, o, 140_000));
    let n = ctx.n(30, 400);
    ctx.run("chain", n, |r, _, o| c25_chain(r, o));
}

// ------------------------------------------------------------------ evaluate
fn safe_score(rng: &mut Rng) -> f64 {
    match rng.below(3) {
        0 => rng.below(9) as f64 / 8.0,
        1 => (rng.below(2001) as f64 - 1000.0) / 1000.0,
        _ => (rng.below(1_000_000) as f64) / 1e4,
    }
}
/// Data whose ranking does not depend on the last bits of decimal conversion (at most 9 digits).
fn cli_data(rng: &mut Rng, hostile: bool, max_q: usize) -> Data<String> {
    let (nq, nd) = (rng.range(1, max_q), rng.range(1, 30));
    sized_data(rng, hostile, nq, nd, None)
}
fn sized_data(rng: &mut Rng, hostile: bool, nq: usize, nd: usize, p_rel: Option<f64>) -> Data<String> {
    let ids = |rng: &mut Rng, tag: &str, n: usize| -> Vec<String> {
        let mut s = BTreeSet::new();
        while s.len() < n {
            s.insert(match rng.below(6) {
                0 if hostile => format!("{}{}", rng.pick(&[",", "\"", "a,b", "\"x\"", "é", "日本", "😀", "x;y", "'", "#", "\\", "tab\there", "new\nline", " lead", "trail ", "nul\0", "\u{1b}[0m", "\u{7f}", "cr\rx", "\u{2028}", "\u{feff}", "%41", "&amp;"]), rng.below(3 * n)),
                1 => format!("{}", rng.below(4 * n)),
                2 => format!("{:03}", rng.below(4 * n)),
                _ => format!("{tag}{}", rng.below(4 * n)),
            });
        }
        let mut v: Vec<String> = s.into_iter().collect();
        rng.shuffle(&mut v);
        v
    };
    let qs = ids(rng, "q", nq);
    let ds = ids(rng, "d", nd);
    let (mut t, mut p) = (vec![], vec![]);
    let range = *rng.pick(&[4u64, 4, 4, 4, 60, 1001, 1 << 31]);
    for q in &qs {
        let pr = *rng.pick(&[0.2, 0.6, 1.0]);
        let mut nt = 0;
        let mut np = 0;
        for d in &ds {
            if rng.chance(pr) {
                let g = if rng.chance(0.7) { rng.below(4) as u32 } else { (rng.u64() % range) as u32 };
                t.push((q.clone(), d.clone(), if p_rel.map_or(true, |p| rng.chance(p)) { g } else { 0 }));
                nt += 1;
            }
            if rng.chance(0.6) {
                p.push((q.clone(), d.clone(), safe_score(rng)));
                np += 1;
            }
        }
        if nt == 0 {
            t.push((q.clone(), ds[0].clone(), rng.below(2) as u32));
        }
        if np == 0 {
            p.push((q.clone(), ds[0].clone(), safe_score(rng)));
        }
    }
    rng.shuffle(&mut t);
    rng.shuffle(&mut p);
    Data { trues: t, preds: p }
}
fn jstr(s: &str) -> String {
    serde_json::to_string(s).unwrap()
}
fn jline(rng: &mut Rng, q: &str, d: &str, score: String) -> String {
    let mut f = vec![format!("\"query_id\":{}", jstr(q)), format!("\"doc_id\":{}", jstr(d)), format!("\"score\":{score}")];
    if rng.chance(0.3) {
        rng.shuffle(&mut f);
    }
    format!("{{{}}}", f.join(if rng.chance(0.5) { "," } else { ", " }))
}
fn jsonl(rng: &mut Rng, d: &Data<String>) -> (Vec<String>, Vec<String>) {
    let t = d.trues.iter().map(|r| jline(rng, &r.0, &r.1, r.2.to_string())).collect();
    let p = d
        .preds
        .iter()
        .map(|r| {
            let s = if r.2.fract() == 0.0 && rng.chance(0.3) { format!("{:.0}", r.2) } else { format!("{:?}", r.2) };
            jline(rng, &r.0, &r.1, s)
        })
        .collect();
    (t, p)
}
fn near4(printed: &str, want: f64) -> bool {
    // 4 decimals
    match (printed.split_once('.').map(|x| x.1.len()), printed.parse::<f64>()) {
        (Some(4), Ok(x)) => (x - want).abs() <= 0.5001e-4 + 1e-9 * want.abs(),
        _ => false,
    }
}
fn check_stdout(out: &str, d: &Data<String>, metrics: &[(model::Kind, usize)]) -> CaseResult {
    let lines: Vec<&str> = out.lines().collect();
    let views = d.views();
    let rel = d.trues.iter().filter(|r| r.2 > 0).count();
    let mut want = vec![
        format!("n_queries_in_true\t{}", d.true_queries().len()),
        format!("n_queries_in_pred\t{}", views.len()),
        format!("n_docs_in_true\t{}", d.trues.len()),
        format!("n_docs_in_pred\t{}", d.preds.len()),
        format!("n_relevant_docs\t{rel}"),
    ];
    ensure!(lines.len() == 5 + metrics.len(), "{} output lines, expected {}: {out}", lines.len(), 5 + metrics.len());
    for (l, w) in lines.iter().zip(want.drain(..)) {
        ensure!(*l == w, "prints {l:?}, expected {w:?}");
    }
    for (l, &(kind, k)) in lines[5..].iter().zip(metrics) {
        let mean = views.values().map(|v| model::metric(kind, k, v)).sum::<f64>() / views.len() as f64;
        let (name, val) = l.split_once('\t').unwrap_or((l, ""));
        ensure!(name == kind.label(k) && near4(val, mean), "prints {l:?}, expected {} {mean:.6}", kind.label(k));
    }
    Ok(())
}
/// RFC 4180 reader.
fn csv(text: &str, sep: char) -> Vec<Vec<String>> {
    let (mut rows, mut row, mut cell) = (vec![], vec![], String::new());
    let mut quoted = false;
    let mut it = text.chars().peekable();
    let mut any = false;
    while let Some(c) = it.next() {
        any = true;
        if quoted {
            if c == '"' {
                if it.peek() == Some(&'"') {
                    it.next();
                    cell.push('"');
                } else {
                    quoted = false;
                }
            } else {
                cell.push(c);
            }
        } else if c == '"' && cell.is_empty() {
            quoted = true;
        } else if c == sep {
            row.push(std::mem::take(&mut cell));
        } else if c == '\n' {
            row.push(std::mem::take(&mut cell));
            rows.push(std::mem::take(&mut row));
            any = false;
        } else {
            cell.push(c);
        }
    }
    if any {
        row.push(cell);
        rows.push(row);
    }
    rows
}
fn default_metrics() -> Vec<(model::Kind, usize)> {
    use model::Kind::*;
    let mut v = vec![];
    v.extend([1, 5, 10].map(|k| (Success, k)));
    v.extend([5, 10, 15, 20].map(|k| (Recall, k)));
    v.extend([5, 10, 15, 20].map(|k| (Precision, k)));
    v.extend([5, 10, 15, 20, 0].map(|k| (Ap, k)));
    v.push((Rr, 0));
    v.extend([5, 10, 15, 20].map(|k| (Ndcg, k)));
    v
}
fn c26_case(rng: &mut Rng, obs: &mut Obs, mut d: Data<String>) -> CaseResult {
    let sc = Scratch::new();
    // judged queries without predictions: counted, not scored (see the known finding of C10)
    let only_judged = if rng.chance(0.25) { rng.range(1, 4) } else { 0 };
    for i in 0..only_judged {
        let at = rng.below(d.trues.len() + 1);
        d.trues.insert(at, (format!("unasked{i}"), format!("d{i}"), rng.below(3) as u32));
    }
    let (tl, pl) = jsonl(rng, &d);
    let end = *rng.pick(&["", "\n", "\r\n"]);
    let names = if rng.chance(0.5) { ["t.jsonl".into(), "p.jsonl".into(), "scores.csv".into()] } else { ["t", "p", "scores"].map(|s| odd_name(rng, s)) };
    let (t, p) = (sc.write(&names[0], tl.join("\n") + end), sc.write(&names[1], pl.join("\n") + end));
    let mut metrics: Vec<(model::Kind, usize)> = vec![];
    let mut args: Vec<std::ffi::OsString> = vec!["-t".into(), t.into(), "-p".into(), p.clone().into()];
    if rng.chance(0.25) {
        metrics = default_metrics();
        obs.count("default metric lists", 1);
    } else {
        for _ in 0..rng.range(1, 9) {
            let kind = *rng.pick(&model::ALL);
            let k = if kind.has_k() { *rng.pick(&[0, 1, 2, 3, 5, 10, 100]) } else { 0 };
            if !in_domain(kind, &d) {
                continue;
            }
            if !metrics.contains(&(kind, k)) {
                metrics.push((kind, k));
            }
        }
        if metrics.is_empty() {
            metrics.push((model::Kind::Ap, 0));
        }
        let spell: Vec<String> = metrics.iter().map(|m| m.0.label(m.1)).collect();
        if rng.chance(0.3) {
            for s in &spell {
                args.push("-m".into());
                args.push(s.into());
            }
        } else {
            args.push("--metrics".into());
            args.extend(spell.iter().map(|s| s.into()));
        }
    }
    let with_csv = rng.chance(0.8);
    let tab = rng.chance(0.4);
    let o = sc.path(&names[2]);
    if with_csv {
        if rng.chance(0.3) {
            sc.write(&names[2], "old,content\n".repeat(5000));
        }
        args.push("-o".into());
        args.push(o.clone().into());
        if tab {
            args.push("--tab-separator".into());
        }
    }
    let r = run_v("evaluate", &args, &How::default());
    let show = || format!("true {tl:?} pred {pl:?}").chars().take(3000).collect::<String>();
    if only_judged > 0 && !r.ok() {
        obs.count("rejected for judged queries without predictions", 1);
        return Ok(());
    }
    obs.count("judged queries without predictions", only_judged as u64);
    ensure!(r.ok(), "valid input rejected ({r:?}): {args:?} {}", show());
    check_stdout(&r.out, &d, &metrics).map_err(|e| format!("{e}; {args:?} {}", show()))?;
    obs.count("printed scores", metrics.len() as u64);
    obs.sig(tl.iter().chain(&pl).fold(metrics.len() as u64, |h, l| mix(h ^ hash_str(l))));
    obs.sample(|| json!({"metrics": metrics.iter().map(|m| m.0.label(m.1)).collect::<Vec<_>>(), "queries": d.true_queries().len(), "csv": with_csv, "tab": tab}));
    if with_csv {
        let text = fs::read_to_string(&o).map_err(|e| format!("no CSV output: {e}"))?;
        let rows = csv(&text, if tab { '\t' } else { ',' });
        let views = d.views();
        ensure!(!rows.is_empty() && rows[0].len() == metrics.len() + 1, "CSV header {:?}", rows.first());
        for (h, m) in rows[0][1..].iter().zip(&metrics) {
            ensure!(*h == m.0.label(m.1), "CSV header {:?}, requested {:?}", rows[0], metrics.iter().map(|m| m.0.label(m.1)).collect::<Vec<_>>());
        }
        ensure!(rows.len() == views.len() + 1, "{} CSV rows for {} queries: {text}", rows.len() - 1, views.len());
        let (ts, ps) = stores(&d)?;
        let mut seen = BTreeSet::new();
        let lib: Vec<BTreeMap<String, f64>> = metrics.iter().map(|m| elinor::evaluate(&ts, &ps, m.0.at(m.1)).map(|e| e.scores().clone()).map_err(|e| e.to_string())).collect::<Result<_, _>>()?;
        for row in &rows[1..] {
            let v = views.get(&row[0]).ok_or_else(|| format!("CSV row for unknown query {:?}: {text}", row[0]))?;
            ensure!(seen.insert(&row[0]), "two CSV rows for query {:?}", row[0]);
            ensure!(row.len() == metrics.len() + 1, "CSV row {row:?}");
            for ((c, &(kind, k)), l) in row[1..].iter().zip(&metrics).zip(&lib) {
                let x: f64 = c.parse().map_err(|_| format!("CSV cell {c:?}"))?;
                let want = model::metric(kind, k, v);
                ensure!(close(x, l[&row[0]], 1e-14, 0.0), "CSV score {c} of {} for {:?}, library {:?}", kind.label(k), row[0], l[&row[0]]);
                ensure!(close(x, want, 1e-9, 1e-12), "CSV score {c} of {} for {:?}, by definition {want:?}", kind.label(k), row[0]);
                obs.count("CSV scores", 1);
            }
        }
        // other line order, same result
        let (mut tl2, mut pl2) = (tl.clone(), pl.clone());
        rng.shuffle(&mut tl2);
        rng.shuffle(&mut pl2);
        sc.write(&names[0], tl2.join("\n"));
        sc.write(&names[1], pl2.join("\n"));
        let r2 = run_v("evaluate", &args, &How::default());
        ensure!(r2.ok() && r2.out == r.out && fs::read_to_string(&o).ok().as_deref() == Some(&text), "other line order: {r2:?} instead of {r:?}; {}", show());
        obs.count("line orders compared", 1);
        if rng.chance(0.2) {
            let mut a = args.clone();
            a[3] = "/dev/stdin".into();
            let r2 = run_v("evaluate", &a, &How { stdin: Some((pl.join("\n") + end).into_bytes()), ..How::default() });
            ensure!(r2.ok() && r2.out == r.out && fs::read_to_string(&o).ok().as_deref() == Some(&text), "predictions read from a pipe: {r2:?} instead of {r:?}; {}", show());
            obs.count("predictions from a pipe", 1);
        }
        if rng.chance(0.2) {
            let a: Vec<std::ffi::OsString> = args.iter().map(|x| if *x == *o { p.clone().into() } else { x.clone() }).collect();
            let r2 = run_v("evaluate", &a, &How::default());
            ensure!(r2.ok() && r2.out == r.out && fs::read_to_string(&p).ok().as_deref() == Some(&text), "scores written over the predictions: {r2:?} instead of {r:?}; {}", show());
            obs.count("scores written over the predictions", 1);
        }
    }
    Ok(())
}
pub fn c26(ctx: &mut Ctx) {
    ctx.rule = "elinor-evaluate run on random JSONL pairs (hostile ids, field and line orders) with random or default metric lists, both separators; printed counts and means and every CSV cell compared with the library and with the independent definitions. Distinct = hash of inputs.".into();
    ctx.assumptions = vec!["predicted scores have at most 9 significant digits, so that decimal conversion cannot change the ranking".into()];
    ctx.require("CSV scores", 1000);
    ctx.require("printed scores", 300);
    ctx.require("default metric lists", 10);
    ctx.require("line orders compared", 50);
    ctx.require("predictions from a pipe", 10);
    ctx.require("scores written over the predictions", 10);
    let n = ctx.n(350, 6000);
    ctx.run("random", n, |r, _, o| {
        let d = cli_data(r, true, 12);
        c26_case(r, o, d)
    });
    let n = ctx.n(10, 100);
    ctx.run("many-queries", n, |r, _, o| {
        let d = cli_data(r, true, 400);
        c26_case(r, o, d)
    });
    // the tools are debug builds: few relevant documents, so that a quadratic average precision stays affordable
    let n = ctx.n(8, 100);
    ctx.run("deep", n, |r, _, o| {
        let (nq, nd) = (r.range(1, 2), gen::huge(r, 70_000));
        let d = sized_data(r, true, nq, nd, Some(0.0008));
        c26_case(r, o, d)
    });
    let n = ctx.n(6, 80);
    ctx.run("very-many-queries", n, |r, _, o| {
        let (nq, nd) = (gen::huge(r, 70_000), r.range(1, 2));
        let d = sized_data(r, true, nq, nd, None);
        c26_case(r, o, d)
    });
    ctx.run_t("known", 1, 1, |_, _, _| {
        // a relevant document scored one ulp above an irrelevant one with a smaller id
        let sc = Scratch::new();
        let (hi, lo) = KNOWN_C26;
        let t = sc.write("t", "{\"query_id\":\"q\",\"doc_id\":\"z\",\"score\":1}\n{\"query_id\":\"q\",\"doc_id\":\"a\",\"score\":0}\n");
        let p = sc.write("p", format!("{{\"query_id\":\"q\",\"doc_id\":\"z\",\"score\":{hi:?}}}\n{{\"query_id\":\"q\",\"doc_id\":\"a\",\"score\":{lo:?}}}\n"));
        let r = run!("evaluate", &How::default(); "-t", &t, "-p", &p, "-m", "rr");
        ensure!(r.ok(), "{r:?}");
        ensure!(hi > lo, "HARNESS: {hi} {lo}");
        ctx.known_finding("jsonl-score-last-bit", !r.out.contains("rr\t1.0000"), &format!("scores read from JSONL can be off by one unit in the last place (serde_json without float_roundtrip): {hi:?} does not rank above {lo:?}"))
    });
}
const KNOWN_C26: (f64, f64) = (0.11631553068788404, 0.11631553068788403);

// ------------------------------------------------------------------ compare
struct Table {
    header: Vec<String>,
    rows: Vec<Vec<String>>,
}
/// Title -> table, in order, of raw output.
fn raw_tables(out: &str) -> Vec<(String, Table)> {
    let mut v: Vec<(String, Table)> = vec![];
    for l in out.lines() {
        if l.starts_with("# ") || l.starts_with("## ") {
            v.push((l.to_string(), Table { header: vec![], rows: vec![] }));
        } else if !l.is_empty() {
            if let Some((_, t)) = v.last_mut() {
                let c: Vec<String> = l.split('\t').map(|s| s.to_string()).collect();
                if t.header.is_empty() {
                    t.header = c;
                } else {
                    t.rows.push(c);
                }
            }
        }
    }
    v
}
fn pretty_tables(out: &str) -> Vec<(String, Table)> {
    let mut v: Vec<(String, Table)> = vec![];
    for l in out.lines() {
        if l.starts_with("# ") || l.starts_with("## ") {
            v.push((l.to_string(), Table { header: vec![], rows: vec![] }));
        } else if l.starts_with('|') {
            if let Some((_, t)) = v.last_mut() {
                let c: Vec<String> = l.trim_matches('|').split('|').map(|s| s.trim().to_string()).collect();
                if t.header.is_empty() {
                    t.header = c;
                } else {
                    t.rows.push(c);
                }
            }
        }
    }
    v
}
/// From this number of topics on the randomised p-values are not judged.
const HUGE: usize = 60_000;
struct Csvs {
    /// metric -> topic -> score per system
    metrics: Vec<String>,
    topics: Vec<String>,
    /// scores[metric][topic][system]
    scores: Vec<Vec<Vec<f64>>>,
    header: String,
}
fn field(s: &str, sep: char) -> String {
    if s.is_empty() || s.contains(sep) || s.contains(['"', '\n', '\r']) {
        format!("\"{}\"", s.replace('"', "\"\""))
    } else {
        s.to_string()
    }
}
fn csvs(rng: &mut Rng, m: usize, nmax: usize) -> Csvs {
    let n = if nmax > HUGE { rng.range(HUGE, nmax) } else { rng.range(if m == 1 { 1 } else { 2 }, nmax) };
    let mut ts = BTreeSet::new();
    let mode = rng.below(5);
    while ts.len() < n {
        let x = rng.below(4 * n);
        ts.insert(match (mode, rng.below(8)) {
            (0, _) => format!("{x}"),
            (1, 0) => format!("{x}.0"),
            (1, 1) => format!("0{x}"),
            (1, 2) => format!("00{x}"),
            (1, 3) => format!("{x}e1"),
            (1, 4) => format!("+{x}"),
            (1, _) => format!("{x}"),
            (2, 0) => format!("a,{x}"),
            (2, 1) => format!("b\t{x}"),
            (2, 2) => format!("say \"{x}\""),
            (2, 3) => format!("日{x}"),
            (2, 4) => format!("true{x}"),
            (2, 5) => "NA".into(),
            (2, 6) => "nan".into(),
            (3, 0) => rng.pick(&["", "null", "true", "False", "None", "inf", "-", "2024-01-01", "12:30:00", "1e400", "0x10"]).to_string(),
            (3, 1) => format!("two\nlines {x}"),
            (3, 2) => format!(" {x}"),
            (3, 3) => format!("{x} "),
            (3, 4) => format!("#{x}"),
            (3, 5) => format!("{:04}-01-02", 1900 + x % 8000),
            (3, 6) => format!("'{x}'"),
            (3, 7) => format!("System_{}", 1 + x),
            _ => format!("q_{x}"),
        });
    }
    let mut topics: Vec<String> = ts.into_iter().collect();
    rng.shuffle(&mut topics);
    let names = ["ndcg@10", "ap", "precision@5", "rr", "My Metric", "recall@100", "f1", "précision  stricte", "P@5, %", "0", "AP"];
    let nm = if n >= HUGE { rng.range(1, 2) } else if rng.chance(0.1) { rng.range(1, 7) } else { rng.range(1, 3) };
    let mut metrics: Vec<String> = names.iter().map(|s| s.to_string()).collect();
    rng.shuffle(&mut metrics);
    metrics.truncate(nm);
    let scores = metrics
        .iter()
        .map(|_| {
            let grid = rng.chance(0.4);
            let scale = *rng.pick(&[1.0, 1.0, 1.0, 1.0, 1.0, 1000.0, 1e6]);
            let down = if rng.chance(0.15) { 0.5 } else { 0.0 };
            let scaled = |mut x: Vec<Vec<f64>>| {
                for v in x.iter_mut().flatten() {
                    *v = (*v - down) * scale;
                }
                x
            };
            let shift: Vec<f64> = (0..m).map(|_| rng.f64() * 0.3).collect();
            loop {
                let x: Vec<Vec<f64>> = (0..n)
                    .map(|_| {
                        let base = rng.f64() * 0.5;
                        (0..m).map(|i| if grid { rng.below(11) as f64 / 10.0 } else { base + shift[i] + rng.f64() * 0.2 }).collect()
                    })
                    .collect();
                // no degenerate pairs
                if m == 1 {
                    return scaled(x);
                }
                let a = dist::anova(&x);
                let df = ((n - 1) * (m - 1)) as f64;
                if (a.se / df).sqrt() > 1e-2 {
                    return scaled(x);
                }
            }
        })
        .collect();
    Csvs { metrics, topics, scores, header: rng.pick(&["query_id", "topic", "id", "qid"]).to_string() }
}
/// Writes one CSV per system with shuffled rows and columns and private extra metrics.
fn write_csvs(rng: &mut Rng, sc: &Scratch, c: &Csvs, m: usize, tab: bool, extra: bool) -> (Vec<PathBuf>, Vec<Vec<String>>) {
    let sep = if tab { '\t' } else { ',' };
    let mut paths = vec![];
    let mut columns = vec![];
    // a metric of some systems only
    let partial = (extra && m > 1 && rng.chance(0.5)).then(|| {
        let mut with: Vec<bool> = (0..m).map(|_| rng.chance(0.7)).collect();
        with[rng.below(m)] = false;
        ("partial@1".to_string(), with)
    });
    let style = rng.below(8);
    for s in 0..m {
        let mut cols: Vec<(String, Option<usize>)> = c.metrics.iter().enumerate().map(|(i, x)| (x.clone(), Some(i))).collect();
        if extra && rng.chance(0.6) {
            cols.push((format!("only_{s}"), None));
        }
        if let Some((name, with)) = &partial {
            if with[s] {
                cols.push((name.clone(), None));
            }
        }
        rng.shuffle(&mut cols);
        let mut text = field(&c.header, sep);
        for (n, _) in &cols {
            text.push(sep);
            text.push_str(&field(n, sep));
        }
        text.push('\n');
        let mut order: Vec<usize> = (0..c.topics.len()).collect();
        rng.shuffle(&mut order);
        for &j in &order {
            text.push_str(&field(&c.topics[j], sep));
            for (_, i) in &cols {
                text.push(sep);
                let v = i.map_or_else(|| rng.f64(), |i| c.scores[i][j][s]);
                text.push_str(&format!("{v:?}"));
            }
            text.push('\n');
        }
        // the line endings and the quoting do not matter
        if !c.topics.iter().any(|t| t.contains(['\n', '"'])) {
            if rng.chance(0.15) {
                text = text.replace('\n', "\r\n");
            } else if rng.chance(0.2) {
                text.pop();
            }
        }
        // system files often share a name or a long prefix
        let name: std::ffi::OsString = match style {
            0 => format!("sys{s}.csv").into(),
            1 => format!("dir{s}/scores.csv").into(),
            2 => format!("{}{s}.csv", "a_rather_long_common_name_".repeat(4)).into(),
            3 => format!("run  {s}/two  blanks   {s}.csv").into(),
            6 | 7 => odd_name(rng, &format!("s{s}")),
            _ => format!("sys {s}, é.v{s}.csv").into(),
        };
        fs::create_dir_all(sc.path(&name).parent().unwrap()).unwrap_or_else(|e| panic!("HARNESS: {e}"));
        paths.push(sc.write(&name, text));
        columns.push(cols.into_iter().map(|x| x.0).collect());
    }
    (paths, columns)
}
fn cell4(t: &Table, row: usize, col: &str, want: f64, what: &str) -> CaseResult {
    let i = t.header.iter().position(|h| h.trim() == col).ok_or_else(|| format!("{what}: no column {col:?} in {:?}", t.header))?;
    let c = t.rows.get(row).and_then(|r| r.get(i)).ok_or_else(|| format!("{what}: no row {row}"))?;
    ensure!(near4(c, want), "{what}: {col} is {c:?}, expected {want:.6}");
    Ok(())
}
fn p_cell(t: &Table, row: usize, col: usize, n: usize, lo: f64, hi: f64, what: &str) -> CaseResult {
    let c = t.rows.get(row).and_then(|r| r.get(col)).ok_or_else(|| format!("{what}: no cell"))?;
    let p: f64 = c.parse().map_err(|_| format!("{what}: {c:?}"))?;
    ensure!((0.0..=1.0).contains(&p), "{what}: p-value {c}");
    let (k, n_f) = ((p * n as f64).round(), n as f64);
    ensure!((k / n_f - p).abs() <= 0.5001e-4, "{what}: p-value {c} is no multiple of 1/{n}, the configured number of iterations");
    ensure!(dist::binom_ok((p * n as f64).round(), n as f64, lo, hi), "{what}: p-value {c} with {n} iterations, exact value in [{lo:.5}, {hi:.5}]");
    Ok(())
}
/// Adds (or, for the default of 10000, omits) the options for the numbers of iterations. Small numbers show in the
/// printed p-values, which must be multiples of 1/n.
fn iterations(rng: &mut Rng, args: &mut Vec<std::ffi::OsString>, small: bool, max: usize) -> (usize, usize) {
    let mut pick = |opt: &str| match rng.below(20) {
        _ if max < 300 => {
            let n = rng.range(1, max);
            args.extend([opt.into(), n.to_string().into()]);
            n
        }
        0 if small => 10000usize,
        1..=9 => {
            let n = rng.range(1, 40);
            args.extend([opt.into(), n.to_string().into()]);
            n
        }
        _ => {
            let n = rng.range(300, max);
            args.extend([opt.into(), n.to_string().into()]);
            n
        }
    };
    (pick("--n-resamples"), pick("--n-iters"))
}
fn tukey_bounds(rng: &mut Rng, x: &[Vec<f64>]) -> Vec<Vec<(f64, f64)>> {
    let (n, m) = (x.len(), x[0].len());
    if n >= HUGE {
        return (0..m).map(|i| (0..m).map(|j| if i == j { (1.0, 1.0) } else { (0.0, 1.0) }).collect()).collect();
    }
    let f: f64 = (1..=m).map(|k| k as f64).product();
    if f.powi(n as i32) <= 5000.0 {
        dist::tukey_exact(x)
    } else {
        own_tukey(rng, x, 8000)
    }
}
fn find<'a>(ts: &'a [(String, Table)], prefix: &str, from: usize) -> Result<(usize, &'a Table), String> {
    ts.iter().enumerate().skip(from).find(|(_, t)| t.0.starts_with(prefix)).map(|(i, t)| (i, &t.1)).ok_or_else(|| format!("no section {prefix:?} in {:?}", ts.iter().map(|t| &t.0).collect::<Vec<_>>()))
}
fn check_compare(rng: &mut Rng, obs: &mut Obs, out: &str, pretty: bool, c: &Csvs, paths: &[PathBuf], columns: &[Vec<String>], nr: usize, ni: usize) -> CaseResult {
    let m = paths.len();
    let ts = if pretty { pretty_tables(out) } else { raw_tables(out) };
    let (_, b) = find(&ts, "# Basic statistics", 0)?;
    let kv: BTreeMap<String, String> = b.rows.iter().map(|r| (r[0].clone(), r.get(1).cloned().unwrap_or_default())).collect();
    let want = [("n_systems", m), ("n_topics", c.topics.len()), ("n_metrics", columns[0].len())];
    for (k, v) in want {
        ensure!(kv.get(k).map(|s| s.as_str()) == Some(&v.to_string()), "{k} is {:?}, expected {v}", kv.get(k));
    }
    let midx = |name: &str| c.metrics.iter().position(|x| x == name);
    // metrics in the order of the first file
    let order: Vec<String> = columns[0].iter().filter(|x| m == 1 || midx(x).is_some()).cloned().collect();
    let mean = |i: usize, s: usize| dist::sum(c.scores[i].iter().map(|r| dist::Dd::of(r[s]))).f() / c.topics.len() as f64;
    let names = |t: &Table, what: &str| -> CaseResult {
        let got: Vec<String> = t.rows.iter().map(|r| r[0].trim().to_string()).collect();
        ensure!(got == order, "{what}: rows {got:?}, common metrics {order:?}");
        Ok(())
    };
    if m == 1 {
        let (_, t) = find(&ts, "# Means", 0)?;
        names(t, "Means")?;
        for (r, name) in order.iter().enumerate() {
            if let Some(i) = midx(name) {
                cell4(t, r, "Score", mean(i, 0), &format!("mean of {name}"))?;
                obs.count("numbers compared", 1);
            }
        }
        return Ok(());
    }
    let (_, t) = find(&ts, "# Alias", 0)?;
    ensure!(t.rows.len() == m && t.rows.iter().enumerate().all(|(i, r)| r[0] == format!("System_{}", i + 1) && r[1] == paths[i].to_string_lossy()), "aliases {:?} of {paths:?}", t.rows);
    if m == 2 {
        let (_, t) = find(&ts, "# Means", 0)?;
        names(t, "Means")?;
        for (r, name) in order.iter().enumerate() {
            for s in 0..2 {
                cell4(t, r, &format!("System_{}", s + 1), mean(midx(name).unwrap(), s), &format!("mean of {name}"))?;
            }
        }
        let (_, t) = find(&ts, "# Two-sided paired Student's t-test for (System_1 - System_2)", 0)?;
        names(t, "t-test")?;
        let (_, bt) = find(&ts, &format!("# Two-sided paired Bootstrap test (n_resamples = {nr})"), 0)?;
        names(bt, "bootstrap")?;
        let (_, ft) = find(&ts, &format!("# Fisher's randomized test (n_iters = {ni})"), 0)?;
        names(ft, "Fisher")?;
        for (r, name) in order.iter().enumerate() {
            let x = &c.scores[midx(name).unwrap()];
            let p: Vec<(f64, f64)> = x.iter().map(|v| (v[0], v[1])).collect();
            let s = StudentTTest::from_paired_samples(p.iter().copied()).map_err(|e| e.to_string())?;
            for (col, v) in [("Mean", s.mean()), ("Var", s.variance()), ("ES", s.effect_size()), ("t-stat", s.t_stat()), ("p-value", s.p_value()), ("95% MOE", s.margin_of_error(0.05).map_err(|e| e.to_string())?)] {
                cell4(t, r, col, v, &format!("t-test of {name}"))?;
                obs.count("numbers compared", 1);
            }
            let d: Vec<f64> = p.iter().map(|v| v.0 - v.1).collect();
            let (lo, hi) = if d.len() >= HUGE { (0.0, 1.0) } else if d.len() <= 5 { dist::bootstrap_exact(&d) } else { own_bootstrap(rng, &d, 8000) };
            p_cell(bt, r, 1, nr, lo, hi, &format!("bootstrap test of {name}"))?;
            let e = tukey_bounds(rng, x);
            p_cell(ft, r, 1, ni, e[0][1].0, e[0][1].1, &format!("Fisher's test of {name}"))?;
            obs.count("p-values compared", 2);
        }
        return Ok(());
    }
    let n = ts.iter().filter(|t| t.0.starts_with("## System means")).count();
    ensure!(n == order.len(), "{n} metrics compared, common metrics {order:?}");
    let mut from = 0;
    for name in &order {
        let x = &c.scores[midx(name).unwrap()];
        let (i, _) = find(&ts, &format!("# {name}"), from)?;
        from = i;
        let a = Anova::from_tupled_samples(x, m).map_err(|e| e.to_string())?;
        let (_, t) = find(&ts, "## System means", from)?;
        let moe = a.margin_of_error(0.05).map_err(|e| e.to_string())?;
        ensure!(t.rows.len() == m, "{} rows of system means", t.rows.len());
        for s in 0..m {
            ensure!(t.rows[s][0] == format!("System_{}", s + 1), "label {:?} in row {s} of the means of {name}", t.rows[s][0]);
            cell4(t, s, "Mean", mean(midx(name).unwrap(), s), &format!("mean of System_{} in {name}", s + 1))?;
            cell4(t, s, "95% MOE", moe, &format!("margin in {name}"))?;
            obs.count("numbers compared", 2);
        }
        let (_, t) = find(&ts, "## Two-way ANOVA", from)?;
        for (r, (v, df, var, fs, p)) in [
            (a.between_system_variation(), m - 1, a.between_system_variance(), Some(a.between_system_f_stat()), Some(a.between_system_p_value())),
            (a.between_topic_variation(), x.len() - 1, a.between_topic_variance(), Some(a.between_topic_f_stat()), Some(a.between_topic_p_value())),
            (a.residual_variation(), (m - 1) * (x.len() - 1), a.residual_variance(), None, None),
        ]
        .into_iter()
        .enumerate()
        {
            let what = format!("ANOVA of {name}, row {r}");
            cell4(t, r, "Variation", v, &what)?;
            cell4(t, r, "Variance", var, &what)?;
            ensure!(t.rows[r][0] == ["Between-systems", "Between-topics", "Residual"][r], "{what}: label {:?}", t.rows[r][0]);
            let di = t.header.iter().position(|h| h == "DF").ok_or("no DF column")?;
            ensure!(t.rows[r][di] == df.to_string(), "{what}: DF {} instead of {df}", t.rows[r][di]);
            if let Some(f) = fs {
                cell4(t, r, "F-stat", f, &what)?;
                cell4(t, r, "p-value", p.unwrap(), &what)?;
            } else {
                let blank = |h: &str| t.header.iter().position(|x| x == h).is_some_and(|c| t.rows[r].get(c).map_or(true, |v| v.parse::<f64>().is_err()));
                ensure!(blank("F-stat") && blank("p-value"), "{what}: residuals have no F statistic: {:?}", t.rows[r]);
            }
            obs.count("numbers compared", 4);
        }
        let es = TukeyHsdTest::from_tupled_samples(x, m).map_err(|e| e.to_string())?.effect_sizes();
        let (_, t) = find(&ts, "## Effect sizes", from)?;
        let (_, rt) = find(&ts, &format!("## p-values for randomized Tukey HSD test (n_iters = {ni})"), from)?;
        let e = tukey_bounds(rng, x);
        for i in 0..m {
            ensure!(t.rows[i][0] == format!("System_{}", i + 1) && rt.rows[i][0] == format!("System_{}", i + 1), "row labels of {name}");
            ensure!(t.header.get(i + 1) == Some(&format!("System_{}", i + 1)) && rt.header.get(i + 1) == Some(&format!("System_{}", i + 1)), "column labels of {name}: {:?} {:?}", t.header, rt.header);
            for j in 0..m {
                cell4(t, i, &format!("System_{}", j + 1), es[i][j], &format!("effect size ({i},{j}) of {name}"))?;
                p_cell(rt, i, j + 1, ni, e[i][j].0, e[i][j].1, &format!("randomized Tukey HSD ({i},{j}) of {name}"))?;
                obs.count("numbers compared", 1);
                obs.count("p-values compared", 1);
            }
        }
        from += 1;
    }
    Ok(())
}
fn c27_case(rng: &mut Rng, obs: &mut Obs, nmax: usize) -> CaseResult {
    let sc = Scratch::new();
    let m = if nmax > HUGE { rng.range(1, 3) } else if nmax <= 20 && rng.chance(0.05) { rng.range(10, 12) } else { *rng.pick(&[1, 2, 2, 2, 3, 3, 4, 5]) };
    let mut c = csvs(rng, m, nmax);
    let tab = rng.chance(0.3);
    let (mut paths, mut columns) = write_csvs(rng, &sc, &c, m, tab, true);
    if m >= 3 && rng.chance(0.4) {
        // the same file given twice
        let (a, b) = (rng.below(m), rng.below(m));
        let private = |cols: &[String]| cols.iter().any(|x| !c.metrics.contains(x));
        if !private(&columns[a]) {
            paths[b] = paths[a].clone();
            columns[b] = columns[a].clone();
            c.scores.iter_mut().flatten().for_each(|r| r[b] = r[a]);
            obs.count("files given twice", (a != b) as u64);
        }
    }
    let mut args: Vec<std::ffi::OsString> = vec!["-i".into()];
    args.extend(paths.iter().map(|p| p.clone().into_os_string()));
    let (nr, ni) = iterations(rng, &mut args, nmax <= 20, if nmax > HUGE { 4 } else { 1500 });
    if tab {
        args.push("--tab-separator".into());
    }
    let texts = || paths.iter().map(|p| fs::read_to_string(p).unwrap_or_default()).collect::<Vec<_>>().join("--\n").chars().take(3000).collect::<String>();
    obs.sig(paths.iter().fold(m as u64, |h, p| mix(h ^ hash_str(&fs::read_to_string(p).unwrap_or_default()))));
    obs.sample(|| json!({"systems": m, "topics": c.topics.iter().take(5).collect::<Vec<_>>(), "n_topics": c.topics.len(), "columns": columns, "tab": tab}));
    for pretty in [false, true] {
        let mut a = args.clone();
        if !pretty {
            a.extend(["-p".into(), "raw".into()]);
        } else if rng.chance(0.5) {
            a.extend(["--print-mode".into(), "pretty".into()]);
        }
        let r = run_v("compare", &a, &How::default());
        ensure!(r.ok(), "valid CSV files rejected: code {:?} {} {args:?}\n{}", r.code, r.err, texts());
        check_compare(rng, obs, &r.out, pretty, &c, &paths, &columns, nr, ni).map_err(|e| format!("{e} (pretty={pretty})\n{}", texts()))?;
        obs.count(["runs with one system", "runs with two systems", "runs with many systems"][(m - 1).min(2)], 1);
    }
    // every file repeats the same topic
    if m >= 2 && !c.topics.iter().any(|t| t.contains('\n')) {
        let j = if rng.chance(0.5) { c.topics.iter().enumerate().max_by_key(|t| t.1).unwrap().0 } else { rng.below(c.topics.len()) };
        let texts: Vec<String> = paths.iter().map(|p| fs::read_to_string(p).unwrap()).collect();
        let sep = if tab { '\t' } else { ',' };
        for ((p, t), cols) in paths.iter().zip(&texts).zip(&columns) {
            let end = if t.ends_with('\n') { "" } else { "\n" };
            fs::write(p, format!("{t}{end}{}{sep}{}\n", field(&c.topics[j], sep), vec!["0.25"; cols.len()].join(&sep.to_string()))).unwrap();
        }
        let r = run_v("compare", &args, &How::default());
        ensure!(!r.ok(), "files that all repeat the topic {:?} compared with exit status 0\n{}", c.topics[j], texts.join("--\n").chars().take(3000).collect::<String>());
        obs.count("repeated topics rejected", 1);
        for (p, t) in paths.iter().zip(&texts) {
            fs::write(p, t).unwrap();
        }
    }
    // corrupted topic sets
    if m >= 2 && !c.topics.iter().any(|t| t.contains('\n')) {
        let s = rng.below(m);
        let text = fs::read_to_string(&paths[s]).unwrap();
        let mut lines: Vec<String> = text.lines().map(|l| l.to_string()).collect();
        let sep = if tab { '\t' } else { ',' };
        let cells = lines[1].matches(sep).count().max(1);
        let ncol = columns[s].len();
        let _ = cells;
        let vals = vec!["0.25".to_string(); ncol].join(&sep.to_string());
        let what = rng.below(4);
        match what {
            0 => {
                let at = rng.range(1, lines.len() - 1);
                lines.remove(at);
            }
            1 => {
                let at = rng.range(1, lines.len());
                lines.insert(at, format!("~extra{sep}{vals}"));
            }
            2 => {
                let at = rng.range(1, lines.len() - 1);
                let l = lines[at].clone();
                lines.insert(rng.range(1, lines.len()), l);
            }
            _ => {
                let at = rng.range(1, lines.len() - 1);
                lines[at] = format!("~other{sep}{vals}");
            }
        }
        fs::write(&paths[s], lines.join("\n") + "\n").unwrap();
        let r = run_v("compare", &args, &How::default());
        ensure!(!r.ok(), "files with {} topic in file {s} compared with exit status 0\n{}", ["a missing", "an extra", "a repeated", "another"][what], texts());
        obs.count("differing topic sets rejected", 1);
    }
    Ok(())
}
pub fn c27(ctx: &mut Ctx) {
    ctx.rule = "elinor-compare run on 1-5 generated CSV files with shuffled rows and columns, private extra metrics and hostile topic ids, in both print modes; every printed mean, statistic and effect size compared with the library on correctly paired scores, every randomised p-value with the exact or independently simulated distribution; one file's topic set then corrupted. Distinct = hash of the files.".into();
    ctx.assumptions = vec!["scores are written with a decimal point (as elinor-evaluate does)".into()];
    ctx.require("numbers compared", 500);
    ctx.require("p-values compared", 100);
    ctx.require("runs with two systems", 20);
    ctx.require("runs with many systems", 20);
    ctx.require("differing topic sets rejected", 20);
    let n = ctx.n(240, 5000);
    ctx.run("random", n, |r, _, o| c27_case(r, o, 20));
    let n = ctx.n(4, 60);
    ctx.run("many-topics", n, |r, _, o| c27_case(r, o, 250));
    let n = ctx.n(3, 60);
    ctx.run("very-many-topics", n, |r, _, o| c27_case(r, o, 6000));
    let n = ctx.n(6, 80);
    ctx.run("huge", n, |r, _, o| c27_case(r, o, 140_000));
}

// ------------------------------------------------------------------ C28
/// One output that may be cut off.
struct Victim {
    name: &'static str,
    tool: &'static str,
    args: Vec<std::ffi::OsString>,
    /// the file that is limited
    file: PathBuf,
    to_stdout: bool,
    full: Vec<u8>,
    _sc: Scratch,
}
fn victim(kind: usize, rng: &mut Rng, size: usize) -> Victim {
    let sc = Scratch::new();
    let os = |s: &str| std::ffi::OsString::from(s);
    let (name, tool, args, file, to_stdout): (&str, &str, Vec<std::ffi::OsString>, PathBuf, bool) = match kind {
        0 | 1 => {
            let (ty, ext) = if kind == 0 { ("true", "0 D%d 1") } else { ("pred", "Q0 D%d 1 0.5 t") };
            let text: String = (0..size).map(|i| format!("q{} {}\n", i / 4, ext.replace("%d", &format!("{i}")))).collect();
            let i = sc.write("in", text);
            let o = sc.path("out.jsonl");
            (["convert qrels", "convert run"][kind], "convert", vec![os("-i"), i.into(), os("-o"), o.clone().into(), os("-r"), os(ty)], o, false)
        }
        2 | 3 => {
            let (mut t, mut p) = (String::new(), String::new());
            for i in 0..size {
                t.push_str(&format!("{{\"query_id\":\"q{i}\",\"doc_id\":\"d\",\"score\":1}}\n"));
                p.push_str(&format!("{{\"query_id\":\"q{i}\",\"doc_id\":\"d\",\"score\":0.5}}\n"));
            }
            let (t, p) = (sc.write("t", t), sc.write("p", p));
            let o = sc.path("out.csv");
            let mut a = vec![os("-t"), t.into(), os("-p"), p.into(), os("-m"), os("ap"), os("rr")];
            if kind == 2 {
                a.extend([os("-o"), o.clone().into()]);
            }
            (["evaluate CSV", "evaluate stdout"][kind - 2], "evaluate", a, o, kind == 3)
        }
        _ => {
            let m = kind - 3; // 1, 2, 3 systems
            let mut a = vec![os("-i")];
            for s in 0..m {
                let mut t = String::from("query_id,ap\n");
                for i in 0..size.min(6).max(3) {
                    t.push_str(&format!("q{i},{:?}\n", rng.f64()));
                }
                a.push(sc.write(&format!("s{s}.csv"), t).into());
            }
            a.extend([os("--n-resamples"), os("3"), os("--n-iters"), os("3")]);
            if size % 2 == 0 {
                a.extend([os("-p"), os("raw")]);
            }
            let o = sc.path("stdout.txt");
            (["compare stdout (1)", "compare stdout (2)", "compare stdout (3)"][m - 1], "compare", a, o, true)
        }
    };
    let mut v = Victim { name, tool, args, file, to_stdout, full: vec![], _sc: sc };
    let r = attempt(&v, None);
    v.full = fs::read(&v.file).unwrap_or_default();
    if !r.ok() {
        panic!("{name} fails without any fault: {r:?}");
    }
    v
}
fn attempt(v: &Victim, limit: Option<u64>) -> Ran {
    let _ = fs::remove_file(&v.file);
    let how = How { fsize: limit, stdout: if v.to_stdout { Some(v.file.clone()) } else { None }, ..How::default() };
    run_v(v.tool, &v.args, &how)
}
const VICTIMS: usize = 7;
fn c28_at(v: &Victim, limit: u64, obs: &mut Obs) -> CaseResult {
    let r = attempt(v, Some(limit));
    let got = fs::read(&v.file).unwrap_or_default();
    // randomised p-values make compare's output vary in content, not in length of the lines
    let complete = if v.tool == "compare" { got.len() == v.full.len() } else { got == v.full };
    if (limit as usize) < v.full.len() {
        ensure!(!r.ok(), "{}: output cut off at byte {} of {}, exit status 0", v.name, got.len(), v.full.len());
        obs.count(&format!("faults: {}", v.name), 1);
    } else {
        ensure!(r.ok(), "{}: limit {limit} is not below the output size {}, yet {r:?}", v.name, v.full.len());
        obs.count("runs without a fault", 1);
    }
    ensure!(!r.ok() || complete, "{}: exit status 0 with incomplete output ({} of {} bytes)", v.name, got.len(), v.full.len());
    obs.sig(mix(hash_str(v.name)) ^ limit ^ (v.full.len() as u64) << 32);
    Ok(())
}
pub fn c28(ctx: &mut Ctx) {
    ctx.level = "fault_enumeration".into();
    ctx.rule = "Each tool and output (two kinds of conversion, evaluate CSV and stdout, compare stdout with 1-3 systems) is run with the output file limited (RLIMIT_FSIZE, EFBIG instead of SIGXFSZ) to every length from 0 to beyond its full size; outputs larger than one I/O buffer at every boundary offset and sampled ones; also /dev/full, missing directories and directories as output. Distinct = (output, cut-off byte).".into();
    ctx.require("runs without a fault", 7);
    for k in ["convert qrels", "convert run", "evaluate CSV", "evaluate stdout", "compare stdout (1)", "compare stdout (2)", "compare stdout (3)"] {
        ctx.require(&format!("faults: {k}"), 20);
    }
    let mut seedr = Rng::new(mix(ctx.seed));
    // every offset of small outputs
    let victims: Vec<Victim> = (0..VICTIMS).map(|k| victim(k, &mut seedr, if k < 2 { 6 } else if k < 4 { 5 } else { 3 + k % 2 })).collect();
    // one directory per worker is needed for concurrent runs: offsets of one victim run sequentially in a case
    let total: Vec<(usize, u64)> = victims.iter().enumerate().flat_map(|(i, v)| (0..v.full.len() as u64 + 2).map(move |o| (i, o))).collect();
    let locks: Vec<std::sync::Mutex<()>> = (0..VICTIMS).map(|_| std::sync::Mutex::new(())).collect();
    let stride = if ctx.thorough() { 1 } else { 2 };
    // quick: every offset of the conversions and every second one of the rest, alternating with the seed
    let list: Vec<(usize, u64)> = total.iter().copied().filter(|&(i, o)| i < 3 || o as usize + 3 >= victims[i].full.len() || (o + ctx.seed) % stride == 0).collect();
    ctx.count("offsets in scope", total.len() as u64);
    // interleave the victims so that the workers rarely wait for each other
    let mut per: Vec<Vec<u64>> = vec![vec![]; VICTIMS];
    for (i, o) in list {
        per[i].push(o);
    }
    let mut list = vec![];
    let longest = per.iter().map(|v| v.len()).max().unwrap_or(0);
    for j in 0..longest {
        for (i, v) in per.iter().enumerate() {
            if let Some(&o) = v.get(j) {
                list.push((i, o));
            }
        }
    }
    ctx.run("every-offset", list.len() as u64, |_, c, obs| {
        let (i, o) = list[c as usize];
        let _g = locks[i].lock().unwrap_or_else(|e| e.into_inner());
        c28_at(&victims[i], o, obs)
    });
    // outputs of several I/O buffers
    let n = ctx.n(10, 120);
    ctx.run("large", n, |rng, c, obs| {
        let kind = (c % 4) as usize;
        let size = *rng.pick(&[170, 200, 400, 1500, 4000]);
        let v = victim(kind, rng, size);
        let len = v.full.len() as u64;
        let mut offs = vec![0, 1, len - 1, len - 2, len, len + 1, rng.below(len as usize) as u64];
        for b in [4096u64, 8192, 16384, 65536, 131072] {
            offs.extend([b - 1, b, b + 1]);
        }
        let last = len / 8192 * 8192;
        offs.extend([last, last + 1, last.saturating_sub(1), (last + len) / 2]);
        for o in offs {
            c28_at(&v, o, obs)?;
            obs.more += 1;
        }
        obs.sample(|| json!({"output": v.name, "bytes": len}));
        Ok(())
    });
    // standard output is a pipe that is closed before or while it is written
    let n = ctx.n(40, 600);
    ctx.require("pipes closed early", 40);
    ctx.run("closed-pipe", n, |rng, c, obs| {
        let kind = 3 + c as usize % 4;
        let mut v = victim(kind, rng, 4 + c as usize / 4 % 3);
        if kind == 3 {
            // enough output to outlast the pipe's buffer, whatever is read from it
            v.args.extend((1..rng.range(300, 1500)).map(|k| format!("ndcg@{k}").into()));
            v.full = run_v(v.tool, &v.args, &How::default()).out.into_bytes();
        }
        let len = v.full.len();
        let mut reads = vec![0];
        if len > 5000 {
            reads.extend([1, rng.below(len - 4500), len - 4500]);
        }
        for n in reads {
            let r = run_v(v.tool, &v.args, &How { pipe: Some(n), ..Default::default() });
            ensure!(!r.ok(), "{}: the reader of standard output is gone after {n} of {len} bytes, exit status 0", v.name);
            obs.count("pipes closed early", 1);
            obs.sig(mix(hash_str(v.name)) ^ n as u64 ^ (len as u64) << 32);
        }
        Ok(())
    });
    // devices and paths that cannot be written
    ctx.run("unwritable", VICTIMS as u64, |rng, c, obs| {
        let mut v = victim(c as usize, rng, 4);
        let h = How { stdout: Some(PathBuf::from("/dev/full")), ..Default::default() };
        if v.to_stdout {
            let r = run_v(v.tool, &v.args, &h);
            ensure!(!r.ok(), "{}: standard output is /dev/full, exit status 0", v.name);
        } else {
            let i = v.args.iter().position(|a| a == "-o").unwrap() + 1;
            for p in ["/dev/full".into(), v._sc.path("no/such/dir/out"), v._sc.0.clone(), PathBuf::from("")] {
                v.args[i] = p.clone().into();
                let r = run_v(v.tool, &v.args, &How::default());
                ensure!(!r.ok(), "{}: output {p:?} cannot be written, exit status 0", v.name);
                obs.count("unwritable outputs", 1);
            }
            // output file fine, standard output full
            if v.tool == "evaluate" {
                v.args[i] = v.file.clone().into();
                let r = run_v(v.tool, &v.args, &h);
                ensure!(!r.ok(), "{}: standard output is /dev/full, exit status 0", v.name);
            }
        }
        obs.sample(|| json!({"output": v.name, "bytes": v.full.len()}));
        Ok(())
    });
}

// ------------------------------------------------------------------ C29
fn c29_convert(rng: &mut Rng, obs: &mut Obs) -> CaseResult {
    let sc = Scratch::new();
    let qrels = rng.chance(0.5);
    let ty = if qrels { "true" } else { "pred" };
    let t = trec(rng, 30, qrels, false);
    let o = sc.path("o");
    let h = How::default();
    let good = t.lines.join("\n") + "\n";
    let i = sc.write("i", &good);
    let r = run!("convert", &h; "-i", &i, "-o", &o, "-r", ty);
    ensure!(r.ok(), "valid input fails: {r:?} {:?}", t.lines);
    obs.count("valid runs", 1);
    let bad = |what: &str, r: Ran| -> CaseResult {
        ensure!(!r.ok(), "convert with {what}: exit status 0; input {:?}", t.lines.iter().take(20).collect::<Vec<_>>());
        Ok(())
    };
    let n = t.lines.len();
    let mid = rng.below(n);
    let at = *rng.pick(&[0, n - 1, mid]);
    // every truncation of one line to fewer columns
    let toks: Vec<&str> = t.lines[at].split_whitespace().collect();
    for k in 0..if qrels { 4 } else { 5 } {
        let mut l = t.lines.clone();
        l[at] = toks[..k].join(" ");
        sc.write("i", l.join("\n") + "\n");
        bad(&format!("line {at} cut to {k} columns"), run!("convert", &h; "-i", &i, "-o", &o, "-r", ty))?;
    }
    let mut l = t.lines.clone();
    let mut tk: Vec<String> = toks.iter().map(|s| s.to_string()).collect();
    tk[if qrels { 3 } else { 4 }] = rng.pick(&["x", "--", "1.2.3", "0x1", "１"]).to_string();
    l[at] = tk.join(" ");
    sc.write("i", l.join("\n") + "\n");
    bad(&format!("bad score in line {at}"), run!("convert", &h; "-i", &i, "-o", &o, "-r", ty))?;
    let mut l = t.lines.clone();
    l.insert(rng.below(n + 1), t.lines[at].clone());
    sc.write("i", l.join("\n"));
    bad("a duplicate pair", run!("convert", &h; "-i", &i, "-o", &o, "-r", ty))?;
    // invalid UTF-8
    let mut b = good.clone().into_bytes();
    let p = rng.below(b.len());
    b.splice(p..p, [0xff, 0xfe]);
    sc.write("i", b);
    bad("invalid UTF-8", run!("convert", &h; "-i", &i, "-o", &o, "-r", ty))?;
    sc.write("i", &good);
    bad("a missing input file", run!("convert", &h; "-i", sc.path("nope"), "-o", &o, "-r", ty))?;
    bad("a directory as input", run!("convert", &h; "-i", &sc.0, "-o", &o, "-r", ty))?;
    for x in ["qrels", "True", "", "preds", "tru"] {
        bad(&format!("type {x:?}"), run!("convert", &h; "-i", &i, "-o", &o, "-r", x))?;
    }
    bad("no type", run!("convert", &h; "-i", &i, "-o", &o))?;
    bad("no output", run!("convert", &h; "-i", &i, "-r", ty))?;
    bad("no input", run!("convert", &h; "-o", &o, "-r", ty))?;
    bad("an unknown option", run!("convert", &h; "-i", &i, "-o", &o, "-r", ty, "--frobnicate"))?;
    bad("a stray argument", run!("convert", &h; "-i", &i, "-o", &o, "-r", ty, "stray"))?;
    obs.count("corrupted runs", 18);
    obs.sig(t.hash());
    obs.sample(|| json!({"tool": "convert", "type": ty, "lines": n}));
    Ok(())
}
fn c29_evaluate(rng: &mut Rng, obs: &mut Obs) -> CaseResult {
    let sc = Scratch::new();
    let d = cli_data(rng, false, 5);
    let (tl, pl) = jsonl(rng, &d);
    let (t, p, o) = (sc.path("t"), sc.path("p"), sc.path("o.csv"));
    let h = How::default();
    let go = |tl: &[String], pl: &[String], extra: &[&str]| {
        sc.write("t", tl.join("\n") + "\n");
        sc.write("p", pl.join("\n") + "\n");
        let mut a: Vec<std::ffi::OsString> = vec!["-t".into(), t.clone().into(), "-p".into(), p.clone().into()];
        a.extend(extra.iter().map(|s| s.into()));
        run_v("evaluate", &a, &h)
    };
    let os = o.to_string_lossy().into_owned();
    let r = go(&tl, &pl, &["-o", &os]);
    ensure!(r.ok(), "valid input fails: {r:?} {tl:?} {pl:?}");
    obs.count("valid runs", 1);
    let bad = |what: String, r: Ran| -> CaseResult {
        ensure!(!r.ok(), "evaluate with {what}: exit status 0; true {tl:?} pred {pl:?}");
        Ok(())
    };
    // a broken line at some position of each file
    for which in 0..2 {
        let src = if which == 0 { &tl } else { &pl };
        let n = src.len();
        let mid = rng.below(n);
        let pos = *rng.pick(&[0, n - 1, mid]);
        let good: Value = serde_json::from_str(&src[pos]).unwrap();
        let no_score = format!("{{\"query_id\":{},\"doc_id\":{}}}", good["query_id"], good["doc_id"]);
        let no_doc = format!("{{\"query_id\":{},\"score\":1}}", good["query_id"]);
        let text = format!("{{\"query_id\":{},\"doc_id\":{},\"score\":\"1\"}}", good["query_id"], good["doc_id"]);
        let neg = format!("{{\"query_id\":{},\"doc_id\":{},\"score\":{}}}", good["query_id"], good["doc_id"], if which == 0 { "-1" } else { "null" });
        let cut: String = {
            let c: Vec<char> = src[pos].chars().collect();
            c[..rng.range(1, c.len() - 1)].iter().collect()
        };
        let double = format!("{}{}", src[pos], src[pos]);
        for (w, l) in [("a record without score", no_score), ("a record without doc_id", no_doc), ("a text score", text), ("a negative or null score", neg), ("a truncated line", cut), ("two records on a line", double), ("an array", "[]".into()), ("an empty line", String::new()), ("TREC instead of JSON", "q 0 d 1".into())] {
            let mut x = src.clone();
            if rng.chance(0.5) {
                x[pos] = l;
            } else {
                x.insert(pos, l);
            }
            let r = if which == 0 { go(&x, &pl, &[]) } else { go(&tl, &x, &[]) };
            bad(format!("{w} at line {pos} of file {which}"), r)?;
            obs.count("corrupted runs", 1);
        }
        let mut x = src.clone();
        x.insert(rng.below(n + 1), src[pos].clone());
        let r = if which == 0 { go(&x, &pl, &[]) } else { go(&tl, &x, &[]) };
        bad(format!("a duplicate pair in file {which}"), r)?;
    }
    // a predicted query without judgments
    let mut x = pl.clone();
    let qn = *rng.pick(&["zzz", "0000", "q", "~"]);
    if !d.true_queries().contains(qn) {
        x.insert(rng.below(x.len() + 1), jline(rng, qn, "d", "0.5".into()));
        bad("a predicted query without judgments".into(), go(&tl, &x, &[]))?;
    }
    for m in ["mrr", "precision@", "precision@-1", "ndcg@1.5", "AP", "", "ap@@3", "ap@3,rr", "f2"] {
        bad(format!("metric {m:?}"), go(&tl, &pl, &["-m", "ap", m]))?;
    }
    bad("no metric".into(), go(&tl, &pl, &["-m"]))?;
    bad("an unknown option".into(), go(&tl, &pl, &["--frobnicate"]))?;
    let r = run!("evaluate", &h; "-t", sc.path("nope"), "-p", &p);
    bad("a missing true file".into(), r)?;
    let r = run!("evaluate", &h; "-t", &t, "-p", sc.path("nope"));
    bad("a missing pred file".into(), r)?;
    bad("no pred file".into(), run!("evaluate", &h; "-t", &t))?;
    bad("no true file".into(), run!("evaluate", &h; "-p", &p))?;
    obs.count("corrupted runs", 17);
    obs.sig(tl.iter().chain(&pl).fold(5, |h, l| mix(h ^ hash_str(l))));
    obs.sample(|| json!({"tool": "evaluate", "true": tl.len(), "pred": pl.len()}));
    Ok(())
}
fn c29_compare(rng: &mut Rng, obs: &mut Obs) -> CaseResult {
    let sc = Scratch::new();
    let m = rng.range(1, 3);
    // also files longer than what type inference reads
    let size = *rng.pick(&[10, 10, 10, 150, 400]);
    let mut c = csvs(rng, m, size);
    for t in &mut c.topics {
        *t = t.replace('\n', "_");
    }
    let tab = rng.chance(0.3);
    let (paths, columns) = write_csvs(rng, &sc, &c, m, tab, false);
    let sep = if tab { '\t' } else { ',' };
    let h = How::default();
    let mut args: Vec<std::ffi::OsString> = vec!["-i".into()];
    args.extend(paths.iter().map(|p| p.clone().into_os_string()));
    args.extend(["--n-resamples".into(), "5".into(), "--n-iters".into(), "5".into()]);
    if tab {
        args.push("--tab-separator".into());
    }
    let orig: Vec<String> = paths.iter().map(|p| fs::read_to_string(p).unwrap()).collect();
    let r = run_v("compare", &args, &h);
    ensure!(r.ok(), "valid input fails: {r:?}\n{}", orig.join("--\n"));
    obs.count("valid runs", 1);
    let bad = |what: &str, r: Ran| -> CaseResult {
        ensure!(!r.ok(), "compare with {what}: exit status 0\n{}", orig.join("--\n").chars().take(2000).collect::<String>());
        Ok(())
    };
    let s = rng.below(m);
    let lines: Vec<&str> = orig[s].lines().collect();
    // a non-numeric score in some row
    let mid = rng.range(1, lines.len() - 1);
    let row = *rng.pick(&[1, lines.len() - 1, mid]);
    obs.count("bad scores beyond row 100", (row > 100) as u64);
    let mut l: Vec<String> = lines.iter().map(|x| x.to_string()).collect();
    let cut = l[row].rfind(sep).unwrap();
    l[row].truncate(cut + 1);
    l[row].push_str(rng.pick(&["abc", "0.5x", "--", "1.2.3", "high"]));
    // the last column is a common metric or the only file's metric
    fs::write(&paths[s], l.join("\n") + "\n").unwrap();
    bad(&format!("a non-numeric score in row {row} of file {s}"), run_v("compare", &args, &h))?;
    // a row with a field too many
    let mut l: Vec<String> = lines.iter().map(|x| x.to_string()).collect();
    l[row].push(sep);
    l[row].push_str(rng.pick(&["0.5", "1.0", "x", ""]));
    fs::write(&paths[s], l.join("\n") + "\n").unwrap();
    bad(&format!("a field too many in row {row} of file {s}"), run_v("compare", &args, &h))?;
    // a common score missing, or a score of the only file
    let mut l: Vec<String> = lines.iter().map(|x| x.to_string()).collect();
    let cut = l[row].rfind(sep).unwrap();
    l[row].truncate(cut + rng.below(2));
    if columns[s].len() > 1 || l[row].ends_with(sep) {
        fs::write(&paths[s], l.join("\n") + "\n").unwrap();
        bad(&format!("a score missing in row {row} of file {s}"), run_v("compare", &args, &h))?;
        obs.count("missing scores in an only file", (m == 1) as u64);
    }
    if m > 1 {
        fs::write(&paths[s], orig[s].replacen(&c.header, "other_header", 1)).unwrap();
        bad("different topic headers", run_v("compare", &args, &h))?;
        let head: String = columns[s].iter().enumerate().map(|(i, _)| format!("{sep}private{i}")).collect();
        let mut l: Vec<String> = lines.iter().map(|x| x.to_string()).collect();
        l[0] = format!("{}{head}", c.header);
        fs::write(&paths[s], l.join("\n") + "\n").unwrap();
        bad("no common metric", run_v("compare", &args, &h))?;
        obs.count("corrupted runs", 2);
    }
    fs::write(&paths[s], "").unwrap();
    bad("an empty file", run_v("compare", &args, &h))?;
    fs::write(&paths[s], format!("{}\n", lines[0])).unwrap();
    bad("a file without rows", run_v("compare", &args, &h))?;
    fs::write(&paths[s], &orig[s]).unwrap();
    let mut a = args.clone();
    a[1 + s] = sc.path("nope.csv").into();
    bad("a missing file", run_v("compare", &a, &h))?;
    bad("no input option", run!("compare", &h;))?;
    bad("no input files", run!("compare", &h; "-i"))?;
    for x in ["Raw", "fancy", ""] {
        let mut a = args.clone();
        a.extend(["-p".into(), x.into()]);
        bad(&format!("print mode {x:?}"), run_v("compare", &a, &h))?;
    }
    for (o, v) in [("--n-iters", "x"), ("--n-resamples", "-1"), ("--n-resamples", "1.5"), ("--frobnicate", "1")] {
        let mut a: Vec<std::ffi::OsString> = args.iter().filter(|x| *x != "--n-iters" && *x != "--n-resamples" && *x != "5").cloned().collect();
        a.extend([o.into(), v.into()]);
        bad(&format!("option {o} {v}"), run_v("compare", &a, &h))?;
    }
    obs.count("corrupted runs", 12);
    obs.sig(orig.iter().fold(6, |h, l| mix(h ^ hash_str(l))));
    obs.sample(|| json!({"tool": "compare", "systems": m, "rows": lines.len() - 1}));
    Ok(())
}
pub fn c29(ctx: &mut Ctx) {
    ctx.rule = "Valid inputs of each tool (must exit 0), each then corrupted in every listed way (columns cut, bad scores, duplicates, invalid UTF-8, broken JSON at random, first and last lines, missing files, bad options, unknown metrics, mismatched headers, non-numeric cells), one corruption per run. Distinct = hash of the valid input.".into();
    ctx.require("valid runs", 20);
    ctx.require("corrupted runs", 300);
    ctx.require("bad scores beyond row 100", 4);
    let n = ctx.n(40, 800);
    ctx.run("convert", n, |r, _, o| c29_convert(r, o));
    let n = ctx.n(30, 500);
    ctx.run("evaluate", n, |r, _, o| c29_evaluate(r, o));
    let n = ctx.n(200, 2000);
    ctx.run("compare", n, |r, _, o| c29_compare(r, o));
}

// ------------------------------------------------------------------ C30
/// TREC files through all three tools, compared with the library and the definitions on the same data.
fn c30_case(rng: &mut Rng, obs: &mut Obs, max_q: usize) -> CaseResult {
    let m = *rng.pick(&[1, 2, 2, 3, 3, 4]);
    // judgments and one run per system over the same queries, with non-degenerate scores
    let kinds = [model::Kind::Ap, model::Kind::Ndcg, model::Kind::NdcgB, model::Kind::DcgB, model::Kind::Dcg, model::Kind::Precision, model::Kind::Recall, model::Kind::F1, model::Kind::Rr, model::Kind::Bpref, model::Kind::RPrec, model::Kind::Hits];
    let (trues, runs, metrics, scores, topics) = 'found: {
        for _ in 0..200 {
            let nq = rng.range(3, max_q);
            let nd = rng.range(4, 25);
            let mut qs = BTreeSet::new();
            while qs.len() < nq {
                let x = rng.below(4 * nq);
                qs.insert(match rng.below(12) {
                    0 => format!("{x},a"),
                    1 => format!("\"{x}\""),
                    2 => format!("{x}\"y"),
                    3 => format!("0{x}"),
                    4 => format!("{x}.0"),
                    5 => format!("日{x}"),
                    6 => (*rng.pick(&["NA", "null", "nan", "true", "-", "#1", "query_id", "inf", "'", "\\N"])).to_string(),
                    7 => format!("{x}e2"),
                    _ => format!("{x}"),
                });
            }
            let qs: Vec<String> = qs.into_iter().collect();
            let mut trues = vec![];
            let mut runs: Vec<Vec<(String, String, f64)>> = vec![vec![]; m];
            for q in &qs {
                for d in 0..nd {
                    if rng.chance(0.7) {
                        let g = if rng.chance(0.5) { 0 } else { rng.range(1, 3) as u32 };
                        trues.push((q.clone(), format!("d{d}"), g));
                    }
                    for r in runs.iter_mut() {
                        if rng.chance(0.7) {
                            r.push((q.clone(), format!("d{d}"), safe_score(rng)));
                        }
                    }
                }
            }
            let data: Vec<Data<String>> = runs.iter().map(|r| Data { trues: trues.clone(), preds: r.clone() }).collect();
            let views: Vec<_> = data.iter().map(|d| d.views()).collect();
            if data[0].true_queries().len() != nq || views.iter().any(|v| v.len() != nq) {
                continue;
            }
            let mut metrics: Vec<(model::Kind, usize)> = vec![];
            let mut scores: Vec<Vec<Vec<f64>>> = vec![];
            for _ in 0..rng.range(1, 5) {
                let kind = *rng.pick(&kinds);
                let k = if kind.has_k() { *rng.pick(&[0, 1, 3, 5, 10]) } else { 0 };
                let x: Vec<Vec<f64>> = qs.iter().map(|q| views.iter().map(|v| model::metric(kind, k, &v[q])).collect()).collect();
                let ok = m == 1 || (dist::anova(&x).se / ((nq - 1) * (m - 1)) as f64).sqrt() > 1e-2;
                if ok && !metrics.contains(&(kind, k)) {
                    metrics.push((kind, k));
                    scores.push(x);
                }
            }
            if !metrics.is_empty() {
                break 'found (trues, runs, metrics, scores, qs);
            }
        }
        panic!("HARNESS: no suitable data found");
    };
    let sc = Scratch::new();
    let h = How::default();
    let nl = *rng.pick(&["\n", "\r\n"]);
    let mut l: Vec<String> = trues.iter().map(|(q, d, g)| format!("{q} 0 {d} {}", if *g == 0 && rng.chance(0.3) { -1 } else { *g as i64 })).collect();
    rng.shuffle(&mut l);
    let qrels = sc.write("qrels.trec", l.join(nl) + nl);
    let show = |sc: &Scratch| {
        let mut s = String::new();
        for f in ["qrels.trec", "sys0.trec", "sys1.trec", "sys0.csv", "sys1.csv"] {
            s.push_str(&format!("== {f}\n{}", fs::read_to_string(sc.path(f)).unwrap_or_default().chars().take(900).collect::<String>()));
        }
        s
    };
    let tj = sc.path("qrels.jsonl");
    let r = run!("convert", &h; "-i", &qrels, "-o", &tj, "-r", "true");
    ensure!(r.ok(), "convert of the judgments: {r:?}");
    let labels: Vec<String> = metrics.iter().map(|m| m.0.label(m.1)).collect();
    let tab = rng.chance(0.4);
    let mut paths = vec![];
    for (s, run) in runs.iter().enumerate() {
        let mut l: Vec<String> = run.iter().enumerate().map(|(i, (q, d, x))| format!("{q}\tQ0 {d} {i} {x:?} sys{s}")).collect();
        rng.shuffle(&mut l);
        let f = sc.write(&format!("sys{s}.trec"), l.join(nl) + nl);
        let (j, o) = (sc.path(&format!("sys{s}.jsonl")), sc.path(&format!("sys{s}.csv")));
        let r = run!("convert", &h; "-i", &f, "-o", &j, "-r", "pred");
        ensure!(r.ok(), "convert of run {s}: {r:?}");
        let mut a: Vec<std::ffi::OsString> = vec!["-t".into(), tj.clone().into(), "-p".into(), j.into(), "-o".into(), o.clone().into(), "-m".into()];
        a.extend(labels.iter().map(|x| x.into()));
        if tab {
            a.push("--tab-separator".into());
        }
        let r = run_v("evaluate", &a, &h);
        ensure!(r.ok(), "evaluate of run {s}: {r:?}\n{}", show(&sc));
        check_stdout(&r.out, &Data { trues: trues.clone(), preds: run.clone() }, &metrics).map_err(|e| format!("evaluate of run {s}: {e}\n{}", show(&sc)))?;
        paths.push(o);
    }
    let mut a: Vec<std::ffi::OsString> = vec!["-i".into()];
    a.extend(paths.iter().map(|p| p.clone().into_os_string()));
    let (nr, ni) = iterations(rng, &mut a, max_q <= 20, 1200);
    if tab {
        a.push("--tab-separator".into());
    }
    let pretty = rng.chance(0.3);
    if !pretty {
        a.extend(["-p".into(), "raw".into()]);
    }
    let r = run_v("compare", &a, &h);
    ensure!(r.ok(), "compare of evaluated files: {r:?}\n{}", show(&sc));
    obs.count("numbers compared", 0);
    let c = Csvs { metrics: labels.clone(), topics, scores, header: "query_id".into() };
    check_compare(rng, obs, &r.out, pretty, &c, &(0..m).map(|s| sc.path(&format!("sys{s}.csv"))).collect::<Vec<_>>(), &vec![labels.clone(); m], nr, ni).map_err(|e| format!("compare: {e} (pretty={pretty})\n{}", show(&sc)))?;
    obs.count(&format!("pipelines with {m} systems"), 1);
    obs.sig(l.iter().fold(m as u64, |h, x| mix(h ^ hash_str(x))));
    obs.sample(|| json!({"systems": m, "topics": c.topics.iter().take(6).collect::<Vec<_>>(), "metrics": labels, "tab": tab}));
    Ok(())
}
pub fn c30(ctx: &mut Ctx) {
    ctx.rule = "TREC judgments and 1-4 runs with hostile query ids through elinor-convert, elinor-evaluate and elinor-compare; everything the last two print compared with the definitions and the library on the generated data. Distinct = judgments.".into();
    ctx.assumptions = vec!["predicted scores have at most 9 significant digits (see the known finding of C26)".into(), "residual standard deviation above 0.01, so that the statistics exist".into()];
    ctx.require("numbers compared", 500);
    ctx.require("p-values compared", 100);
    for m in 1..=4 {
        ctx.require(&format!("pipelines with {m} systems"), 5);
    }
    let n = ctx.n(120, 2500);
    ctx.run("random", n, |r, _, o| c30_case(r, o, 14));
    let n = ctx.n(4, 60);
    ctx.run("many-topics", n, |r, _, o| c30_case(r, o, 180));
}
