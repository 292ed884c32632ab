//! C12, C13: TREC text and JSON records.
use crate::ensure;
use crate::gen;
use crate::p_store::check_store;
use crate::report::{CaseResult, Ctx, Obs};
use crate::rng::{hash_str, mix, Rng};
use elinor::trec::{parse_pred_rels_in_trec, parse_true_rels_in_trec};
use elinor::{ElinorError, PredRecord, PredScore, TrueRecord};
use serde_json::json;
use std::collections::BTreeMap;

const WS: [&str; 12] = [" ", " ", " ", "\t", "  ", " \t ", "\u{a0}", "\u{3000}", "\u{b}", "\u{c}", "\u{2003}", "\u{85}"];

/// A token without white space.
pub fn token(rng: &mut Rng) -> String {
    const CH: [&str; 36] = [
        "a", "b", "Z", "q", "0", "1", "9", "-", "_", ".", ":", "/", "#", "\"", "'", ",", ";", "\\", "{", "}", "é", "日", "本", "😀", "\u{301}", "\u{200b}", "\u{feff}", "=", "%", "\u{1}",
        "\0", "\u{1b}", "\u{1f}", "\u{7f}", "\u{2060}", "\u{fffd}",
    ];
    (0..rng.range(1, 9)).map(|_| *rng.pick(&CH)).collect()
}
/// A long token.
pub fn long(rng: &mut Rng) -> String {
    let n = *rng.pick(&[100, 255, 256, 257, 1000, 4096, 8192, 65535, 65536, 70000]);
    let t = token(rng);
    let mut s = t.repeat(n / t.len() + 1);
    s.push_str(&token(rng));
    s
}
fn seps(rng: &mut Rng, wild: bool) -> String {
    if wild {
        (0..rng.range(1, 3)).map(|_| *rng.pick(&WS)).collect()
    } else {
        " ".into()
    }
}
/// A finite number and a spelling of it.
pub fn number(rng: &mut Rng) -> (f64, String) {
    let x = match rng.below(8) {
        0 => rng.below(100) as f64,
        1 => rng.f64(),
        2 => -rng.f64() * 1000.0,
        3 => {
            let b = f64::from_bits(rng.u64());
            if b.is_finite() {
                b
            } else {
                1.5
            }
        }
        4 => *rng.pick(&[0.0, -0.0, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, 1.0 + f64::EPSILON, 1e22, 1e23, 9007199254740993.0, 0.1]),
        5 => (rng.below(2000001) as f64 - 1e6) / 1000.0,
        6 => rng.f64() * 10f64.powi(rng.range(0, 40) as i32 - 20),
        _ => (rng.u64() >> rng.below(64)) as f64,
    };
    let s = match rng.below(9) {
        0 => format!("{x:?}"),
        1 => format!("{x:e}"),
        2 => format!("{x:E}"),
        3 => format!("{x}"),
        4 if x.abs() < 1e15 => format!("{x:.3}"),
        5 if x.abs() < 1e15 => format!("{x:.30}"),
        6 => format!("{}{x:?}", if x.is_sign_negative() { "" } else { "+" }),
        7 if x.abs() < 1e15 && x.fract() == 0.0 => format!("{x:.0}."),
        _ => format!("{x:.17e}"),
    };
    // the decimal spelling is what counts; std's correctly rounded conversion is the oracle
    let v: f64 = s.parse().expect("std parses its own output");
    (v, s)
}

/// Is this token a decimal number (a 32-bit integer if `int`)? Spellings of infinity and NaN count as numbers.
fn is_number(s: &str, int: bool) -> bool {
    let digits = |s: &str| s.bytes().take_while(|b| b.is_ascii_digit()).count();
    let b = s.strip_prefix(['+', '-']).unwrap_or(s);
    let n = digits(b);
    if int {
        let v = b.bytes().try_fold(0u64, |v, c| (v < 1 << 40).then(|| v * 10 + (c.wrapping_sub(b'0')) as u64));
        return n > 0 && n == b.len() && v.is_some_and(|v| v <= i32::MAX as u64 + s.starts_with('-') as u64);
    }
    if ["inf", "infinity", "nan"].contains(&b.to_ascii_lowercase().as_str()) {
        return true;
    }
    let mut rest = &b[n..];
    let mut total = n;
    if let Some(r) = rest.strip_prefix('.') {
        let f = digits(r);
        total += f;
        rest = &r[f..];
    }
    if total == 0 {
        return false;
    }
    match rest.strip_prefix(['e', 'E']) {
        None => rest.is_empty(),
        Some(x) => {
            let x = x.strip_prefix(['+', '-']).unwrap_or(x);
            !x.is_empty() && digits(x) == x.len()
        }
    }
}
/// A token without white space that looks like a number and is none.
fn not_a_number(rng: &mut Rng, int: bool) -> String {
    const ODD: [char; 40] = [
        '0', '1', '2', '9', '+', '-', '.', 'e', 'E', ',', '_', '%', '\'', '"', '/', ':', ';', '*', '^', '#', '$', '(', ')', '<', '>', '=', 'x', 'd', 'D', 'f', 'L', 'k', 'n', 'i', '½', '٣', '−', '，', '\u{200b}', '\u{feff}',
    ];
    loop {
        let mut t: Vec<char> = match rng.below(4) {
            0 => (0..rng.range(1, 6)).map(|_| *rng.pick(&ODD)).collect(),
            1 => format!("{}", rng.below(1000)).chars().collect(),
            2 => format!("{:?}", rng.normal()).chars().collect(),
            _ => format!("{:e}", rng.normal() * 1e9).chars().collect(),
        };
        for _ in 0..rng.range(1, 2) {
            let any = rng.below(t.len() + 1);
            let at = *rng.pick(&[0, t.len(), t.len(), any]);
            t.insert(at.min(t.len()), *rng.pick(&ODD));
        }
        let s: String = t.into_iter().collect();
        if !is_number(&s, int) {
            return s;
        }
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Bad {
    No,
    Short,
    Score,
    Dup,
}

fn c12_case(rng: &mut Rng, obs: &mut Obs, max: usize, qrels: bool) -> CaseResult {
    let wild = rng.chance(0.6);
    let n = gen::size(rng, max);
    let nq = rng.range(1, n.max(1));
    let mut qs: Vec<String> = (0..nq).map(|i| if rng.chance(0.5) { token(rng) } else { format!("q{i}") }).collect();
    if rng.chance(0.02) {
        let j = rng.below(nq);
        qs[j] = long(rng);
        obs.count("texts with long ids", 1);
    }
    let mut model_t: BTreeMap<String, BTreeMap<String, u32>> = BTreeMap::new();
    let mut model_p: BTreeMap<String, BTreeMap<String, PredScore>> = BTreeMap::new();
    let mut lines: Vec<String> = vec![];
    let mut pairs: Vec<(String, String)> = vec![];
    while lines.len() < n {
        let q = rng.pick(&qs).clone();
        let d = if rng.chance(0.4) { token(rng) } else { format!("D{}", rng.below(4 * n)) };
        if pairs.len() < 2000 && pairs.iter().any(|p| p.0 == q && p.1 == d) || model_t.get(&q).map_or(false, |m| m.contains_key(&d)) || model_p.get(&q).map_or(false, |m| m.contains_key(&d)) {
            if rng.chance(0.02) {
                break;
            }
            continue;
        }
        let mut l = String::new();
        if wild && rng.chance(0.3) {
            l.push_str(&seps(rng, true));
        }
        l.push_str(&q);
        l.push_str(&seps(rng, wild));
        l.push_str(&token(rng));
        l.push_str(&seps(rng, wild));
        l.push_str(&d);
        l.push_str(&seps(rng, wild));
        if qrels {
            let s: i32 = match rng.below(8) {
                0..=3 => rng.range(0, 4) as i32 - 1,
                4 => rng.u64() as i32,
                5 => *rng.pick(&[i32::MIN, i32::MAX, -1, 0, 1, 255, 256, 65535, 65536, -2147483647, 127, 128]),
                6 => -(rng.below(1000) as i32),
                _ => rng.below(1000) as i32,
            };
            let sp = match rng.below(20) {
                0 | 1 if s < 0 => format!("-00{}", s.unsigned_abs()),
                0 | 1 => format!("00{s}"),
                2 if s >= 0 => format!("+{s}"),
                2 | 3 if s == 0 => "-0".into(),
                _ => s.to_string(),
            };
            l.push_str(&sp);
            model_t.entry(q.clone()).or_default().insert(d.clone(), if s < 0 { 0 } else { s as u32 });
            if s < 0 {
                obs.count("negative judgments", 1);
            }
        } else {
            l.push_str(&if rng.chance(0.5) { rng.below(1000).to_string() } else { token(rng) });
            l.push_str(&seps(rng, wild));
            let (v, sp) = number(rng);
            l.push_str(&sp);
            model_p.entry(q.clone()).or_default().insert(d.clone(), v.into());
        }
        for _ in 0..*rng.pick(&[0, 0, 1, 1, 2, 5]) {
            l.push_str(&seps(rng, wild));
            l.push_str(&token(rng));
        }
        if wild && rng.chance(0.3) {
            l.push_str(rng.pick(&["\r", " ", "\t", "\u{a0}", "\n"]));
        }
        pairs.push((q, d));
        lines.push(l);
    }
    // corruptions
    let mut short = false;
    let mut badscore = false;
    let mut dup = false;
    let need = if qrels { 4 } else { 5 };
    if rng.chance(0.5) && !lines.is_empty() {
        for _ in 0..*rng.pick(&[1, 1, 1, 2, 3]) {
            let at = rng.below(lines.len() + 1);
            match *rng.pick(&[Bad::Short, Bad::Score, Bad::Dup, Bad::No]) {
                Bad::Short => {
                    let k = rng.below(need);
                    let mut toks: Vec<String> = vec!["qx".into(), "0".into(), format!("dx{}", rng.u64()), "1".into()];
                    if !qrels {
                        toks.push("1".into());
                    }
                    toks.truncate(k);
                    lines.insert(at, toks.join(rng.pick(&WS)));
                    short = true;
                }
                Bad::Score => {
                    let random;
                    let s = if rng.chance(0.5) {
                        random = not_a_number(rng, qrels);
                        &random
                    } else if qrels {
                        *rng.pick(&["1.0", "x", "2147483648", "-2147483649", "1e3", "0x10", "--1", "1_000", "1,5", "５", "99999999999999999999", "-", "nan"])
                    } else {
                        *rng.pick(&["x", "1.2.3", "0x10", "--1", "1,5", "1_0", "５", "1e", "e5", ".", "-", "1f", "1d0", "1.0abc", "1e5.5"])
                    };
                    let sep = *rng.pick(&WS);
                    let id = rng.u64();
                    lines.insert(at, if qrels { format!("qx{sep}0{sep}dx{id}{sep}{s}{sep}1") } else { format!("qx{sep}0{sep}dx{id}{sep}1{sep}{s}{sep}1.0") });
                    badscore = true;
                }
                Bad::Dup => {
                    let (q, d) = rng.pick(&pairs).clone();
                    let sep = *rng.pick(&WS);
                    lines.insert(at, if qrels { format!("{q}{sep}zz{sep}{d}{sep}{}", rng.below(3)) } else { format!("{q}{sep}zz{sep}{d}{sep}1{sep}{}", rng.below(3)) });
                    dup = true;
                }
                Bad::No => {}
            }
        }
    }
    obs.sig(lines.iter().fold(qrels as u64, |h, l| mix(h ^ hash_str(l))));
    obs.sample(|| json!({"qrels": qrels, "lines": lines.len(), "head": lines.iter().take(3).collect::<Vec<_>>(), "short": short, "bad_score": badscore, "duplicate": dup}));
    obs.count("lines parsed", lines.len() as u64);
    let expect_err = |r: Result<(), ElinorError>, obs: &mut Obs| -> CaseResult {
        let ok = match &r {
            Err(ElinorError::InvalidFormat(_)) => short || badscore,
            Err(ElinorError::DuplicateEntry(_)) => dup,
            _ => false,
        };
        ensure!(ok, "malformed text (short={short} bad score={badscore} duplicate={dup}) gives {r:?}: {:?}", lines.iter().take(40).collect::<Vec<_>>());
        obs.count(if dup && !short && !badscore { "duplicates rejected" } else { "malformed texts rejected" }, 1);
        Ok(())
    };
    let bad = short || badscore || dup;
    let shown = || format!("{:?}", lines.iter().take(40).collect::<Vec<_>>());
    if qrels {
        let r = if rng.chance(0.5) { parse_true_rels_in_trec(&lines) } else { parse_true_rels_in_trec(gen::hinted(rng, lines.iter().map(|l| l.as_str()))) };
        if bad {
            return expect_err(r.map(|_| ()), obs);
        }
        let s = r.map_err(|e| format!("valid qrels rejected: {e}: {}", shown()))?;
        check_store("qrels", &s, &model_t, &["absent".to_string()], obs)?;
    } else {
        let r = if rng.chance(0.5) { parse_pred_rels_in_trec(&lines) } else { parse_pred_rels_in_trec(gen::hinted(rng, lines.iter().map(|l| l.as_str()))) };
        if bad {
            return expect_err(r.map(|_| ()), obs);
        }
        let s = r.map_err(|e| format!("valid run rejected: {e}: {}", shown()))?;
        check_store("run", &s, &model_p, &["absent".to_string()], obs)?;
        // -0.0 and 0.0 are equal as scores; the bits of all others must match exactly
        for (q, m) in &model_p {
            for (d, v) in m {
                let g = s.get_score(q, d).unwrap().into_inner();
                ensure!(g.to_bits() == v.into_inner().to_bits() || g == 0.0, "score {:e} parsed as {g:e}", v.into_inner());
                obs.count("scores compared bit by bit", 1);
            }
        }
    }
    obs.count("valid texts", 1);
    Ok(())
}
/// Arbitrary text never panics.
fn c12_garbage(rng: &mut Rng, obs: &mut Obs) -> CaseResult {
    let n = rng.range(0, 12);
    let lines: Vec<String> = (0..n)
        .map(|_| {
            let mut l = String::new();
            for _ in 0..rng.below(9) {
                match rng.below(4) {
                    0 => l.push_str(&token(rng)),
                    1 => l.push_str(rng.pick(&["nan", "inf", "-inf", "NaN", "1e999", "-1e999", "1e-999", "0", "-0", "9999999999", "infinity"])),
                    2 => l.push(char::from_u32(rng.below(0x11_0000) as u32).unwrap_or('x')),
                    _ => l.push_str(&number(rng).1),
                }
                l.push_str(rng.pick(&WS));
            }
            l
        })
        .collect();
    obs.sig(lines.iter().fold(7, |h, l| mix(h ^ hash_str(l))));
    // one result per call, whatever it is, and the same for owned and borrowed lines
    let a = parse_true_rels_in_trec(&lines).map(|s| s.records()).ok();
    let b = parse_true_rels_in_trec(lines.iter().map(|l| l.as_str())).map(|s| s.records()).ok();
    ensure!(a == b, "owned and borrowed lines differ: {lines:?}");
    let a = parse_pred_rels_in_trec(&lines).map(|s| s.into_records()).ok();
    let b = parse_pred_rels_in_trec(lines.clone()).map(|s| s.records()).ok();
    ensure!(a == b, "owned and borrowed lines differ: {lines:?}");
    obs.count("arbitrary texts", 1);
    Ok(())
}

pub fn c12(ctx: &mut Ctx) {
    ctx.rule = "Random qrels and run texts (ids from a hostile alphabet, every kind of white space, extra columns, extreme and oddly spelt numbers) with and without injected short lines, bad scores and duplicates; the parsed store is compared record by record with the generated one. Distinct = text.".into();
    ctx.assumptions = vec![
        "std's str::parse::<f64> is correctly rounded".into(),
        "spellings nan/inf of run scores and a plus sign in judgments are unspecified".into(),
        "a text with several different defects may report any of them".into(),
    ];
    ctx.require("valid texts", 2000);
    ctx.require("malformed texts rejected", 500);
    ctx.require("duplicates rejected", 200);
    ctx.require("negative judgments", 500);
    let n = ctx.n(15000, 400000);
    ctx.run("qrels", n, |r, _, o| c12_case(r, o, 40, true));
    ctx.run("run", n, |r, _, o| c12_case(r, o, 40, false));
    let n = ctx.n(40, 1000);
    ctx.run("large", n, |r, i, o| c12_case(r, o, 3000, i % 2 == 0));
    let n = ctx.n(16, 300);
    ctx.run("huge", n, |r, i, o| c12_case(r, o, 140_000, i % 2 == 0));
    let n = ctx.n(20000, 400000);
    ctx.run("garbage", n, |r, _, o| c12_garbage(r, o));
}

fn json_id(rng: &mut Rng) -> String {
    if rng.chance(0.002) {
        return long(rng);
    }
    match rng.below(4) {
        0 => String::new(),
        1 => token(rng),
        2 => (0..rng.below(6)).map(|_| char::from_u32(rng.below(0x80) as u32).unwrap()).collect(),
        _ => (0..rng.below(8)).filter_map(|_| char::from_u32(rng.below(0x11_0000) as u32)).collect(),
    }
}
fn esc(rng: &mut Rng, s: &str) -> String {
    // our own JSON string encoder, with optional \u escapes
    let mut o = String::from("\"");
    for c in s.chars() {
        if c == '"' || c == '\\' {
            o.push('\\');
            o.push(c);
        } else if (c as u32) < 0x20 || rng.chance(0.2) {
            let mut b = [0u16; 2];
            for u in c.encode_utf16(&mut b) {
                o.push_str(&format!("\\u{u:04x}"));
            }
        } else {
            o.push(c);
        }
    }
    o.push('"');
    o
}
/// Checks the shape of a serialised record, independent of the Record type.
fn check_object(js: &str, q: &str, d: &str) -> Result<serde_json::Number, String> {
    let v: serde_json::Value = serde_json::from_str(js).map_err(|e| format!("invalid JSON {js:?}: {e}"))?;
    let o = v.as_object().ok_or_else(|| format!("not an object: {js}"))?;
    let mut keys: Vec<&str> = o.keys().map(|s| s.as_str()).collect();
    keys.sort();
    ensure!(keys == ["doc_id", "query_id", "score"], "fields are {keys:?} in {js}");
    ensure!(o["query_id"].as_str() == Some(q) && o["doc_id"].as_str() == Some(d), "ids differ in {js}: {q:?} {d:?}");
    match &o["score"] {
        serde_json::Value::Number(n) => Ok(n.clone()),
        x => Err(format!("score is not a number but {x} in {js}")),
    }
}
fn permuted(rng: &mut Rng, q: &str, d: &str, score: &str) -> String {
    let mut f = vec![format!("\"query_id\":{}", esc(rng, q)), format!("\"doc_id\" : {}", esc(rng, d)), format!("\"score\":{score}")];
    rng.shuffle(&mut f);
    format!("{{{}}}", f.join(rng.pick(&[",", ", ", " ,\n\t"])))
}
fn c13_case(rng: &mut Rng, obs: &mut Obs) -> CaseResult {
    let (q, d) = (json_id(rng), json_id(rng));
    // true record
    let s: u32 = match rng.below(4) {
        0 => rng.below(5) as u32,
        1 => rng.u64() as u32,
        2 => *rng.pick(&[0, 1, u32::MAX, u32::MAX - 1, 1 << 31, (1 << 31) - 1, 1 << 24, (1 << 24) + 1]),
        _ => 1 << rng.below(32),
    };
    let r = TrueRecord { query_id: q.clone(), doc_id: d.clone(), score: s };
    for js in [serde_json::to_string(&r), serde_json::to_string_pretty(&r), serde_json::to_value(&r).map(|v| v.to_string())] {
        let js = js.map_err(|e| format!("{r:?} does not serialise: {e}"))?;
        let n = check_object(&js, &q, &d)?;
        ensure!(n.as_u64() == Some(s as u64), "true score {s} serialised as {n}");
        let back: TrueRecord<String> = serde_json::from_str(&js).map_err(|e| format!("{js} does not deserialise: {e}"))?;
        ensure!(back == r, "{r:?} came back as {back:?}");
        let back: TrueRecord<String> = serde_json::from_reader(js.as_bytes()).map_err(|e| format!("{js} does not deserialise from a reader: {e}"))?;
        ensure!(back == r, "{r:?} came back as {back:?}");
        obs.count("round trips", 2);
    }
    let js = permuted(rng, &q, &d, &s.to_string());
    let back: TrueRecord<String> = serde_json::from_str(&js).map_err(|e| format!("{js} does not deserialise: {e}"))?;
    ensure!(back == r, "{js} read as {back:?}");
    // predicted record
    let (x, _) = number(rng);
    let r = PredRecord { query_id: q.clone(), doc_id: d.clone(), score: PredScore::from(x) };
    for js in [serde_json::to_string(&r), serde_json::to_string_pretty(&r), serde_json::to_value(&r).map(|v| v.to_string())] {
        let js = js.map_err(|e| format!("{r:?} does not serialise: {e}"))?;
        let n = check_object(&js, &q, &d)?;
        ensure!(n.as_f64().map(f64::to_bits) == Some(x.to_bits()) || n.as_f64() == Some(x), "predicted score {x:e} serialised as {n}");
        let back: PredRecord<String> = serde_json::from_str(&js).map_err(|e| format!("{js} does not deserialise: {e}"))?;
        ensure!(back == r, "{r:?} came back as {back:?}");
        obs.count("round trips", 1);
    }
    let i = rng.below(1000);
    for (sp, want) in [(format!("{x:?}"), x), (format!("{i}"), i as f64), (format!("-{i}"), -(i as f64)), (format!("{x:e}"), x)] {
        let js = permuted(rng, &q, &d, &sp);
        let back: PredRecord<String> = serde_json::from_str(&js).map_err(|e| format!("{js} does not deserialise: {e}"))?;
        ensure!(back.score.into_inner() == want && back.query_id == q && back.doc_id == d, "{js} read as {back:?}");
        obs.count("field orders", 1);
    }
    // other id types
    let c = char::from_u32(rng.below(0x11_0000) as u32).unwrap_or('"');
    let r = TrueRecord { query_id: c, doc_id: 'd', score: s };
    let js = serde_json::to_string(&r).map_err(|e| e.to_string())?;
    let back: TrueRecord<char> = serde_json::from_str(&js).map_err(|e| format!("{js}: {e}"))?;
    ensure!(back == r, "{r:?} came back as {back:?}");
    let r = PredRecord { query_id: rng.u64(), doc_id: rng.u64(), score: PredScore::from(x) };
    let js = serde_json::to_string(&r).map_err(|e| e.to_string())?;
    let back: PredRecord<u64> = serde_json::from_str(&js).map_err(|e| format!("{js}: {e}"))?;
    ensure!(back == r, "{r:?} came back as {back:?}");
    // rejections
    let (eq, ed) = (esc(rng, &q), esc(rng, &d));
    let mut bad: Vec<(String, bool, bool)> = vec![
        (format!("{{\"query_id\":{eq},\"doc_id\":{ed}}}"), true, true),
        (format!("{{\"query_id\":{eq},\"score\":1}}"), true, true),
        (format!("{{\"doc_id\":{ed},\"score\":1}}"), true, true),
        (format!("{{\"query_id\":{eq},\"doc_id\":{ed},\"Score\":1}}"), true, true),
        (format!("{{\"query_id\":{eq},\"doc\":{ed},\"score\":1}}"), true, true),
        ("{}".into(), true, true),
        ("".into(), true, true),
        ("null".into(), true, true),
        (format!("{{\"query_id\":{eq},\"doc_id\":{ed},\"score\":1"), true, true),
    ];
    for s in ["\"1\"", "null", "true", "[1]", "{}", "\"\"", "NaN", "Infinity", "1e", "0x1", "\"1.5\""] {
        bad.push((permuted(rng, &q, &d, s), true, true));
    }
    for s in ["-1", "1.5", "0.5", "4294967296", "-0.5", "1e10", "18446744073709551616"] {
        bad.push((permuted(rng, &q, &d, s), true, false));
    }
    for s in ["1", "null", "[]", "{}"] {
        bad.push((format!("{{\"query_id\":{s},\"doc_id\":{ed},\"score\":1}}"), true, true));
        bad.push((format!("{{\"query_id\":{eq},\"doc_id\":{s},\"score\":1}}"), true, true));
    }
    for (js, t, p) in bad {
        if t {
            ensure!(serde_json::from_str::<TrueRecord<String>>(&js).is_err(), "accepted as a true record: {js}");
        }
        if p {
            ensure!(serde_json::from_str::<PredRecord<String>>(&js).is_err(), "accepted as a predicted record: {js}");
        }
        obs.count("rejections", 1);
    }
    obs.sig(mix(hash_str(&q) ^ mix(hash_str(&d) ^ mix(s as u64 ^ mix(x.to_bits())))));
    obs.sample(|| json!({"query_id": q, "doc_id": d, "true": s, "pred": x}));
    Ok(())
}
pub fn c13(ctx: &mut Ctx) {
    ctx.rule = "Random records (hostile id strings, extreme scores) serialised in three ways, inspected as plain JSON and read back; hand-written JSON in every field order with random escapes; a fixed list of malformed objects. Distinct = record.".into();
    ctx.assumptions = vec!["serde_json (with float_roundtrip) is the JSON implementation used by the reader".into(), "unknown extra fields and true scores spelt like 1.0 are unspecified".into()];
    ctx.require("round trips", 20000);
    ctx.require("rejections", 20000);
    let n = ctx.n(10000, 300000);
    ctx.run("records", n, |r, _, o| c13_case(r, o));
}
