//! A06: the policy of a form upload.

use crate::api::Chunk;
use crate::auth::{epoch, T0};
use crate::rec::{Call, Fixture};
use crate::report::{Cx, Meta, R};
use crate::sig::{Cred, Form};
use crate::store::*;
use crate::{api, ensure, fail, sys};
use bytes::Bytes;
use s3_server::storages::fs::FileSystem;
use s3_server::{S3Service, SimpleAuth};

pub fn metas() -> Vec<Meta> {
    vec![Meta {
        id: "A06",
        level: "exploration",
        rule: "states: distinct forms. all conditions (exact, prefix; in object and in list notation, with escapes, white space and other letter case) on each of seven fields against all altered values of the field; all products of fulfilled, violated and missing conditions on six subjects; all content-length-ranges over boundary numbers x file sizes x splits of the body; all expirations around the time of the request; every prefix of a policy and other malformed policies; every form with one more field. Each verdict is compared with an evaluator that works on the conditions from which the document was written. outcomes: status and error code",
        assumptions: &[
            "conditions on fields that the form does not have are not judged if the empty value would fulfil them",
            "a form that is sent exactly at the expiration is not judged",
            "fields of the signature itself (x-amz-algorithm, -credential, -date) need no condition, since the signature covers them",
            "the policy is not required to name the bucket",
        ],
        quick_secs: 400,
        thorough_secs: 1500,
        run: a06,
    }]
}

#[derive(Clone, Debug)]
enum Cond {
    Eq(String, String),
    Starts(String, String),
    Range(u64, u64),
}

/// how a document is written
#[derive(Clone, Copy, Debug, Default)]
struct Style {
    /// exact conditions as objects
    object: bool,
    /// all characters of strings as \u escapes
    escape: bool,
    space: bool,
    /// numbers as strings
    quoted: bool,
    upper: bool,
    reverse: bool,
}

fn string(s: &str, st: Style) -> String {
    let mut o = String::from("\"");
    for u in s.encode_utf16() {
        match char::from_u32(u32::from(u)) {
            Some(c) if !st.escape && c != '"' && c != '\\' && c >= ' ' => o.push(c),
            _ if !st.escape && (0xd800..0xe000).contains(&u) => o.push_str(&format!("\\u{u:04x}")),
            _ => o.push_str(&format!("\\u{u:04X}")),
        }
    }
    o.push('"');
    o
}

fn condition(c: &Cond, st: Style) -> String {
    let sp = if st.space { " \n\t" } else { "" };
    let name = |f: &str| if st.upper { f.to_uppercase() } else { f.to_owned() };
    match c {
        Cond::Eq(f, v) if st.object => format!("{{{sp}{}{sp}:{sp}{}{sp}}}", string(&name(f), st), string(v, st)),
        Cond::Eq(f, v) => format!("[{sp}\"eq\"{sp},{sp}{},{}{sp}]", string(&format!("${}", name(f)), st), string(v, st)),
        Cond::Starts(f, v) => format!("[\"starts-with\"{sp},{sp}{},{}{sp}]", string(&format!("${}", name(f)), st), string(v, st)),
        Cond::Range(a, b) if st.quoted => format!("[\"content-length-range\",\"{a}\",\"{b}\"]"),
        Cond::Range(a, b) => format!("[\"content-length-range\"{sp},{sp}{a},{b}{sp}]"),
    }
}

fn document(expiration: &str, conds: &[Cond], st: Style) -> String {
    let mut v: Vec<String> = conds.iter().map(|c| condition(c, st)).collect();
    if st.reverse {
        v.reverse();
    }
    let list = v.join(if st.space { " , " } else { "," });
    let (e, c) = (format!("\"expiration\":{}", string(expiration, st)), format!("\"conditions\":[{list}]"));
    if st.reverse {
        format!("{{{c},{e}}}")
    } else {
        format!("{{{e},{c}}}")
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Verdict {
    Accept,
    Refuse,
    Open,
}

/// what the conditions mean
fn judge(conds: &[Cond], fields: &[(String, String)], bucket: &str, size: u64) -> Verdict {
    let mut verdict = Verdict::Accept;
    let same = |a: &str, b: &str| a.eq_ignore_ascii_case(b);
    for c in conds {
        let (f, v, exact) = match c {
            Cond::Range(a, b) => {
                if size < *a || size > *b {
                    return Verdict::Refuse;
                }
                continue;
            }
            Cond::Eq(f, v) => (f, v, true),
            Cond::Starts(f, v) => (f, v, false),
        };
        let mut values: Vec<&str> = fields.iter().filter(|x| same(&x.0, f)).map(|x| x.1.as_str()).collect();
        if same(f, "bucket") {
            values.push(bucket);
        }
        let ok = |x: &str| if exact { x == v } else { x.starts_with(v.as_str()) };
        if values.is_empty() {
            if !ok("") {
                return Verdict::Refuse;
            }
            verdict = Verdict::Open;
        }
        if !values.iter().all(|x| ok(x)) {
            return Verdict::Refuse;
        }
    }
    const SIGNATURE: &[&str] = &["policy", "x-amz-algorithm", "x-amz-credential", "x-amz-date", "x-amz-signature"];
    for (n, _) in fields {
        let n = n.to_ascii_lowercase();
        let named = conds.iter().any(|c| matches!(c, Cond::Eq(f, _) | Cond::Starts(f, _) if same(f, &n)));
        if !named && !n.starts_with("x-ignore-") && !SIGNATURE.contains(&n.as_str()) {
            return Verdict::Refuse;
        }
    }
    verdict
}

/// send the form and compare with the verdict
fn check(cx: &mut Cx, fx: &Fixture, f: &Form, verdict: Verdict, why: &str, pieces: &[usize]) -> Result<Option<Call>, crate::report::Fail> {
    cx.add("evaluations", 1);
    let mut rq = f.request("aaa");
    if !pieces.is_empty() {
        let b = f.bytes();
        let mut at = 0;
        let mut v = vec![];
        for p in pieces.iter().copied().chain(std::iter::once(b.len())) {
            let end = (at + p).min(b.len());
            v.push(Chunk::Data(Bytes::copy_from_slice(&b[at..end])));
            at = end;
        }
        rq.body = v;
    }
    cx.state(&(rq.body_bytes(), why));
    let (rs, calls) = fx.run(&rq).map_err(|e| format!("{e}: {why}"))?;
    cx.outcome(&(rs.status, rs.code()));
    let effect: Vec<&Call> = calls.iter().filter(|c| c.effective()).collect();
    let shown = || calls.iter().map(Call::show).collect::<Vec<_>>().join(", ");
    match verdict {
        Verdict::Open => {}
        Verdict::Accept => {
            ensure!(rs.status < 300 && effect.len() == 1 && calls.len() == 1, "a form that fulfils its policy is not executed: {why}: {} -> {} -> {}", rq.show(), shown(), rs.show());
            let c = effect[0];
            let key = f.fields.iter().rev().find(|x| x.0.eq_ignore_ascii_case("key")).map(|x| x.1.clone()).unwrap_or_default();
            ensure!(
                c.op == "put_object" && c.body == Some(Ok(f.file.clone())) && c.input.contains(&format!("key: {key:?}")) && c.input.contains("bucket: \"aaa\""),
                "a form is not executed as sent: {why}: {}",
                shown()
            );
            return Ok(Some(c.clone()));
        }
        Verdict::Refuse => {
            ensure!(effect.is_empty(), "a form that violates its policy is executed: {why}: {} -> {}", rq.show(), shown());
            ensure!(rs.status >= 400, "a form that violates its policy is not refused: {why}: {} -> {}", rq.show(), rs.show());
        }
    }
    Ok(None)
}

const FAR: &str = "2999-12-31T12:00:00.000Z";

/// conditions which allow all fields
fn open(fields: &[(String, String)], but: &[&str]) -> Vec<Cond> {
    fields.iter().filter(|x| !but.contains(&x.0.as_str())).map(|x| Cond::Starts(x.0.clone(), String::new())).collect()
}

fn with_fields(fields: &[(&str, &str)], file: &[u8]) -> Form {
    let mut f = Form::new("", file);
    f.fields = fields.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
    f
}

fn altered(v: &str) -> Vec<String> {
    let mut out = vec![v.to_owned(), String::new(), "x".into(), format!("{v}x"), format!("x{v}"), format!(" {v}"), format!("{v} "), v.to_uppercase(), v.to_lowercase(), format!("{v}{v}")];
    let chars: Vec<char> = v.chars().collect();
    for i in 0..=chars.len() {
        out.push(chars[..i].iter().collect());
        out.push(chars[i..].iter().collect());
        let mut c = chars.clone();
        if i < c.len() {
            c[i] = if c[i] == 'z' { 'y' } else { 'z' };
            out.push(c.iter().collect());
        }
    }
    out.sort();
    out.dedup();
    out
}

const SUBJECTS: &[(&str, &[&str])] = &[
    ("key", &["k", "user/Bob/a b.txt", "ü日本😀", "a\"b\\c"]),
    ("acl", &["public-read", "private"]),
    ("content-type", &["image/jpeg", "text/plain; charset=utf-8", "image/png,image/gif"]),
    ("x-amz-meta-color", &["Blue", "", "14365123651274"]),
    ("success_action_status", &["201"]),
    ("x-amz-storage-class", &["STANDARD"]),
    ("tagging", &["<Tagging><TagSet/></Tagging>"]),
];

fn a06(cx: &mut Cx) {
    sys::fix_clock(Some((T0 + 60, 500_000_000)));
    let c = Cred::default();
    let fx = Fixture::new(&[&c]);
    singles(cx, &fx, &c);
    buckets(cx, &fx, &c);
    products(cx, &fx, &c);
    ranges(cx, &fx, &c);
    expirations(cx, &fx, &c);
    malformed(cx, &fx, &c);
    extra(cx, &fx, &c);
    stored(cx, &c);
}

fn styles(thorough: bool) -> Vec<Style> {
    let d = Style::default();
    let mut v = vec![
        d,
        Style { object: true, ..d },
        Style { escape: true, ..d },
        Style { space: true, object: true, ..d },
        Style { upper: true, reverse: true, ..d },
        Style { upper: true, object: true, escape: true, ..d },
    ];
    if thorough {
        v.clear();
        for i in 0..32 {
            v.push(Style { object: i & 1 > 0, escape: i & 2 > 0, space: i & 4 > 0, upper: i & 8 > 0, reverse: i & 16 > 0, quoted: false });
        }
    }
    v
}

/// one condition on one field
fn singles(cx: &mut Cx, fx: &Fixture, c: &Cred) {
    for (field, values) in SUBJECTS {
        for value in *values {
            for kind in ["eq", "starts-with", "absent"] {
                cx.case(
                    || format!("{kind} on {field} = {value:?}"),
                    |cx| {
                        let mut fields = vec![("key", "k"), ("x-amz-meta-other", "1")];
                        fields.retain(|x| x.0 != *field);
                        if kind != "absent" {
                            fields.push((field, value));
                        } else if *field == "key" {
                            return Ok(());
                        }
                        let base = with_fields(&fields, b"content");
                        for v in altered(value) {
                            for st in styles(cx.thorough) {
                                for exact in [true, false] {
                                    if (kind == "eq") != exact && kind != "absent" {
                                        continue;
                                    }
                                    let mut conds = open(&base.fields, &[field]);
                                    conds.push(if exact { Cond::Eq(field.to_string(), v.clone()) } else { Cond::Starts(field.to_string(), v.clone()) });
                                    let verdict = judge(&conds, &base.fields, "aaa", 7);
                                    let doc = document(FAR, &conds, st);
                                    let f = base.clone().sign(c, &doc);
                                    check(cx, fx, &f, verdict, &doc, &[])?;
                                    // names of the fields in other case
                                    let mut g = f;
                                    for x in &mut g.fields {
                                        x.0 = x.0.to_uppercase();
                                    }
                                    check(cx, fx, &g, verdict, &doc, &[])?;
                                }
                            }
                        }
                        Ok(())
                    },
                );
            }
        }
    }
    // many conditions, one of which does not hold
    for n in [10usize, 33, 65, 101, 129] {
        cx.case(
            || format!("{n} conditions"),
            |cx| {
                let names: Vec<String> = (0..n).map(|i| format!("x-amz-meta-{i}")).collect();
                let mut fields = vec![("key", "user/bob")];
                fields.extend(names.iter().map(|n| (n.as_str(), "value")));
                let base = with_fields(&fields, b"content");
                for bad in (0..=n).filter(|i| n < 50 || i % 10 == 1 || *i + 3 > n) {
                    for k in 0..3 {
                        let mut conds: Vec<Cond> = vec![Cond::Eq("key".into(), "user/bob".into())];
                        for (i, name) in names.iter().enumerate() {
                            match (i == bad, k) {
                                (false, _) if i % 3 == 0 => conds.push(Cond::Starts(name.clone(), "val".into())),
                                (false, _) => conds.push(Cond::Eq(name.clone(), "value".into())),
                                (true, 0) => conds.push(Cond::Eq(name.clone(), "valu".into())),
                                (true, 1) => conds.push(Cond::Starts(name.clone(), "values".into())),
                                // not mentioned at all
                                _ => {}
                            }
                        }
                        let doc = document(FAR, &conds, Style { object: k == 1, ..Style::default() });
                        check(cx, fx, &base.clone().sign(c, &doc), judge(&conds, &base.fields, "aaa", 7), &doc, &[])?;
                    }
                }
                Ok(())
            },
        );
    }
    // two conditions on one field
    cx.case(
        || "two conditions on one field".into(),
        |cx| {
            let base = with_fields(&[("key", "user/bob")], b"content");
            let vs = ["user/bob", "user/", "", "user/bob2", "other", "u"];
            for a in vs {
                for b in vs {
                    for k in 0..4 {
                        let make = |exact: bool, v: &str| if exact { Cond::Eq("key".into(), v.into()) } else { Cond::Starts("key".into(), v.into()) };
                        let conds = vec![make(k & 1 > 0, a), make(k & 2 > 0, b)];
                        let doc = document(FAR, &conds, Style { object: a < b, ..Style::default() });
                        check(cx, fx, &base.clone().sign(c, &doc), judge(&conds, &base.fields, "aaa", 7), &doc, &[])?;
                    }
                }
            }
            Ok(())
        },
    );
}

fn buckets(cx: &mut Cx, fx: &Fixture, c: &Cred) {
    for own in [None, Some("aaa"), Some("bbb"), Some("")] {
        cx.case(
            || format!("conditions on the bucket, form with bucket {own:?}"),
            |cx| {
                let mut fields = vec![("key", "k")];
                if let Some(b) = own {
                    fields.push(("bucket", b));
                }
                let base = with_fields(&fields, b"content");
                for v in altered("aaa").into_iter().chain(["bbb".into(), "aaab".into(), "/aaa".into()]) {
                    for exact in [true, false] {
                        for st in styles(cx.thorough) {
                            let mut conds = open(&base.fields, &["bucket"]);
                            conds.push(if exact { Cond::Eq("bucket".into(), v.clone()) } else { Cond::Starts("bucket".into(), v.clone()) });
                            let doc = document(FAR, &conds, st);
                            check(cx, fx, &base.clone().sign(c, &doc), judge(&conds, &base.fields, "aaa", 7), &doc, &[])?;
                        }
                    }
                }
                Ok(())
            },
        );
    }
}

/// fulfilled, violated and missing conditions in all combinations
fn products(cx: &mut Cx, fx: &Fixture, c: &Cred) {
    let fields = [("key", "user/k"), ("acl", "private"), ("content-type", "image/png"), ("x-amz-meta-a", "v")];
    let base = with_fields(&fields, b"content");
    let subjects = 6usize;
    for bits in 0..4usize.pow(2) {
        cx.case(
            || format!("combinations of conditions {bits}"),
            |cx| {
                for rest in 0..4usize.pow(subjects as u32 - 2) {
                    let code = bits + rest * 16;
                    let mut conds = vec![];
                    for s in 0..subjects {
                        let state = code / 4usize.pow(s as u32) % 4;
                        if s == 4 {
                            match state {
                                0 => conds.push(Cond::Eq("bucket".into(), "aaa".into())),
                                1 => conds.push(Cond::Eq("bucket".into(), "bbb".into())),
                                2 => conds.push(Cond::Starts("bucket".into(), "a".into())),
                                _ => {}
                            }
                        } else if s == 5 {
                            match state {
                                0 => conds.push(Cond::Range(0, 7)),
                                1 => conds.push(Cond::Range(8, 100)),
                                2 => conds.push(Cond::Range(0, 6)),
                                _ => {}
                            }
                        } else {
                            let (n, v) = fields[s];
                            match state {
                                0 => conds.push(Cond::Eq(n.into(), v.into())),
                                1 => conds.push(Cond::Starts(n.into(), v[..1].into())),
                                2 => conds.push(Cond::Eq(n.into(), format!("{v}2"))),
                                _ => {}
                            }
                        }
                    }
                    let verdict = judge(&conds, &base.fields, "aaa", 7);
                    let doc = document(FAR, &conds, Style { object: code % 3 == 0, reverse: code % 2 == 0, ..Style::default() });
                    check(cx, fx, &base.clone().sign(c, &doc), verdict, &doc, &[])?;
                }
                Ok(())
            },
        );
    }
}

fn ranges(cx: &mut Cx, fx: &Fixture, c: &Cred) {
    let sizes: &[usize] = if cx.thorough { &[0, 1, 2, 5, 100, 4096, 8193, 70_000] } else { &[0, 1, 5, 8193] };
    for &n in sizes {
        for quoted in [false, true] {
            cx.case(
                || format!("content-length-range with files of {n} bytes{}", if quoted { ", numbers as strings" } else { "" }),
                |cx| {
                    let l = n as u64;
                    let mut ns = vec![0, 1, l.saturating_sub(1), l, l + 1, 10 * l + 3, u64::from(u32::MAX), u64::from(u32::MAX) + 1, i64::MAX as u64, u64::MAX];
                    ns.sort_unstable();
                    ns.dedup();
                    let base = with_fields(&[("key", "k")], &content(3, n));
                    let total = base.clone().sign(c, "{}").bytes().len();
                    for &a in &ns {
                        for &b in &ns {
                            let conds = vec![Cond::Starts("key".into(), String::new()), Cond::Range(a, b)];
                            // numbers as strings are not documented
                            let verdict = match judge(&conds, &base.fields, "aaa", l) {
                                Verdict::Accept if quoted => Verdict::Open,
                                v => v,
                            };
                            let doc = document(FAR, &conds, Style { quoted, ..Style::default() });
                            let f = base.clone().sign(c, &doc);
                            let end = total.saturating_sub(n.min(200));
                            for pieces in [vec![], vec![total / 2], vec![end - 40, 1, 1, 20], vec![1000; total / 1000]] {
                                check(cx, fx, &f, verdict, &doc, &pieces)?;
                            }
                        }
                    }
                    // two of them
                    for (a, b, x, y) in [(0, l, l, l), (0, l, l + 1, l + 2), (0, l, 0, l.saturating_sub(1)), (l, l + 5, 0, l), (0, 0, 0, u64::MAX), (l + 1, l + 2, 0, l)] {
                        let conds = vec![Cond::Range(a, b), Cond::Starts("key".into(), String::new()), Cond::Range(x, y)];
                        let doc = document(FAR, &conds, Style::default());
                        check(cx, fx, &base.clone().sign(c, &doc), judge(&conds, &base.fields, "aaa", l), &doc, &[])?;
                    }
                    Ok(())
                },
            );
        }
    }
}

fn expirations(cx: &mut Cx, fx: &Fixture, c: &Cred) {
    let base = with_fields(&[("key", "k")], b"content");
    let conds = open(&base.fields, &[]);
    // (expiration, seconds since 1970)
    let mut table: Vec<(String, i64)> = vec![];
    for (y, m, d, h, mi, s) in [
        (2013, 5, 24, 0, 0, 0),
        (2013, 5, 23, 23, 59, 59),
        (2012, 2, 29, 12, 0, 0),
        (2015, 12, 31, 23, 59, 59),
        (2016, 1, 1, 0, 0, 0),
        (2000, 2, 29, 1, 2, 3),
        (2100, 3, 1, 0, 0, 0),
        (1999, 12, 31, 10, 20, 30),
    ] {
        let t = epoch(y, m, d) + h * 3600 + mi * 60 + s;
        let day = format!("{y:04}-{m:02}-{d:02}");
        for (end, add) in [("Z", 0), (".000Z", 0), (".999Z", 0), ("+00:00", 0), ("+02:00", -7200), ("-05:30", 19800)] {
            table.push((format!("{day}T{h:02}:{mi:02}:{s:02}{end}"), t + add));
        }
    }
    for (text, t) in &table {
        cx.case(
            || format!("expiration {text}"),
            |cx| {
                let doc = document(text, &conds, Style::default());
                let f = base.clone().sign(c, &doc);
                for d in [-400 * 86400, -86400, -3600, -60, -2, -1, 1, 2, 60, 3600, 86400, 400 * 86400] {
                    sys::fix_clock(Some((t + d, 0)));
                    // the fraction of the second is below 1
                    let verdict = if d < 0 {
                        Verdict::Accept
                    } else if d == 0 {
                        Verdict::Open
                    } else {
                        Verdict::Refuse
                    };
                    let r = check(cx, fx, &f, verdict, &format!("{doc}, {d} s after it"), &[]);
                    sys::fix_clock(Some((T0 + 60, 500_000_000)));
                    r?;
                }
                Ok(())
            },
        );
    }
    cx.case(
        || "no expiration, or none that is a time".into(),
        |cx| {
            let list = conds.iter().map(|c| condition(c, Style::default())).collect::<Vec<_>>().join(",");
            for e in [
                "null", "0", "1", "true", "4102444800", "[]", "{}", "\"\"", "\"2999\"", "\"2999-12-31\"", "\"never\"", "\"9999999999\"", "\"2999-13-01T00:00:00Z\"",
                "\"2999-02-30T00:00:00Z\"", "\"2999-12-31T25:00:00Z\"", "\"Mon, 31 Dec 2999 12:00:00 GMT\"", "[\"2999-12-31T12:00:00.000Z\"]",
            ] {
                let doc = format!("{{\"expiration\":{e},\"conditions\":[{list}]}}");
                check(cx, fx, &base.clone().sign(c, &doc), Verdict::Refuse, &doc, &[])?;
            }
            for doc in [
                format!("{{\"conditions\":[{list}]}}"),
                "{}".to_owned(),
                format!("{{\"expires\":\"{FAR}\",\"conditions\":[{list}]}}"),
                format!("{{\"expiration\":\"{FAR}\"}}"),
                format!("[\"{FAR}\",[{list}]]"),
                format!("{{\"policy\":{{\"expiration\":\"{FAR}\",\"conditions\":[{list}]}}}}"),
            ] {
                check(cx, fx, &base.clone().sign(c, &doc), Verdict::Refuse, &doc, &[])?;
            }
            Ok(())
        },
    );
}

fn malformed(cx: &mut Cx, fx: &Fixture, c: &Cred) {
    let base = with_fields(&[("key", "k")], b"content");
    let good = document(FAR, &open(&base.fields, &[]), Style::default());
    cx.case(
        || "parts of a policy".into(),
        |cx| {
            check(cx, fx, &base.clone().sign(c, &good), Verdict::Accept, &good, &[])?;
            for i in 0..good.len() {
                check(cx, fx, &base.clone().sign(c, &good[..i]), Verdict::Refuse, &good[..i], &[])?;
                if i > 0 {
                    check(cx, fx, &base.clone().sign(c, &good[i..]), Verdict::Refuse, &good[i..], &[])?;
                }
            }
            for tail in ["x", "}", "{}", ",", "\0", "[]"] {
                let doc = format!("{good}{tail}");
                check(cx, fx, &base.clone().sign(c, &doc), Verdict::Refuse, &doc, &[])?;
            }
            Ok(())
        },
    );
    cx.case(
        || "conditions that are none".into(),
        |cx| {
            let ok = "[\"starts-with\",\"$key\",\"\"]";
            for bad in [
                "[]", "[\"eq\"]", "[\"eq\",\"$key\"]", "[\"eq\",\"$key\",\"k\",\"k\"]", "[\"ne\",\"$key\",\"x\"]", "[\"\",\"$key\",\"k\"]", "[\"ends-with\",\"$key\",\"\"]",
                "[\"eq\",\"$key\",1]", "[\"eq\",\"$key\",null]", "[\"eq\",1,\"k\"]", "[\"starts-with\",\"$key\",[]]", "{\"key\":1}", "{\"key\":null}", "{\"key\":[\"k\"]}", "{\"key\":{}}",
                "[\"content-length-range\",1]", "[\"content-length-range\",0,100,1]", "[\"content-length-range\",\"a\",\"b\"]", "[\"content-length-range\",0,-1]",
                "[\"content-length-range\",0,100.5]", "[\"content-length-range\",null,null]", "[\"content-length-range\",0,\"\"]",
                "null", "1", "\"key\"", "true", "[[\"eq\",\"$key\",\"k\"]]",
            ] {
                for list in [bad.to_owned(), format!("{ok},{bad}"), format!("{bad},{ok}")] {
                    let doc = format!("{{\"expiration\":\"{FAR}\",\"conditions\":[{list}]}}");
                    check(cx, fx, &base.clone().sign(c, &doc), Verdict::Refuse, &doc, &[])?;
                }
            }
            for list in ["null", "{}", "\"\"", "1", ok, "{\"key\":\"k\"}"] {
                let doc = format!("{{\"expiration\":\"{FAR}\",\"conditions\":{list}}}");
                // a single condition that is not in a list
                check(cx, fx, &base.clone().sign(c, &doc), Verdict::Refuse, &doc, &[])?;
            }
            Ok(())
        },
    );
    cx.case(
        || "policies that are not base64 of a document".into(),
        |cx| {
            for p in [good.clone(), String::new(), "e30=".into(), "e30".into(), "====".into(), "AAAA".into(), "//79".into(), format!("{}=", api::b64(good.as_bytes())), format!(" {}", api::b64(good.as_bytes()))] {
                let mut f = base.clone().sign(c, &good);
                for x in &mut f.fields {
                    if x.0 == "policy" {
                        x.1 = p.clone();
                    }
                    if x.0 == "x-amz-signature" {
                        x.1 = c.signature(&p);
                    }
                }
                check(cx, fx, &f, Verdict::Refuse, &p, &[])?;
            }
            Ok(())
        },
    );
}

/// fields that no condition mentions
fn extra(cx: &mut Cx, fx: &Fixture, c: &Cred) {
    for (name, ignored) in [
        ("acl", false), ("cache-control", false), ("content-type", false), ("content-disposition", false), ("content-encoding", false), ("expires", false), ("tagging", false),
        ("x-amz-meta-evil", false), ("X-Amz-Meta-Evil", false), ("x-amz-storage-class", false), ("x-amz-website-redirect-location", false), ("x-amz-server-side-encryption", false),
        ("x-amz-server-side-encryption-customer-key", false), ("x-amz-security-token", false), ("x-amz-object-lock-mode", false), ("success_action_redirect", false),
        ("success_action_status", false), ("redirect", false), ("submit", false), ("", false), ("bucket", false), ("key2", false), ("x-ignore", false), ("ignore-x", false),
        ("x-ignore-", true), ("x-ignore-a", true), ("X-Ignore-B", true), ("X-IGNORE-ACL", true),
    ] {
        cx.case(
            || format!("with a field {name:?} that no condition mentions"),
            |cx| {
                for named in [vec![("key", "k")], vec![("key", "k"), ("acl2", "x"), ("x-amz-meta-a", "1")]] {
                    let base = with_fields(&named, b"content");
                    let conds = open(&base.fields, &[]);
                    let doc = document(FAR, &conds, Style::default());
                    let f = base.clone().sign(c, &doc);
                    let plain = check(cx, fx, &f, Verdict::Accept, &doc, &[])?;
                    for value in ["x", "", "public-read"] {
                        for at in [0, 1, f.fields.len()] {
                            let mut g = f.clone();
                            g.fields.insert(at, (name.into(), value.into()));
                            let verdict = if ignored { Verdict::Accept } else { Verdict::Refuse };
                            let call = check(cx, fx, &g, verdict, &format!("{doc} and a field {name:?}"), &[])?;
                            if let Some(call) = call {
                                ensure!(Some(&call) == plain.as_ref(), "a field that is to be ignored took effect: {}", call.show());
                            }
                        }
                    }
                }
                Ok(())
            },
        );
    }
    // one of several fields is not mentioned
    cx.case(
        || "each field in turn is not mentioned".into(),
        |cx| {
            let base = with_fields(&SUBJECTS.iter().map(|(n, v)| (*n, v[0])).collect::<Vec<_>>(), b"content");
            for mask in 0..1usize << SUBJECTS.len() {
                let conds: Vec<Cond> = (0..SUBJECTS.len()).filter(|i| mask >> i & 1 > 0).map(|i| Cond::Eq(SUBJECTS[i].0.into(), SUBJECTS[i].1[0].into())).collect();
                let doc = document(FAR, &conds, Style { object: mask % 2 == 0, ..Style::default() });
                check(cx, fx, &base.clone().sign(c, &doc), judge(&conds, &base.fields, "aaa", 7), &doc, &[])?;
            }
            Ok(())
        },
    );
}

/// what is stored by the file system storage
fn stored(cx: &mut Cx, c: &Cred) {
    for existing in [false, true] {
        cx.case(
            || format!("forms on the file system storage, {}", if existing { "over an object" } else { "of a new object" }),
            |cx| {
                for (n, a, b) in [(5usize, 0, 5), (5, 6, 9), (5, 0, 4), (70_000, 0, 69_999), (70_000, 70_001, 80_000), (70_000, 70_000, 70_000), (0, 1, 2), (0, 0, 0)] {
                    for conds in [vec![Cond::Range(a, b)], vec![Cond::Range(a, b), Cond::Eq("bucket".into(), "bbb".into())]] {
                        let dir = cx.fresh_dir();
                        let mut w = World::new(&dir);
                        let mut m = Model::default();
                        step(cx, &mut w, &mut m, &Op::CreateBucket("aaa".into()))?;
                        if existing {
                            step(cx, &mut w, &mut m, &put_meta("aaa", "k", b"before", &[("m", "1")]))?;
                        }
                        let mut svc = S3Service::new(FileSystem::new(&w.root).expect("root"));
                        let mut a = SimpleAuth::new();
                        a.register(c.access.clone(), c.secret.clone());
                        svc.set_auth(a);
                        let base = with_fields(&[("key", "k")], &content(5, n));
                        let mut all = open(&base.fields, &[]);
                        all.extend(conds.clone());
                        let verdict = judge(&all, &base.fields, "aaa", n as u64);
                        let doc = document(FAR, &all, Style::default());
                        let rs = api::call(&svc, &base.clone().sign(c, &doc).request("aaa"))?;
                        cx.add("evaluations", 1);
                        match verdict {
                            Verdict::Accept => {
                                ensure!(rs.status < 300, "{doc}: {}", rs.show());
                                apply(&mut m, &put("aaa", "k", &content(5, n)));
                            }
                            Verdict::Refuse => ensure!(rs.status >= 400, "{doc}: {}", rs.show()),
                            Verdict::Open => fail!("harness: open"),
                        }
                        observe(cx, &w, &m, &["aaa"], &["k"])?;
                        crate::report::remove_tree(&w.dir);
                    }
                }
                Ok(())
            },
        );
    }
}
