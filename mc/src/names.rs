//! R04: bucket names and keys

use crate::api::*;
use crate::rec::Fixture;
use crate::auth::T0;
use crate::report::*;
use crate::sig::{self, Cred, Payload};
use crate::sys;
use crate::{ensure, fail};

pub fn metas() -> Vec<Meta> {
    vec![Meta {
        id: "R04",
        level: "input_enumeration",
        rule: "all bucket names up to length 4 (thorough: 6) over a class alphabet, every byte in every position of names, all lengths up to 130, all addresses over boundary numbers, all keys over an alphabet of separators, dots and encoded characters up to 4 (thorough: 5) tokens, all key lengths around the limit with characters of one to four bytes, literal and encoded; through the service with a recording storage, for several operations, compared with an independently written grammar. states: distinct requests",
        assumptions: &["names of four groups of digits that are no canonical IPv4 address, and encoded separators between bucket and key, may be accepted or refused"],
        quick_secs: 600,
        thorough_secs: 3000,
        run: r04,
    }]
}

/// None: not judged
fn valid_bucket(b: &str) -> Option<bool> {
    let ld = |c: u8| c.is_ascii_lowercase() || c.is_ascii_digit();
    let x = b.as_bytes();
    if x.len() < 3 || x.len() > 63 || !x.iter().all(|&c| ld(c) || c == b'.' || c == b'-') {
        return Some(false);
    }
    if !ld(x[0]) || !ld(x[x.len() - 1]) || x.starts_with(b"xn--") {
        return Some(false);
    }
    let groups: Vec<&str> = b.split('.').collect();
    if groups.len() == 4 && groups.iter().all(|g| !g.is_empty() && g.bytes().all(|c| c.is_ascii_digit())) {
        let canonical = groups.iter().all(|g| g.len() <= 3 && (*g == "0" || !g.starts_with('0')) && g.parse::<u16>().map_or(false, |n| n <= 255));
        return if canonical { Some(false) } else { None };
    }
    Some(true)
}

struct Fx {
    cred: Cred,
    open: Fixture,
    auth: Fixture,
}

/// (method, query, operation on a bucket, operation on an object)
const OPS: &[(&str, &str, &str, &str)] = &[
    ("GET", "", "list_objects", "get_object"),
    ("HEAD", "", "head_bucket", "head_object"),
    ("PUT", "", "create_bucket", "put_object"),
    ("DELETE", "", "delete_bucket", "delete_object"),
];

/// the text of a field of a recorded request
fn field(input: &str, name: &str) -> Option<String> {
    let i = input.find(&format!(" {name}: "))? + name.len() + 3;
    let rest = &input[i..];
    if !rest.starts_with('"') {
        return None;
    }
    let mut end = 1;
    let b = rest.as_bytes();
    while b[end] != b'"' {
        end += if b[end] == b'\\' { 2 } else { 1 };
    }
    Some(rest[..=end].to_owned())
}

#[derive(Clone, Copy, PartialEq)]
enum Slash {
    Plain,
    /// the separator of bucket and key was encoded
    Encoded,
}

/// `path`: as sent; `decoded`: what it means (None: not UTF-8)
fn judge(cx: &mut Cx, fx: &Fx, path: &str, decoded: Option<&str>, slash: Slash, ops: usize, signed: bool) -> R {
    for (method, query, bucket_op, object_op) in &OPS[..ops] {
        let mut rq = Rq::new(method, path);
        if !query.is_empty() {
            rq = rq.q(query);
        }
        if *method == "PUT" && decoded.map_or(false, |d| d.trim_start_matches('/').contains('/')) {
            rq = rq.body("data");
        }
        if signed {
            sig::sign(&mut rq, &fx.cred, Payload::Hash, None);
        }
        cx.add("evaluations", 1);
        cx.state(&(method, path, signed));
        let (rs, calls) = match if signed { &fx.auth } else { &fx.open }.run(&rq) {
            Ok(x) => x,
            Err(e) if e.starts_with("BAD-REQUEST") => {
                cx.add("not representable", 1);
                return Ok(());
            }
            Err(e) => fail!("{e}: {}", rq.show()),
        };
        cx.outcome(&(rs.status, rs.code(), calls.first().map(|c| c.op)));
        let refused = |codes: &[&str]| -> R {
            ensure!(calls.is_empty(), "{} invokes {}", rq.show(), calls[0].show());
            ensure!(rs.status == 400, "{} is answered {}", rq.show(), rs.show());
            if *method != "HEAD" {
                ensure!(rs.code().map_or(false, |c| codes.contains(&c.as_str())), "{} is refused for the wrong reason (not {codes:?}): {}", rq.show(), rs.show());
            }
            Ok(())
        };
        let accepted = |op: &str, bucket: &str, key: Option<&str>| -> R {
            ensure!(calls.len() == 1, "{} is refused: {}", rq.show(), rs.show());
            ensure!(calls[0].op == op, "{} invokes {}", rq.show(), calls[0].show());
            ensure!(rs.status < 300, "{} is answered {}", rq.show(), rs.show());
            ensure!(field(&calls[0].input, "bucket") == Some(format!("{bucket:?}")), "{} addresses another bucket: {}", rq.show(), calls[0].show());
            if let Some(key) = key {
                ensure!(field(&calls[0].input, "key") == Some(format!("{key:?}")), "{} addresses another key: {}", rq.show(), calls[0].show());
            }
            Ok(())
        };
        let Some(d) = decoded else {
            // a name that is not UTF-8
            refused(&["InvalidURI", "InvalidBucketName"])?;
            continue;
        };
        let Some(rest) = d.strip_prefix('/') else {
            refused(&["InvalidURI"])?;
            continue;
        };
        if rest.is_empty() {
            if *method == "GET" {
                ensure!(calls.len() == 1 && calls[0].op == "list_buckets", "{}: {}", rq.show(), rs.show());
            } else {
                ensure!(calls.is_empty(), "{} invokes {}", rq.show(), calls[0].show());
            }
            continue;
        }
        let (bucket, key) = match rest.find('/') {
            None => (rest, None),
            Some(i) if i + 1 == rest.len() => (&rest[..i], None),
            Some(i) => (&rest[..i], Some(&rest[i + 1..])),
        };
        let long = key.map_or(false, |k| k.len() > 1024);
        let verdict = match valid_bucket(bucket) {
            Some(false) => refused(if long { &["InvalidBucketName", "KeyTooLongError"] } else { &["InvalidBucketName"] }),
            b => {
                let r = if long { refused(&["KeyTooLongError"]) } else { accepted(if key.is_some() { object_op } else { bucket_op }, bucket, key) };
                match b {
                    None => r.or_else(|_| refused(&["InvalidBucketName"])),
                    _ => r,
                }
            }
        };
        match slash {
            Slash::Plain => verdict?,
            Slash::Encoded => verdict.or_else(|_| refused(&["InvalidBucketName", "InvalidURI"]))?,
        }
    }
    Ok(())
}

/// a name in a path: every way to write it
fn spellings(s: &str) -> Vec<String> {
    let upper: String = s.bytes().map(|b| format!("%{b:02X}")).collect();
    let lower: String = s.bytes().map(|b| format!("%{b:02x}")).collect();
    let mixed: String = s.bytes().enumerate().map(|(i, b)| if i % 2 == 0 && b.is_ascii_alphanumeric() { (b as char).to_string() } else { format!("%{b:02X}") }).collect();
    let mut v = vec![enc(s, false), upper, lower, mixed];
    v.dedup();
    v
}

fn bucket(cx: &mut Cx, fx: &Fx, b: &str, ops: usize) -> R {
    let e = enc(b, false);
    judge(cx, fx, &format!("/{e}"), Some(&format!("/{b}")), Slash::Plain, ops, false)?;
    judge(cx, fx, &format!("/{e}/k"), Some(&format!("/{b}/k")), Slash::Plain, ops, false)
}

fn r04(cx: &mut Cx) {
    sys::fix_clock(Some((T0 + 60, 0)));
    let cred = Cred::default();
    let fx = Fx { open: Fixture::new(&[]), auth: Fixture::new(&[&cred]), cred };
    let fx = &fx;
    // all short names
    let alphabet = ["a", "0", ".", "-", "A", "_", " ", "\u{e4}", "z", "9"];
    let depth = if cx.thorough { 6 } else { 4 };
    for first in alphabet {
        for second in alphabet {
            cx.case(
                || format!("all names up to {depth} characters that start with {:?}", format!("{first}{second}")),
                |cx| {
                    let mut level = vec![first.to_string(), format!("{first}{second}")];
                    for n in 1..=depth - 1 {
                        for b in &level {
                            bucket(cx, fx, b, if n < 4 { 4 } else { 1 })?;
                        }
                        level = level.iter().filter(|b| b.chars().count() == n + 1).flat_map(|b| alphabet.iter().map(move |x| format!("{b}{x}"))).collect();
                        if n == depth - 1 {
                            break;
                        }
                    }
                    Ok(())
                },
            );
        }
    }
    // every byte in every position
    for byte in 0..=255u8 {
        cx.case(
            || format!("the byte {byte:#04x} in names and keys"),
            |cx| {
                let mut positions: Vec<(&str, &str)> = vec![("", "bc"), ("a", "c"), ("ab", ""), ("abc", "def"), ("", ""), ("a.b", "c.d"), ("a-", "-b")];
                let long = "a".repeat(31);
                positions.push((&long, &long));
                let longest = "b".repeat(62);
                positions.push((&longest, ""));
                positions.push(("", &longest));
                for (x, y) in positions {
                    let raw: Vec<u8> = x.bytes().chain([byte]).chain(y.bytes()).collect();
                    let text = String::from_utf8(raw).ok();
                    let mut written = vec![format!("%{byte:02X}"), format!("%{byte:02x}")];
                    if byte.is_ascii_graphic() && !matches!(byte, b'%' | b'?' | b'#') {
                        written.push((byte as char).to_string());
                    }
                    for w in written {
                        let slash = if byte == b'/' && w.starts_with('%') { Slash::Encoded } else { Slash::Plain };
                        for tail in ["", "/", "/k", "/k/l"] {
                            let d = text.as_ref().map(|t| format!("/{t}{tail}"));
                            judge(cx, fx, &format!("/{x}{w}{y}{tail}"), d.as_deref(), slash, 4, false)?;
                        }
                        let d = text.as_ref().map(|t| format!("/bucket/{t}"));
                        judge(cx, fx, &format!("/bucket/{x}{w}{y}"), d.as_deref(), Slash::Plain, 4, false)?;
                        if text.is_some() && byte != b'/' {
                            judge(cx, fx, &format!("/bucket/{x}{w}{y}"), d.as_deref(), Slash::Plain, 4, true)?;
                        }
                    }
                }
                Ok(())
            },
        );
    }
    // lengths
    for fill in ["a", "0", "a0", "a.", "a-", "ab.cd-ef", ".", "-", "A", "\u{e4}", "a..b", "a.-b", "a-.b", "xn-", "0.0.0.0"] {
        cx.case(
            || format!("names of all lengths filled with {fill:?}"),
            |cx| {
                for n in 0..=130 {
                    let b: String = fill.chars().cycle().take(n).collect();
                    bucket(cx, fx, &b, 4)?;
                    if n >= 2 {
                        let c: String = b.chars().take(n - 1).chain(['z']).collect();
                        bucket(cx, fx, &c, 4)?;
                        for s in spellings(&c) {
                            judge(cx, fx, &format!("/{s}"), Some(&format!("/{c}")), Slash::Plain, 1, false)?;
                        }
                    }
                }
                Ok(())
            },
        );
    }
    // special prefixes and suffixes
    let words = ["xn--", "xn-", "xn", "Xn--", "axn--", "xn--xn--", "-", ".", "a", "0", "sthree-", "-s3alias", "--ol-s3", "localhost", "..", "--", ".-", "www.", "s3", "~"];
    for a in words {
        cx.case(
            || format!("names starting with {a:?}"),
            |cx| {
                for b in words {
                    bucket(cx, fx, &format!("{a}{b}"), 4)?;
                    for c in words {
                        bucket(cx, fx, &format!("{a}{b}{c}"), 1)?;
                    }
                }
                Ok(())
            },
        );
    }
    // addresses
    let numbers = ["0", "1", "9", "10", "99", "100", "127", "192", "199", "200", "249", "250", "255", "256", "260", "300", "999", "1000", "00", "01", "001", "a", "", "0x1", "1a", "-1"];
    for a in numbers {
        cx.case(
            || format!("addresses starting with {a:?}"),
            |cx| {
                for b in numbers {
                    for c in numbers {
                        let full = cx.thorough;
                        for d in numbers {
                            if !full && (b != c && c != d && b != d) {
                                continue;
                            }
                            bucket(cx, fx, &format!("{a}.{b}.{c}.{d}"), 1)?;
                        }
                        bucket(cx, fx, &format!("{a}.{b}.{c}"), 1)?;
                    }
                    for s in ["-", "..", ".a."] {
                        bucket(cx, fx, &format!("{a}{s}{b}{s}{a}{s}{b}"), 1)?;
                    }
                    for t in [".", "-", "a", ".a", ".1", "z.", "-1"] {
                        bucket(cx, fx, &format!("{a}.{b}.{a}.{b}{t}"), 1)?;
                        bucket(cx, fx, &format!("{t}{a}.{b}.{a}.{b}"), 1)?;
                    }
                }
                for ip6 in ["::1", "::", "fe80::1", "1:2:3:4:5:6:7:8", "[::1]", "::ffff:1.2.3.4"] {
                    bucket(cx, fx, ip6, 4)?;
                    bucket(cx, fx, &format!("{a}{ip6}"), 1)?;
                }
                Ok(())
            },
        );
    }
    // keys: the split of the path
    let tokens: &[(&str, &str)] = &[
        ("a", "a"), ("/", "/"), ("%2F", "/"), (".", "."), ("..", ".."), ("%25", "%"), ("+", "+"), ("%20", " "), ("%2e", "."), ("%C3%A4", "\u{e4}"), ("%2541", "%41"), ("bucket", "bucket"), ("%3F", "?"), ("%23", "#"), ("%00", "\0"),
    ];
    let depth = if cx.thorough { 5 } else { 3 };
    for first in tokens {
        cx.case(
            || format!("keys up to {} tokens that start with {:?}", depth + 1, first.0),
            |cx| {
                let mut level = vec![(first.0.to_string(), first.1.to_string())];
                for n in 0..=depth {
                    for (w, d) in &level {
                        judge(cx, fx, &format!("/bucket/{w}"), Some(&format!("/bucket/{d}")), Slash::Plain, if n < 3 { 4 } else { 1 }, false)?;
                        if n < 3 {
                            judge(cx, fx, &format!("/bucket/{w}"), Some(&format!("/bucket/{d}")), Slash::Plain, 1, true)?;
                            judge(cx, fx, &format!("/{w}"), Some(&format!("/{d}")), Slash::Encoded, 1, false)?;
                            judge(cx, fx, &format!("/{w}/k"), Some(&format!("/{d}/k")), Slash::Encoded, 1, false)?;
                            judge(cx, fx, &format!("/bucket%2F{w}"), Some(&format!("/bucket/{d}")), Slash::Encoded, 1, false)?;
                            judge(cx, fx, &format!("//bucket/{w}"), Some(&format!("//bucket/{d}")), Slash::Plain, 1, false)?;
                        }
                    }
                    if n < depth {
                        level = level.iter().flat_map(|(w, d)| tokens.iter().map(move |t| (format!("{w}{}", t.0), format!("{d}{}", t.1)))).collect();
                    }
                }
                Ok(())
            },
        );
    }
    // keys: lengths
    for fill in ["a", "/", "a/", "\u{e4}", "\u{20ac}", "\u{1f600}", "a\u{e4}\u{20ac}\u{1f600}", "%", "+", " ", ".", "\0", "-b"] {
        cx.case(
            || format!("keys of all lengths around the limit filled with {fill:?}"),
            |cx| {
                for bucket in ["abc", &"b".repeat(63)] {
                    for pad in 0..4 {
                        for n in (0..8).chain(240..262).chain(500..516).chain(1000..1045).chain([1500, 2048, 3072, 4096, 5000]) {
                            // the key has about n bytes
                            let mut key = "x".repeat(pad);
                            for c in fill.chars().cycle() {
                                if key.len() >= n {
                                    break;
                                }
                                key.push(c);
                            }
                            if key.is_empty() {
                                continue;
                            }
                            let d = format!("/{bucket}/{key}");
                            judge(cx, fx, &object_path(bucket, &key), Some(&d), Slash::Plain, 4, false)?;
                            judge(cx, fx, &object_path(bucket, &key), Some(&d), Slash::Plain, 1, true)?;
                            for s in spellings(&key) {
                                if bucket.len() + s.len() < 60_000 {
                                    judge(cx, fx, &format!("/{bucket}/{s}"), Some(&d), Slash::Plain, 1, false)?;
                                }
                            }
                        }
                    }
                }
                Ok(())
            },
        );
    }
    // paths that are no paths
    cx.case(
        || "unusual request targets".into(),
        |cx| {
            for (path, d) in [
                ("/", "/"),
                ("//", "//"),
                ("///", "///"),
                ("//k", "//k"),
                ("*", "*"),
                ("http://localhost/bucket/k", "/bucket/k"),
                ("http://localhost/bucket", "/bucket"),
                ("http://other.example:81/bucket/a/b", "/bucket/a/b"),
                ("http://localhost/", "/"),
                ("http://localhost", "/"),
                ("http://localhost//k", "//k"),
                ("/bucket/", "/bucket/"),
                ("/bucket//", "/bucket//"),
                ("/bucket///", "/bucket///"),
                ("/bucket/./k", "/bucket/./k"),
                ("/bucket/../k", "/bucket/../k"),
                ("/../bucket/k", "/../bucket/k"),
                ("/./bucket/k", "/./bucket/k"),
            ] {
                judge(cx, fx, path, Some(d), Slash::Plain, 4, false)?;
            }
            // not UTF-8
            for bad in ["%80", "%C3", "%C3%28", "%E2%82", "%F0%9F%98", "%ED%A0%80", "%FF", "%C0%AF", "%C0%AE%C0%AE", "%F8%88%80%80%80", "%F4%90%80%80"] {
                for (x, y) in [("/", ""), ("/abc", ""), ("/bucket/", ""), ("/bucket/a/", "/b"), ("/", "/k"), ("/ab", "c/k"), ("/bucket/%C3%A4", "z")] {
                    judge(cx, fx, &format!("{x}{bad}{y}"), None, Slash::Plain, 4, false)?;
                }
            }
            Ok(())
        },
    );
}
