//! The serde form.
use crate::field::*;
use crate::observe::*;
use crate::text::{How, Text};
use vcore::rng::{hash_bytes, Rng};
use vcore::run::{catch, clip, hex, panic_signature, Cfg, Obs, Unit};

/// The rule: a 0x prefix and an even number of hexadecimal digits.
fn model_unhex(s: &str) -> Option<Vec<u8>> {
    let d = s.strip_prefix("0x")?.as_bytes();
    if d.len() % 2 != 0 {
        return None;
    }
    let v = |c: u8| match c {
        b'0'..=b'9' => Some(c - b'0'),
        b'a'..=b'f' => Some(c - b'a' + 10),
        b'A'..=b'F' => Some(c - b'A' + 10),
        _ => None,
    };
    d.chunks(2).map(|p| Some(v(p[0])? * 16 + v(p[1])?)).collect()
}

fn quote(s: &str, escape: bool) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || (escape && (c as u32) < 0x80) => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn parses(t: Ty, s: &str, all: bool, o: &mut Obs) {
    let want = model_unhex(s).and_then(|b| t.from_ssz(&b).ok());
    let q = quote(s, false);
    let mut ways: Vec<(&str, Result<Result<B, String>, String>)> = vec![("from_str", catch(|| (t.json)(&q)))];
    if all {
        ways.push(("escaped string", catch(|| (t.json)(&quote(s, true)))));
        for (name, how) in [
            ("str deserializer", How::Transient),
            ("borrowed str deserializer", How::Borrowed),
            ("string deserializer", How::Owned),
            ("compact deserializer", How::Compact),
        ] {
            ways.push((name, catch(|| (t.de)(Text(how, s)))));
        }
        if let Some(m) = t.more {
            ways.push(("from_reader", catch(|| (m.reader)(q.as_bytes()))));
            ways.push(("from_value", catch(|| (m.value)(s))));
        }
    }
    for (how, r) in ways {
        o.eval();
        let c = clip(s, 600);
        match r {
            Err(p) => o.fail(format!("{}|{how} panics: {}", t.name(), panic_signature(&p)), format!("{c:?}: {p}")),
            Ok(r) if r.is_ok() != want.is_some() => o.fail(
                format!("{}|{how} {}", t.name(), if r.is_ok() { "accepts an invalid string" } else { "rejects a valid string" }),
                format!("{c:?}: {r:?}"),
            ),
            Ok(Ok(f)) => {
                o.count("accepted");
                let w = want.as_ref().expect("model: present");
                if f != *w || f.view() != w.view() || f.length() != w.length() {
                    o.fail(format!("{}|{how} gives another value", t.name()), format!("{c:?}: {f:?}, SSZ {w:?}"));
                }
            }
            Ok(Err(_)) => o.count("rejected"),
        }
    }
}

fn writes(t: Ty, f: &B, o: &mut Obs) {
    let b = f.as_ssz_bytes();
    let js = json(&b);
    let want = js[1..js.len() - 1].to_string();
    let mut ways = vec![
        ("to_string", catch(|| f.to_json()).map(|r| r.map(|s| s.strip_prefix('"').and_then(|s| s.strip_suffix('"')).unwrap_or("no string").to_string()))),
        ("readable serializer", catch(|| f.record(true))),
        ("compact serializer", catch(|| f.record(false))),
    ];
    if let Some(m) = t.more {
        ways.push(("to_value", catch(|| (m.to_value)(f))));
        ways.push(("to_vec", catch(|| (m.to_vec)(f).map(|v| String::from_utf8_lossy(&v[1..v.len() - 1]).into_owned()))));
    }
    for (how, r) in ways {
        o.eval();
        match r {
            Ok(Ok(s)) if s == want => {}
            r => o.fail(
                format!("{}|{how}: not 0x and the hex of the encoding", t.name()),
                format!("{r:?} for {}", hex(&b)),
            ),
        }
    }
    match catch(|| (t.json)(&f.to_json().unwrap_or_default())) {
        Ok(Ok(g)) if g == *f => {}
        r => o.fail(format!("{}|does not round trip", t.name()), format!("{}: {r:?}", hex(&b))),
    }
    o.count("serialized");
}

/// A string that is not quite right.
fn spoil(s: &str, rng: &mut Rng) -> String {
    let mut t: Vec<char> = s.chars().collect();
    let k = rng.below(t.len() + 1);
    match rng.below(22) {
        0 => s[2..].to_string(),
        1 => format!("0X{}", &s[2..]),
        2 => format!("0x{s}"),
        3 => format!(" {s}"),
        4 => format!("{s} "),
        5 => format!("{s}\n"),
        6 => s[..s.len() - 1].to_string(),
        7 => format!("{s}0"),
        8 => format!("{s}00"),
        9 => {
            t.insert(k, *rng.pick(&['g', 'G', '+', '-', '_', ' ', 'x', '\u{e9}', '\u{ff11}', '\u{1f600}', '\0', '/', ':', '@', '`', '"', '\\']));
            t.into_iter().collect()
        }
        10 => {
            if k < t.len() {
                t[k] = *rng.pick(&['g', 'G', '+', '-', '_', ' ', 'x', 'X', '/', ':', '@', '`', '\u{e9}', '\u{660}']);
            }
            t.into_iter().collect()
        }
        11 => format!("0x{}", s[2..].to_uppercase()),
        12 => s.chars().map(|c| if rng.chance(1, 2) && c != 'x' { c.to_ascii_uppercase() } else { c }).collect(),
        13 => s.replacen("0x", "x", 1),
        14 => s.replacen("0x", "0", 1),
        15 => s.replacen("0x", "00x", 1),
        16 => s.replacen("0x", "1x", 1),
        17 => s.replacen("0x", "-0x", 1),
        18 => format!("0x0{}", &s[2..]),
        19 => format!("0x00{}", &s[2..]),
        20 => format!("0x {}", &s[2..]),
        _ => {
            if !t.is_empty() {
                t.remove(k.min(t.len() - 1));
            }
            t.into_iter().collect()
        }
    }
}

const ODD: [&str; 26] = [
    "", "0", "x", "0x", "0X", "0x0", "0xg", "0x0g", "0x+1", "0x-1", "0x 1", "0x1 ", " 0x01", "0x01 ", "01", "0X01", "00x01",
    "0x0x01", "0x\u{ff10}1", "0x\u{e9}", "\\x01", "0b01", "1", "0x01\0", "null", "0x01,0x01",
];

pub fn tall(t: Ty, cfg: &Cfg, out: &mut Vec<Unit>) {
    out.push(Unit::new(format!("{}/tall", t.name()), cfg.cases(10, 10), move |_, rng, o| {
        let m = some_bits(tall_len(t, rng), rng);
        let b = t.model_encode(&m);
        let Ok(Ok(f)) = catch(|| t.from_ssz(&b)) else {
            o.count("values_unavailable");
            return;
        };
        writes(t, &f, o);
        let js = json(&b);
        let s = &js[1..js.len() - 1];
        parses(t, s, false, o);
        parses(t, &spoil(s, rng), false, o);
        o.count("tall_fields");
        o.distinct(hash_bits(t, &m));
    }));
}

pub fn units(t: Ty, cfg: &Cfg, out: &mut Vec<Unit>) {
    let name = t.name();
    let small = t.bound.is_none_or(|n| n <= 24);
    out.push(Unit::new(format!("{name}/short strings"), 257, move |c, _, o| {
        let mut one = |b: &[u8], all: bool| {
            let js = json(b);
            parses(t, &js[1..js.len() - 1], all, o);
            if let Ok(f) = t.from_ssz(b) {
                writes(t, &f, o);
                o.distinct(hash_bytes(b, hash_bits(t, &[])));
            }
        };
        if c == 0 {
            one(&[], true);
            (0..=255u8).for_each(|x| one(&[x], true));
            ODD.iter().for_each(|s| parses(t, s, true, o));
        } else {
            let step = if small { 1 } else { 37 };
            (0..=255u8).step_by(step).for_each(|x| one(&[x, (c - 1) as u8], false));
        }
    }));
    let k = cfg.cases(if small { 500 } else { 250 }, 20);
    out.push(Unit::new(format!("{name}/values"), k, move |c, rng, o| {
        let cap = if c % 50 == 0 { 9000 } else { 300 };
        let m = some_bits(some_len(t, rng, cap), rng);
        let b = t.model_encode(&m);
        let Ok(Ok(f)) = catch(|| t.from_ssz(&b)) else {
            o.count("values_unavailable");
            return;
        };
        writes(t, &f, o);
        o.distinct(hash_bits(t, &m));
        let js = json(&b);
        let s = &js[1..js.len() - 1];
        parses(t, s, true, o);
        o.sample(|| format!("{}: {}", t.name(), clip(s, 100)));
        for _ in 0..6 {
            let bad = spoil(s, rng);
            o.count("spoiled_strings");
            o.distinct(hash_bytes(bad.as_bytes(), 18));
            parses(t, &bad, true, o);
        }
        // hex of strings near the valid one
        let mut x = b.clone();
        match rng.below(4) {
            0 => x.push(0),
            1 => {
                x.pop();
            }
            2 => *x.last_mut().unwrap() = rng.u8(),
            _ => x.push(1 << rng.below(8)),
        }
        let js = json(&x);
        parses(t, &js[1..js.len() - 1], true, o);
    }));
}
