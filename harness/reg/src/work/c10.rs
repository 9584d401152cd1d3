//! C10: append-only, context-free encoding, identical across entry points.
use super::codec::{dbg, tall_value};
use super::*;
use crate::ops::Obj;
use ssz::SszEncoder;
use vcore::rng::Rng;
use vcore::run::{catch, clip, hex, panic_signature};

fn prefix(rng: &mut Rng) -> Vec<u8> {
    if rng.chance(1, 250) {
        // around the lengths where a length needs another byte
        let n = rng.range(65_500, 66_000);
        return vec![0x5a; n];
    }
    match rng.below(8) {
        0 => vec![],
        1 => vec![0xcc],
        2 => vec![0; 4],
        3 => {
            let n = rng.range(200, 400);
            rng.bytes(n)
        }
        4 => vec![0xff; rng.range(1, 9)],
        5 => {
            let n = rng.range(1, 3);
            rng.bytes(n)
        }
        _ => {
            let n = rng.range(1, 64);
            rng.bytes(n)
        }
    }
}

fn entry_points(t: &TypeOps, v: &Value, rng: &mut Rng, obs: &mut Obs) {
    let pre = prefix(rng);
    let r = catch(|| {
        let o = (t.build)(v);
        (o.as_ssz_bytes(), o.entry_points(&pre))
    });
    match r {
        Err(p) => obs.fail(
            format!("{}|panic {}", t.name, panic_signature(&p)),
            format!("{}: encoding {} panicked: {p}", t.name, dbg(v)),
        ),
        Ok((alone, all)) => {
            let mut want = pre.clone();
            want.extend_from_slice(&alone);
            obs.distinct(hash_bytes(&want, name_hash(&t.name)));
            obs.max("prefix_bytes", pre.len() as u64);
            obs.sample(|| {
                format!("{}: {} after a prefix of {} bytes: {} entry points gave {}", t.name, dbg(v), pre.len(), all.len(), hex(&alone))
            });
            for (who, got) in all {
                obs.eval();
                if got != want {
                    obs.fail(
                        format!("{}|{who}", t.name),
                        format!("{}: value {} with prefix {}: {who} gives {} instead of {}", t.name, dbg(v), hex(&pre), hex(&got), hex(&want)),
                    );
                }
            }
        }
    }
}

enum Node {
    Leaf(Box<dyn Obj>, Vec<u8>, bool, usize),
    Inner(Vec<Node>),
}

/// What the container format says, from the parts' standalone encodings.
fn assemble(n: &Node) -> (bool, Vec<u8>) {
    match n {
        Node::Leaf(_, b, fixed, _) => (*fixed, b.clone()),
        Node::Inner(kids) => {
            let parts: Vec<(bool, Vec<u8>)> = kids.iter().map(assemble).collect();
            let fixed_len: usize = parts.iter().map(|(f, b)| if *f { b.len() } else { 4 }).sum();
            let (mut head, mut tail) = (vec![], vec![]);
            for (f, b) in &parts {
                if *f {
                    head.extend_from_slice(b);
                } else {
                    head.extend_from_slice(&((fixed_len + tail.len()) as u32).to_le_bytes());
                    tail.extend_from_slice(b);
                }
            }
            head.extend(tail);
            (parts.iter().all(|(f, _)| *f), head)
        }
    }
}
fn fixed_part(n: &Node) -> usize {
    let (f, b) = assemble(n);
    if f {
        b.len()
    } else {
        4
    }
}

fn encode_node(n: &Node, buf: &mut Vec<u8>) {
    match n {
        Node::Leaf(o, _, _, _) => o.ssz_append(buf),
        Node::Inner(kids) => {
            let len = kids.iter().map(fixed_part).sum();
            let mut e = SszEncoder::container(buf, len);
            for k in kids {
                match k {
                    Node::Leaf(o, _, fixed, how) => match how % 3 {
                        0 => o.append_to(&mut e),
                        1 => o.append_ref_to(&mut e),
                        _ => e.append_parameterized(*fixed, |b| o.ssz_append(b)),
                    },
                    Node::Inner(_) => {
                        e.append_parameterized(assemble(k).0, |b| encode_node(k, b));
                    }
                }
            }
            e.finalize();
        }
    }
}

fn tree(types: &[TypeOps], rng: &mut Rng, depth: usize, max: usize, names: &mut String) -> Node {
    let n = rng.range(0, max);
    let mut kids = vec![];
    names.push('{');
    for _ in 0..n {
        if depth > 0 && rng.chance(1, 4) {
            kids.push(tree(types, rng, depth - 1, 5, names));
        } else {
            let i = rng.below(types.len());
            let t = &types[i];
            let style = style_for(rng.below(62) as u64);
            let mut v = gen_value(&t.schema, rng, style);
            if rng.chance(1, 2000) {
                // a part past 2^16 bytes, so that the offsets after it are as well
                if let Some(big) = tall_value(&t.schema, 66_000, 200_000, rng) {
                    v = big;
                    names.push_str("big ");
                }
            }
            let o = (t.build)(&v);
            let b = o.as_ssz_bytes();
            let m = (t.meta)()[0];
            names.push_str(&t.name);
            names.push(';');
            kids.push(Node::Leaf(o, b, m.fixed, rng.below(3)));
        }
    }
    names.push('}');
    Node::Inner(kids)
}

fn manual(types: &[TypeOps], rng: &mut Rng, obs: &mut Obs) {
    let pre = prefix(rng);
    let mut names = String::new();
    let depth = rng.below(5);
    let max = if rng.chance(1, 5) { 24 } else { 6 };
    let root = tree(types, rng, depth, max, &mut names);
    let mut want = pre.clone();
    want.extend(assemble(&root).1);
    if want.len() > 1 << 16 {
        obs.count("manual_past_2^16");
    }
    obs.max("prefix_bytes", pre.len() as u64);
    let mut got = pre.clone();
    let r = catch(|| encode_node(&root, &mut got));
    obs.eval();
    obs.count("manual_containers");
    obs.distinct(hash_bytes(&want, 3));
    obs.sample(|| format!("container {} after {} bytes -> {}", clip(&names, 200), pre.len(), hex(&want)));
    if let Err(p) = r {
        obs.fail(
            format!("manual container|panic {}", panic_signature(&p)),
            format!("SszEncoder over {} panicked: {p}", clip(&names, 400)),
        );
    } else if got != want {
        obs.fail(
            "manual container|bytes",
            format!(
                "SszEncoder with fields {} on a buffer holding {}: got {} instead of {}",
                clip(&names, 400), hex(&pre), hex(&got), hex(&want)
            ),
        );
    }
}

pub fn c10(cfg: &Cfg, types: &[TypeOps]) -> Vec<Unit> {
    let mut out = vec![];
    for t in types {
        let t = t.clone();
        out.push(Unit::new(
            format!("{}|entry points", t.name),
            cfg.cases(700, 15),
            move |case, rng, obs| {
                let v = gen_value(&t.schema, rng, style_for(case));
                obs.tag("types", &t.name);
                entry_points(&t, &v, rng, obs)
            },
        ));
    }
    out.extend(super::codec::tall_units(cfg, types, |t, v, case, obs| {
        let mut rng = Rng::new(case + 1);
        entry_points(t, v, &mut rng, obs)
    }));
    // several values appended one after another to one buffer
    let ts: Arc<Vec<TypeOps>> = Arc::new(types.to_vec());
    let t2 = ts.clone();
    out.push(Unit::new("consecutive appends", cfg.cases(20_000, 15), move |_, rng, obs| {
        let mut buf = prefix(rng);
        let mut want = buf.clone();
        let mut names = String::new();
        let n = rng.range(2, 10);
        let mut objs = vec![];
        for _ in 0..n {
            let t = &t2[rng.below(t2.len())];
            let style = style_for(rng.below(62) as u64);
            let o = (t.build)(&gen_value(&t.schema, rng, style));
            want.extend(o.as_ssz_bytes());
            names.push_str(&t.name);
            names.push(';');
            objs.push(o);
        }
        let r = catch(|| {
            for o in &objs {
                o.ssz_append(&mut buf);
            }
        });
        obs.eval();
        obs.count("consecutive_appends");
        obs.distinct(hash_bytes(&want, 4));
        match r {
            Err(p) => obs.fail(
                format!("consecutive appends|panic {}", panic_signature(&p)),
                format!("appending {} panicked: {p}", clip(&names, 400)),
            ),
            Ok(()) => {
                if buf != want {
                    obs.fail(
                        "consecutive appends|bytes",
                        format!("appending {}: got {} instead of {}", clip(&names, 400), hex(&buf), hex(&want)),
                    );
                }
            }
        }
    }));
    let t2 = ts.clone();
    out.push(Unit::new("manual containers", cfg.cases(60_000, 15), move |_, rng, obs| {
        manual(&t2, rng, obs)
    }));
    out
}
