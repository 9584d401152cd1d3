"""Single definitions compiled alone: which ones the derive macros accept."""
import json
import os
import re
import subprocess
from concurrent.futures import ThreadPoolExecutor

import gen

CRATES = ["reg", "ssz", "ssz_derive", "alloy_primitives", "smallvec", "typenum", "vcore"]


def rustc(build, src, out, emit="obj", crate_type="lib"):
    cmd = ["rustc", "--edition", "2021", "--crate-type", crate_type, "--emit", emit,
           "-o", out, src, "--error-format=json", "-Awarnings", "-C", "codegen-units=1",
           "-L", "dependency=" + build.deps_dir]
    for c in CRATES:
        if c in build.externs:
            cmd += ["--extern", "%s=%s" % (c, build.externs[c])]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=300)
    msgs = []
    for l in r.stderr.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get("level") == "error":
            msgs.append(m)
    return r.returncode, msgs, r.stderr


def all_lines(m):
    """Line numbers of a message in the file compiled, through macro expansions."""
    out = set()

    def walk(s):
        out.add((s["file_name"], s["line_start"]))
        if s.get("expansion"):
            walk(s["expansion"]["span"])
    for s in m.get("spans", []):
        walk(s)
    for c in m.get("children", []):
        out |= all_lines(c)
    return out


def closure(mods, name):
    need, todo = [], [name]
    while todo:
        n = todo.pop()
        if n in need:
            continue
        need.append(n)
        todo += re.findall(r"super::(d\d+)::", mods[n])
    return sorted(need, key=lambda n: (n == name, n))


def failing_modules(build, g, root):
    """{module: {what, source, error}} of the definitions that do not compile on their own."""
    mods = dict(g.mods)
    d = os.path.join(root, "target", "probe")
    os.makedirs(d, exist_ok=True)

    def probe(name):
        need = closure(mods, name)
        src = os.path.join(d, name + ".rs")
        text, first = gen.HEAD.replace("#![", "// #!["), 0
        for n in need:
            if n == name:
                first = text.count("\n") + 1
            text += mods[n]
        open(src, "w").write(text)
        rc, msgs, err = rustc(build, src, os.path.join(d, name + ".o"))
        if rc == 0:
            return None
        own = [m for m in msgs if any(l >= first for f, l in all_lines(m) if f == src)]
        if not own:
            return None
        body = mods[name].split("pub fn add(")[0].split("use std::sync::Arc;\n")[-1]
        body = body.replace("    use typenum::*;\n", "").strip()
        return {"what": signature(body), "source": body,
                "error": "".join(m.get("rendered") or "" for m in own)[:3000]}

    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda n: (n, probe(n)), list(mods)))
    return {n: r for n, r in res if r}


def signature(body):
    s = body.split("reg::subject")[0]
    return re.sub(r"\s+", " ", s).strip()[:200]


# ------------------------------------------------------------------------------------------
# definitions without an SSZ meaning

def union(n, beh='"union"'):
    return "#[ssz(enum_behaviour = %s)] enum X { %s }" % (
        beh, ", ".join("V%d(%s)" % (i, "u8" if i % 2 else "Vec<u16>") for i in range(n)))


def tag(n):
    return "#[ssz(enum_behaviour = \"tag\")] enum X { %s }" % ", ".join("V%d" % i for i in range(n))


def transparent(fields, attr=("skip_serializing, skip_deserializing"), tup=False):
    """fields: string of L (live) and s (skipped)"""
    fs = []
    for i, k in enumerate(fields):
        a = "#[ssz(%s)] " % attr if k == "s" else ""
        fs.append(a + ("u16" if tup else "f%d: u16" % i))
    body = "(%s);" % ", ".join(fs) if tup else "{ %s }" % ", ".join(fs)
    return "#[ssz(struct_behaviour = \"transparent\")] struct X%s%s" % ("" if tup else " ", body)


def pairs():
    """(what, sides, definition to be rejected, accepted counterpart)"""
    out = []
    for n in (129, 130, 200, 255, 256, 257, 300):
        out.append(("union of %d variants" % n, "ed", union(n), union(128)))
    out.append(("union of no variants", "ed", union(0), union(1)))
    out.append(("tag enum of no variants", "ed", tag(0), tag(1)))
    for n in (257, 300):
        out.append(("tag enum of %d variants" % n, "ed", tag(n), tag(128)))
    for tup in (False, True):
        w = "tuple struct" if tup else "struct"
        for f, good in (("LL", "L"), ("LLL", "L"), ("s", "L"), ("ss", "sL"), ("LsL", "Ls"),
                        ("sLL", "sL"), ("", "L"), ("sLsL", "sLs")):
            out.append(("transparent %s with fields %s (L live, s skipped)" % (w, f or "none"), "ed",
                        transparent(f, tup=tup), transparent(good, tup=tup)))
        # skipped on one side only: live fields are counted per side
        out.append(("transparent %s, two live fields to encode" % w, "e",
                    transparent("Ls", "skip_deserializing", tup),
                    transparent("Ls", "skip_serializing", tup)))
        out.append(("transparent %s, two live fields to decode" % w, "d",
                    transparent("Ls", "skip_serializing", tup),
                    transparent("Ls", "skip_deserializing", tup)))
        out.append(("transparent %s, no live field to encode" % w, "e",
                    transparent("s", "skip_serializing", tup), transparent("L", "", tup)))
        out.append(("transparent %s, no live field to decode" % w, "d",
                    transparent("s", "skip_deserializing", tup), transparent("L", "", tup)))
    plain = "enum X { A(Vec<u8>), B(Vec<u16>) }"
    good = "#[ssz(enum_behaviour = \"union\")] " + plain
    out.append(("enum without behaviour", "ed", plain, good))
    out.append(("fieldless enum without behaviour", "ed", "enum X { A, B }", tag(2)))
    out.append(("one-variant enum without behaviour", "ed", "enum X { A(u8) }", union(1)))
    for b in ("container", "Union", "unions", ""):
        out.append(("enum with behaviour \"%s\"" % b, "ed",
                    "#[ssz(enum_behaviour = \"%s\")] %s" % (b, plain), good))
    for b in ("union", "transparent"):
        g = "#[ssz(enum_behaviour = \"%s\")] enum X { A(Vec<u8>), B(Vec<u16>) }" % b
        for what, body in (("no field", "A(Vec<u8>), B"), ("no field in a tuple", "A(Vec<u8>), B()"),
                           ("two fields", "A(Vec<u8>), B(Vec<u8>, Vec<u16>)")):
            out.append(("%s enum, variant with %s" % (b, what), "ed",
                        "#[ssz(enum_behaviour = \"%s\")] enum X { %s }" % (b, body), g))
    out.append(("tag enum, variant with a field", "ed",
                "#[ssz(enum_behaviour = \"tag\")] enum X { A, B(u8) }", tag(2)))
    out.append(("tag enum, first variant with a field", "ed",
                "#[ssz(enum_behaviour = \"tag\")] enum X { A(u8), B }", tag(2)))
    out.append(("Rust union", "ed", "union X { a: u8, b: u16 }", "struct X { a: u8, b: u16 }"))
    return out


MAIN = """#![allow(dead_code)]
use ssz::{Decode, Encode};
fn enc<T: Encode>() -> (bool, usize, fn(&T, &mut Vec<u8>), fn(&T) -> usize) {
    (T::is_ssz_fixed_len(), T::ssz_fixed_len(), T::ssz_append, T::ssz_bytes_len)
}
fn dec<T: Decode>() -> (bool, usize, fn(&[u8]) -> Result<T, ssz::DecodeError>) {
    (T::is_ssz_fixed_len(), T::ssz_fixed_len(), T::from_ssz_bytes)
}
#[derive(ssz_derive::%s)]
%s
pub fn run() {
    std::hint::black_box(%s::<X>());
}
"""


def must_reject(root, build):
    d = os.path.join(root, "target", "probe")
    os.makedirs(d, exist_ok=True)
    jobs = {}
    for what, sides, bad, good in pairs():
        for s in sides:
            tr, f = ("Encode", "enc") if s == "e" else ("Decode", "dec")
            for kind, body in (("bad", bad), ("good", good)):
                jobs.setdefault(MAIN % (tr, body, f), []).append((what, tr, kind, body))
    texts = list(jobs)

    def one(i):
        src = os.path.join(d, "p%d.rs" % i)
        open(src, "w").write(texts[i])
        rc, _, err = rustc(build, src, os.path.join(d, "p%d.o" % i))
        return rc, err

    with ThreadPoolExecutor(8) as ex:
        res = dict(zip(texts, ex.map(one, range(len(texts)))))
    violations, problems, rejected = [], [], 0
    accepted_good = {}
    for t, uses in jobs.items():
        for what, tr, kind, body in uses:
            if kind == "good":
                accepted_good[(what, tr)] = res[t][0] == 0
    samples = []
    for t, uses in jobs.items():
        rc, err = res[t]
        for what, tr, kind, body in uses:
            short = body if len(body) < 400 else body[:200] + " ... " + body[-60:]
            if kind == "good" and rc != 0:
                violations.append({
                    "signature": "valid definition rejected|%s for %s" % (tr, short[:160]),
                    "unit": "probe", "case": 0,
                    "detail": "#[derive(%s)] does not accept: %s\n%s" % (tr, body[:800], last_error(err))})
            elif kind == "bad":
                if rc == 0:
                    violations.append({
                        "signature": "accepted at compile time|%s of %s" % (tr, what),
                        "unit": "probe", "case": 0,
                        "detail": "#[derive(%s)] accepts a definition without an SSZ meaning (%s): %s"
                                  % (tr, what, short)})
                elif accepted_good[(what, tr)]:
                    rejected += 1
                    if len(samples) < 8 and rejected % 9 == 1:
                        samples.append({"unit": "compile probe", "case": rejected,
                                        "observed": "derive(%s) rejects %s: %s" % (
                                            tr, short[:200], last_error(err)[:200])})
    return violations, {"probes": len(texts), "definitions_rejected_as_required": rejected,
                        "samples": samples}


def last_error(err):
    for l in err.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get("level") == "error":
            extra = " ".join(c.get("message", "") for c in m.get("children", []))
            return (m.get("message", "") + " " + extra)[:600]
    return err[-300:]
