"""Generates the registry of Rust types (catalogue + seeded random definitions) for the reg crate.

usage: gen.py PROFILE SEED EXTRA OUT.rs OUT.json
The JSON lists, per module of the generated file, its source text, so that a definition which does
not compile can be probed alone.
"""
import json
import random
import sys

HEAD = """#![allow(dead_code, unused_imports, non_camel_case_types, clippy::all)]
"""
PRE = """    use alloy_primitives::{Address, Bloom, Bytes, FixedBytes, U128, U256};
    use core::num::NonZeroUsize;
    use reg::bases::*;
    use reg::legacy::*;
    use reg::subject::*;
    use reg::work::c08::*;
    use reg::*;
    use smallvec::SmallVec;
    use ssz::{BitList, BitVector, BitVectorDynamic, Decode, Encode};
    use ssz_derive::{Decode, Encode};
    use std::collections::{BTreeMap, BTreeSet};
    use std::sync::Arc;
    use typenum::*;
"""
# names that both globs above and typenum export are resolved by explicit imports
DER = "#[derive(Encode, Decode, PartialEq, Debug, Clone)]"

# (type, fixed length or None, Ord, Default)
LEAVES = [
    ("u8", 1, 1, 1), ("u16", 2, 1, 1), ("u32", 4, 1, 1), ("u64", 8, 1, 1), ("u128", 16, 1, 1),
    ("usize", 8, 1, 1), ("bool", 1, 1, 1), ("NonZeroUsize", 8, 1, 0), ("U128", 16, 1, 1),
    ("U256", 32, 1, 1), ("Address", 20, 1, 1), ("FixedBytes<1>", 1, 1, 1),
    ("FixedBytes<3>", 3, 1, 1), ("FixedBytes<4>", 4, 1, 1), ("FixedBytes<32>", 32, 1, 1),
    ("FixedBytes<48>", 48, 1, 1), ("FixedBytes<96>", 96, 1, 1), ("Bloom", 256, 1, 1),
    ("[u8; 1]", 1, 1, 1), ("[u8; 2]", 2, 1, 1), ("[u8; 4]", 4, 1, 1), ("[u8; 5]", 5, 1, 1),
    ("[u8; 20]", 20, 1, 1), ("[u8; 32]", 32, 1, 1), ("[u8; 33]", 33, 1, 0),
    ("BitVector<U1>", 1, 0, 1), ("BitVector<U7>", 1, 0, 1), ("BitVector<U8>", 1, 0, 1),
    ("BitVector<U9>", 2, 0, 1), ("BitVector<U16>", 2, 0, 1), ("BitVector<U17>", 3, 0, 1),
    ("BitVector<U64>", 8, 0, 1), ("BitVector<U512>", 64, 0, 1),
    ("BitList<U1>", None, 0, 0), ("BitList<U8>", None, 0, 0), ("BitList<U9>", None, 0, 0),
    ("BitList<U31>", None, 0, 0), ("BitList<U2048>", None, 0, 0),
    ("BitVectorDynamic", None, 0, 0), ("Bytes", None, 1, 1),
    ("FixPair", 6, 1, 1), ("VarPair", None, 1, 1), ("MixUnion", None, 0, 0),
    ("ThreeTag", 1, 1, 0), ("WrapVec", None, 1, 0), ("WrapU32", 4, 1, 0),
    ("Vec<u8>", None, 1, 1), ("Vec<u16>", None, 1, 1), ("Vec<u64>", None, 1, 1),
    ("Vec<bool>", None, 1, 1), ("Vec<Vec<u8>>", None, 1, 1),
    ("Option<u8>", None, 1, 1), ("Option<Vec<u16>>", None, 1, 1),
    ("Arc<u32>", 4, 1, 1), ("Arc<Vec<u8>>", None, 1, 1),
]
LEGACY = [("leg_u8", "u8"), ("leg_u16", "u16"), ("leg_u64", "u64"), ("leg_bool", "bool"),
          ("leg_u256", "U256"), ("leg_b32", "[u8; 32]"), ("leg_bytes", "Vec<u8>"),
          ("leg_vu16", "Vec<u16>"), ("leg_vvu8", "Vec<Vec<u8>>"), ("leg_opt8", "Option<u8>"),
          ("leg_optv", "Option<Vec<u16>>"), ("leg_tup", "(u8, Vec<u8>)"),
          ("leg_tupf", "(u8, u32)"), ("leg_bl", "BitList<U12>"),
          ("leg_map", "BTreeMap<u8, u16>"), ("leg_arc", "Arc<Vec<u8>>"), ("leg_fix", "FixPair"),
          ("leg_var", "VarPair"), ("leg_uni", "MixUnion"), ("leg_tag", "ThreeTag"),
          ("leg_b0", "[u8; 0]")]
NOISE = ["u8", "u32", "u64", "String", "Vec<u8>", "Option<u64>", "Vec<String>"]
NAMES = ["bytes", "slice", "decoder", "builder", "buf", "offset", "encoder", "len", "start",
         "end", "items", "cursor", "i", "fixed", "index", "selector", "body", "inner", "r#type",
         "r#match", "_x", "byte", "other", "var", "module", "x0", "T", "Aa", "new", "from"]


class Gen:
    def __init__(self, seed):
        self.r = random.Random(seed)
        self.deco = random.Random(seed + 1)
        self.mods = []      # (name, code)
        self.reg = []       # (mod, type string, weight, derived)
        self.asym = []      # (mod, macro args)
        self.plain = []     # registered types outside modules
        self.n = 0
        self.pool = []      # (type, fixed, ord, default) of earlier definitions

    def drop(self, names):
        """Remove modules and everything that refers to them."""
        names = set(names)
        while True:
            more = {n for n, b in self.mods if n not in names
                    and any("super::%s::" % x in b for x in names)}
            if not more:
                break
            names |= more
        self.mods = [(n, b) for n, b in self.mods if n not in names]
        self.plain = [(t, w) for t, w in self.plain
                      if not any("super::%s::" % x in t for x in names)]

    # -- attributes and visibilities without a meaning for SSZ ------------------------------
    NOISE_ATTRS = ["/// Words.\n", "#[doc(hidden)] ", "#[allow(dead_code)] ", "#[cfg(all())] ",
                   "#[doc = \"ssz(with = x)\"] ", "#[cfg_attr(all(), allow(unused))] ",
                   "/// One.\n/// Two.\n", "#[rustfmt::skip] "]

    def noise(self, n=3):
        d = self.deco
        return d.choice(self.NOISE_ATTRS) if d.randrange(n) == 0 else ""

    def vis(self):
        return self.deco.choice(["pub ", "pub ", "pub(crate) ", "pub(super) ", ""])

    # -- plain types -----------------------------------------------------------------------
    def t(self, ty, weight=1):
        self.plain.append((ty, weight))

    def mod(self, code, types, asym=(), weight=1):
        name = "d%03d" % self.n
        self.n += 1
        regs = "".join(
            "        { let mut o = reg::ops::ops::<%s>(\"%s::%s\"); o.derived = true; o.weight = %d; out.push(o); }\n"
            % (t, name, t, weight) for t in types)
        asyms = "".join("        reg::asym_ops!(out; %s);\n" % a for a in asym)
        body = "pub mod %s {\n%s%s\n    pub fn add(out: &mut Vec<reg::ops::TypeOps>) {\n%s    }\n" \
               "    pub fn add_asym(out: &mut Vec<AsymOps>) {\n%s    }\n}\n" % (
                   name, PRE, code, regs, asyms)
        self.mods.append((name, body))
        return name

    def rand_type(self, depth, ordered=False, fixed_only=False, var_only=False):
        """(type, fixed length or None, Ord, Default)"""
        r = self.r
        for _ in range(60):
            k = r.randrange(12)
            c = None
            if depth == 0 or k < 5:
                src = LEAVES + (self.pool if r.random() < 0.7 else [])
                c = r.choice(src)
            elif k == 5 or k == 6:
                i = self.rand_type(depth - 1, ordered)
                if i[1] != 0:
                    c = ("Vec<%s>" % i[0], None, i[2], 1)
            elif k == 7:
                i = self.rand_type(depth - 1, ordered)
                if i[1] != 0:
                    c = ("SmallVec<[%s; %d]>" % (i[0], r.choice([1, 2, 3, 4, 8])), None, i[2], 1)
            elif k == 8:
                i = self.rand_type(depth - 1, ordered)
                c = ("Option<%s>" % i[0], None, i[2], 1)
            elif k == 9:
                n = r.choice([2, 2, 3, 3, 4, 5, 6])
                i = [self.rand_type(depth - 1, ordered) for _ in range(n)]
                fx = None if any(x[1] is None for x in i) else sum(x[1] for x in i)
                c = ("(%s)" % ", ".join(x[0] for x in i), fx, int(all(x[2] for x in i)), 0)
            elif k == 10:
                a = self.rand_type(depth - 1, True)
                if r.random() < 0.5:
                    if a[1] != 0:
                        c = ("BTreeSet<%s>" % a[0], None, 1, 1)
                else:
                    b = self.rand_type(depth - 1, ordered)
                    if not (a[1] == 0 and b[1] == 0):
                        c = ("BTreeMap<%s, %s>" % (a[0], b[0]), None, b[2], 1)
            else:
                i = self.rand_type(depth - 1, ordered)
                c = ("Arc<%s>" % i[0], i[1], i[2], i[3])
            if c is None or (ordered and not c[2]) or (fixed_only and c[1] is None) \
                    or (var_only and c[1] is not None) or len(c[0]) > 160:
                continue
            return c
        return LEAVES[0] if not var_only else LEAVES[-9]

    # -- containers ------------------------------------------------------------------------
    def container(self, fields, name="S", generics="", bounds="", where="", insts=None,
                  weight=1, tail="", derive=DER):
        """fields: (name, type, how) with how in Plain, skip, ('with', module, adaptor, type)"""
        lines, sub = [], []
        for f, ty, how in fields:
            if how == "skip":
                at = self.deco.choice(["skip_serializing, skip_deserializing",
                                       "skip_deserializing, skip_serializing",
                                       "skip_serializing = true, skip_deserializing = true"])
                lines.append("%s#[ssz(%s)] %s%s%s: %s" % (
                    self.noise(), at, self.noise(6), self.vis(), f, ty))
                sub.append("%s: %s => skip" % (f, ty))
            elif isinstance(how, tuple) and how[1] == "skip":
                lines.append("%s#[ssz(skip_serializing, with = \"%s\", skip_deserializing)] %s%s: %s" % (
                    self.noise(), how[0], self.vis(), f, ty))
                sub.append("%s: %s => skip" % (f, ty))
            elif isinstance(how, tuple):
                lines.append("%s#[ssz(with = \"%s\")] %s%s%s: %s" % (
                    self.noise(), how[0], self.noise(6), self.vis(), f, ty))
                sub.append("%s: %s => %s" % (f, ty, how[1]))
            else:
                lines.append("%s%s%s: %s" % (self.noise(5), self.vis(), f, ty))
                sub.append("%s: %s => Plain" % (f, ty))
        code = "    %s\n    pub struct %s%s %s { %s }\n    reg::subject_container!([%s] %s%s { %s });\n%s" % (
            derive, name, "<%s>" % generics if generics else "", where, ", ".join(lines),
            "<%s>" % bounds if bounds else "", name,
            "<%s>" % ", ".join(g.split(":")[0].replace("const ", "").strip()
                               for g in generics.split(",")) if generics else "",
            ", ".join(sub), tail)
        return self.mod(code, insts or [name], weight=weight)

    def transparent(self, fields, tuple_like, name="W"):
        lines, sub = [], []
        for k, (f, ty, how) in enumerate(fields):
            vis = "%s%s" % (self.vis(), ty) if tuple_like else "%s%s: %s" % (self.vis(), f, ty)
            vis = self.noise(4) + vis
            key = str(k) if tuple_like else f
            if how == "skip":
                lines.append(self.noise(4) + "#[ssz(skip_serializing, skip_deserializing)] " + vis)
                sub.append("%s: %s => skip" % (key, ty))
            elif isinstance(how, tuple):
                lines.append("#[ssz(with = \"%s\")] " % how[0] + vis)
                sub.append("%s: %s => %s" % (key, ty, how[1]))
            else:
                lines.append(vis)
                sub.append("%s: %s => Plain" % (key, ty))
        body = "(%s);" % ", ".join(lines) if tuple_like else " { %s }" % ", ".join(lines)
        code = "    %s\n    #[ssz(struct_behaviour = \"transparent\")]\n    pub struct %s%s\n" \
               "    reg::subject_transparent!([] %s { %s });\n" % (
                   DER, name, body, name, ", ".join(sub))
        return self.mod(code, [name])

    def enum(self, kind, variants, name="E", weight=1, generics=None, insts=None):
        beh = {"Union": "union", "TransEnum": "transparent"}[kind]
        g = "<%s>" % generics[0] if generics else ""
        use = "<%s>" % generics[1] if generics else ""
        code = "    %s\n    #[ssz(enum_behaviour = \"%s\")]\n    pub enum %s%s { %s }\n" \
               "    reg::subject_enum!(%s [%s] %s%s { %s });\n" % (
                   DER, beh, name, g, ", ".join(self.noise(5) + "%s(%s%s)" % (v[0], self.noise(9), v[1])
                                              for v in variants), kind,
                   "<%s>" % generics[2] if generics else "", name, use,
                   ", ".join("%dusize %s: %s" % (i, v[0], v[1]) for i, v in enumerate(variants)))
        return self.mod(code, insts or [name], weight=weight)

    def tag(self, variants, discr=None, attr="", name="G"):
        code = "    #[derive(Encode, Decode, PartialEq, Eq, PartialOrd, Ord, Debug, Clone)]\n    %s #[ssz(enum_behaviour = \"tag\")]\n    pub enum %s { %s }\n" \
               "    reg::subject_tag!(%s { %s });\n" % (
                   attr, name, ", ".join(self.noise(5) + v + (" = %d" % discr[i] if discr else "")
                                         for i, v in enumerate(variants)), name,
                   ", ".join("%dusize %s" % (i, v) for i, v in enumerate(variants)))
        return self.mod(code, [name])

    def asym_struct(self, fields, transparent=False, tuple_like=False, sides="both", name="A"):
        """fields: (name, type, skip_ser, skip_de)"""
        lines, args = [], []
        for k, (f, ty, ss, sd) in enumerate(fields):
            at = [a for a, on in (("skip_serializing", ss), ("skip_deserializing", sd)) if on]
            at = "#[ssz(%s)] " % ", ".join(at) if at else ""
            lines.append(at + ("pub %s" % ty if tuple_like else "pub %s: %s" % (f, ty)))
            args.append("%s: %s, %s, %s" % (str(k) if tuple_like else f, ty,
                                            str(bool(ss)).lower(), str(bool(sd)).lower()))
        body = "(%s);" % ", ".join(lines) if tuple_like else " { %s }" % ", ".join(lines)
        der = {"both": "Encode, Decode", "enc": "Encode", "dec": "Decode", "ref": "Encode"}[sides]
        if sides == "ref":
            body = body.replace(": ", ": &'a ")
            name_g = name + "<'a>"
        else:
            name_g = name
        code = "    #[derive(%s, PartialEq, Debug, Clone)]\n    %s\n    pub struct %s%s\n" % (
            der, "#[ssz(struct_behaviour = \"transparent\")]" if transparent else "", name_g, body)
        return self.mod(code, [], asym=["%s, %s, %s { %s }" % (
            name, str(transparent).lower(), sides, "; ".join(args))])


# ---------------------------------------------------------------------------------------------
def catalogue(g):
    for ty in ("u8 u16 u32 u64 u128 usize bool NonZeroUsize U128 U256 Address Bloom Bytes "
               "BitVectorDynamic FixPair VarPair MixUnion ThreeTag Unit0 WrapVec WrapU32").split():
        g.t(ty, 2)
    for n in (0, 1, 2, 4, 5, 20, 31, 32, 48, 96, 256):
        g.t("FixedBytes<%d>" % n)
    for n in (0, 1, 2, 3, 4, 5, 8, 16, 20, 31, 32, 33, 48, 64, 96, 128, 256, 1000):
        g.t("[u8; %d]" % n)
    for n in list(range(0, 34)) + [63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513,
                                   1023, 1024, 2048, 4096]:
        p = "typenum::" if n in (128, 256) else ""  # U128 and U256 are the integers here
        g.t("BitList<%sU%d>" % (p, n))
        g.t("BitVector<%sU%d>" % (p, n))
    # capacities far above what any input holds
    for c in ("U65536", "U1073741824", "U1099511627776"):
        g.t("BitList<%s>" % c)
    g.t("BitVector<U65536>")
    g.t("(u8, BitList<U1073741824>, Vec<u8>)")
    g.t("Vec<BitList<U1073741824>>")
    g.t("Option<BitList<U1099511627776>>")
    for e in ("Add1<U1024>", "Sub1<U2048>", "Add1<U2048>"):
        g.t("BitList<%s>" % e)
        g.t("BitVector<%s>" % e)
    for i in ("u8 u16 u32 u64 u128 usize bool NonZeroUsize U128 U256 Address Bloom Bytes FixPair "
              "VarPair MixUnion ThreeTag WrapVec WrapU32 BitVectorDynamic").split() + [
                  "FixedBytes<4>", "[u8; 3]", "[u8; 33]", "BitVector<U9>", "BitList<U9>",
                  "Option<u8>", "Option<Vec<u8>>", "Vec<u8>", "Vec<u16>", "Vec<Vec<u8>>",
                  "Vec<Vec<Vec<u8>>>", "(u8, u16)", "(u8, Vec<u8>)", "(Vec<u8>, u16, Vec<u16>)",
                  "Arc<u64>", "Arc<Vec<u8>>", "BTreeMap<u8, u16>", "BTreeSet<u16>",
                  "Option<Option<u8>>", "SmallVec<[u8; 4]>"]:
        g.t("Vec<%s>" % i, 2)
        if i not in ("Bloom", "U128"):
            g.t("Option<%s>" % i)
        if i in ("u8", "u16", "bool", "FixPair", "VarPair", "MixUnion", "Vec<u8>", "Bytes",
                 "BitList<U9>", "Option<u8>", "NonZeroUsize", "(u8, u16)", "(u8, Vec<u8>)",
                 "ThreeTag", "[u8; 3]"):
            g.t("SmallVec<[%s; 2]>" % i)
            g.t("SmallVec<[%s; 8]>" % i)
            g.t("Arc<%s>" % i)
    # deep
    for t in ("Vec<Vec<Vec<Vec<Vec<Vec<u8>>>>>>", "Vec<Vec<Vec<Vec<Vec<(u8, u16)>>>>>",
              "Option<Option<Option<Option<Option<Option<u8>>>>>>", "Arc<Option<Arc<Vec<Arc<(u8, Arc<Vec<u8>>)>>>>>",
              "(u8, (u8, (u8, (u8, (u8, Vec<u8>)))))", "(((((Vec<u8>, u8), u8), u8), Vec<u8>), u8)",
              "((((u8, u16), u8), u32), (u8, (u8, u64)))", "BTreeMap<u8, BTreeMap<u8, BTreeMap<u8, Vec<u8>>>>",
              "Vec<Option<BTreeMap<u8, Vec<(u16, Option<Vec<u8>>)>>>>", "Option<Vec<Option<Vec<Option<Vec<u16>>>>>>",
              "SmallVec<[SmallVec<[SmallVec<[u16; 2]>; 2]>; 2]>"):
        g.t(t)
    # fixed sizes that need a third byte
    for t in ("[u8; 65535]", "[u8; 65536]", "[u8; 70000]", "FixedBytes<65537>", "Vec<[u8; 65536]>",
              "(u8, [u8; 65536], Vec<u8>, u16, Vec<u16>)", "(FixedBytes<40000>, [u8; 30000], u8)", "Option<[u8; 65536]>",
              "BTreeMap<u8, [u8; 65536]>"):
        g.t(t)
    g.t("SmallVec<[u16; 0]>")
    g.t("SmallVec<[Vec<u8>; 1]>")
    g.t("Arc<Arc<Vec<u16>>>")
    g.t("Option<Arc<Option<u16>>>")
    g.t("Vec<Option<Vec<Option<u8>>>>")
    tuples(g)
    maps(g)
    zero_lists(g)


def tuples(g):
    fx = ["u8", "u16", "u32", "u64", "[u8; 3]", "bool", "u128", "FixedBytes<5>", "Address",
          "[u8; 7]", "[u8; 9]", "U256"]
    vr = ["Vec<u8>", "Vec<u16>", "Option<u8>", "BitList<U9>", "VarPair", "Bytes", "Vec<u32>",
          "Option<u16>", "Vec<bool>", "BTreeSet<u8>", "SmallVec<[u16; 2]>", "Arc<Vec<u8>>"]
    for n in range(2, 13):
        a = fx[:n]
        b = vr[:n]
        alt = [fx[i] if i % 2 == 0 else vr[i] for i in range(n)]
        alt2 = [vr[i] if i % 2 == 0 else fx[i] for i in range(n)]
        first = [vr[0]] + fx[1:n]
        last = fx[:n - 1] + [vr[n - 1]]
        for t in (a, b, alt, alt2, first, last):
            g.t("(%s)" % ", ".join(t), 2 if n <= 4 else 1)
    g.t("(u8, (u16, Vec<u8>), Vec<(u8, u16)>)")
    g.t("((u8, u16), (u32, bool))")
    g.t("(Unit0, u8)")
    g.t("(Vec<u8>, Unit0, [u8; 0], Vec<u8>)")
    g.t("(Unit0, Unit0)")


MAPS = ["BTreeMap<u8, u8>", "BTreeMap<u16, u32>", "BTreeMap<u8, Vec<u8>>",
        "BTreeMap<Vec<u8>, u16>", "BTreeMap<Vec<u8>, Vec<u16>>", "BTreeMap<bool, u64>",
        "BTreeMap<U256, Address>", "BTreeMap<u128, [u8; 3]>", "BTreeMap<FixPair, VarPair>",
        "BTreeMap<VarPair, FixPair>", "BTreeMap<(u8, u16), bool>",
        "BTreeMap<(u8, Vec<u8>), Option<u8>>", "BTreeMap<Option<u8>, MixUnion>",
        "BTreeMap<ThreeTag, Vec<u8>>", "BTreeMap<FixedBytes<4>, BitList<U9>>",
        "BTreeMap<u8, BTreeMap<u8, u8>>", "BTreeMap<u16, BTreeSet<Vec<u8>>>",
        "BTreeMap<BTreeSet<u8>, u8>", "BTreeMap<NonZeroUsize, BitVector<U9>>",
        "BTreeMap<Unit0, u8>", "BTreeMap<u8, Unit0>", "BTreeMap<usize, Arc<Vec<u8>>>",
        "BTreeMap<Address, Bloom>", "BTreeMap<SmallVec<[u8; 2]>, u8>", "BTreeMap<Bytes, Bytes>",
        "BTreeMap<u64, u64>", "BTreeMap<Arc<u16>, u8>", "BTreeMap<Unit0, Vec<u8>>"]
SETS = ["BTreeSet<u8>", "BTreeSet<u16>", "BTreeSet<u64>", "BTreeSet<u128>", "BTreeSet<bool>",
        "BTreeSet<U256>", "BTreeSet<Vec<u8>>", "BTreeSet<Vec<u16>>", "BTreeSet<FixPair>",
        "BTreeSet<VarPair>", "BTreeSet<(u8, u16)>", "BTreeSet<(u8, Vec<u8>)>",
        "BTreeSet<Option<u8>>", "BTreeSet<ThreeTag>", "BTreeSet<FixedBytes<4>>",
        "BTreeSet<Address>", "BTreeSet<[u8; 3]>", "BTreeSet<NonZeroUsize>",
        "BTreeSet<BTreeSet<u8>>", "BTreeSet<BTreeMap<u8, u8>>", "BTreeSet<Bytes>",
        "BTreeSet<WrapVec>", "BTreeSet<WrapU32>", "BTreeSet<Arc<Vec<u8>>>",
        "BTreeSet<SmallVec<[u16; 2]>>", "BTreeSet<usize>"]


def maps(g):
    for t in MAPS + SETS:
        g.t(t)


def zero_lists(g):
    for i in ("Unit0", "[u8; 0]", "FixedBytes<0>", "(Unit0, Unit0)"):
        g.t("Vec<%s>" % i)
        g.t("SmallVec<[%s; 2]>" % i)
        g.t("BTreeSet<%s>" % i)
    g.t("BTreeMap<Unit0, Unit0>")
    g.t("BTreeMap<[u8; 0], FixedBytes<0>>")
    g.t("Vec<Vec<Unit0>>")
    g.t("(u8, Vec<Unit0>)")
    g.t("Option<Vec<[u8; 0]>>")
    g.t("Vec<Arc<Unit0>>")


def static_defs(g):
    P = "Plain"
    g.container([])
    g.mod("    %s\n    pub struct U;\n    reg::subject_container!([] U {});\n" % DER, ["U"])
    g.container([("a", "u8", P)], weight=2)
    g.container([("a", "Vec<u8>", P)], weight=2)
    g.container([("a", "u16", P), ("b", "Vec<u16>", P), ("c", "u32", P)], weight=2)
    g.container([("a", "Vec<u8>", P), ("b", "Vec<u16>", P)], weight=2)
    g.container([("a", "Vec<u8>", P), ("b", "u8", P), ("c", "Vec<u8>", P), ("d", "u16", P),
                 ("e", "Vec<Vec<u8>>", P)], weight=2)
    g.container([("a", "u8", P), ("b", "u16", P), ("c", "[u8; 3]", P), ("d", "u64", P),
                 ("e", "bool", P)], weight=2)
    # definitions that do not look like the plain ones
    g.mod("    %s\n    #[ssz(struct_behaviour = \"container\")]\n    /// Words.\n    pub struct S { pub a: u8, pub b: Vec<u16> }\n"
          "    reg::subject_container!([] S { a: u8 => Plain, b: Vec<u16> => Plain });\n" % DER, ["S"])
    g.mod("    macro_rules! define { ($n:ident { $($f:ident: $t:ty),* }) => { %s pub struct $n { $(pub $f: $t),* }\n"
          "        reg::subject_container!([] $n { $($f: $t => Plain),* }); } }\n"
          "    define!(Fx { a: u8, b: [u8; 3], c: (u8, u16) });\n"
          "    define!(Vr { a: Vec<u8>, b: u16, c: Option<(u8, Vec<u8>)> });\n" % DER,
          ["Fx", "Vr", "Vec<Vr>"])
    g.mod("    macro_rules! define { ($n:ident { $($v:ident($t:ty) = $i:literal),* }) => { %s #[ssz(enum_behaviour = \"union\")]\n"
          "        pub enum $n { $($v($t)),* }\n        reg::subject_enum!(Union [] $n { $($i $v: $t),* }); } }\n"
          "    define!(E { A(u8) = 0usize, B(Vec<u16>) = 1usize, C((u8, Vec<u8>)) = 2usize });\n" % DER, ["E"])
    g.mod("    pub trait As { type X; }\n    impl As for u8 { type X = u16; }\n    impl As for u16 { type X = Vec<u8>; }\n"
          "    pub type Al = Vec<u16>;\n    pub const LEN: usize = 5;\n"
          "    %s\n    pub struct S { pub a: <u8 as As>::X, pub b: Al, pub c: [u8; LEN], pub d: ::std::vec::Vec<u8>,\n"
          "        pub e: [u8; 1 + 2], pub f: (u8), pub g: self::Al, pub h: <u16 as As>::X, pub i: core::option::Option<u8> }\n"
          "    reg::subject_container!([] S { a: u16 => Plain, b: Vec<u16> => Plain, c: [u8; 5] => Plain, d: Vec<u8> => Plain,\n"
          "        e: [u8; 3] => Plain, f: u8 => Plain, g: Vec<u16> => Plain, h: Vec<u8> => Plain, i: Option<u8> => Plain });\n" % DER, ["S"])
    g.mod("    %s\n    pub struct D<A: Encode + Decode = u8, const N: usize = 3> { pub a: A, pub b: [u8; N], pub c: Vec<A> }\n"
          "    reg::subject_container!([<A: Subject, const N: usize>] D<A, N> { a: A => Plain, b: [u8; N] => Plain, c: Vec<A> => Plain });\n" % DER,
          ["D", "D<u16>", "D<Vec<u8>, 0>"])
    g.container([("a", "u8", P), ("s", "Vec<u8>", ("codec_fix4", "skip")), ("b", "Vec<u8>", P)])
    g.container([("s", "Vec<u8>", ("codec_fix4", "skip")), ("b", "u32", P),
                 ("t", "Vec<u8>", ("codec_fix4", "Fix4"))])
    # 20 and 40 fields
    g.container([("f%d" % i, ["u8", "Vec<u8>", "u16", "Option<u8>", "bool"][i % 5], P)
                 for i in range(20)])
    g.container([("f%d" % i, ["u8", "u16", "[u8; 3]"][i % 3], P) for i in range(40)])
    g.container([("f%d" % i, "Vec<u8>", P) for i in range(33)])
    # beyond what a byte counts: fields, and fixed parts beyond two bytes
    g.container([("f%d" % i, ["u8", "Vec<u8>"][i in (0, 128, 255, 256, 299)], P) for i in range(300)])
    g.container([("f%d" % i, ["u8", "Vec<u8>", "u16"][i % 3], P) for i in range(130)])
    g.container([("f%d" % i, "u8", P) for i in range(260)])
    g.container([("a", "Vec<u8>", P), ("b", "[u8; 65536]", P), ("c", "u8", P), ("d", "Vec<u16>", P)])
    g.container([("a", "[u8; 65535]", P), ("c", "u16", P)])
    # more than 256 bytes of fixed part, so that the first offset needs two bytes
    g.container([("a", "Bloom", P), ("b", "Vec<u8>", P), ("c", "[u8; 96]", P),
                 ("d", "Vec<u16>", P)])
    # skipped fields
    for k in range(4):
        f = [("a", "u8", P), ("b", "Vec<u16>", P), ("c", "u32", P)]
        f.insert(k, ("s", "String", "skip"))
        g.container(f)
    g.container([("a", "u8", P), ("s", "u64", "skip"), ("c", "u32", P)])
    g.container([("s", "u64", "skip"), ("t", "Vec<u8>", "skip")])
    g.container([("s", "u64", "skip"), ("b", "Vec<u8>", P), ("t", "Vec<u8>", "skip"),
                 ("u", "u8", "skip"), ("c", "u16", P), ("v", "Option<u64>", "skip")])
    # field codecs
    w24 = ("codec_u24", "Codec24")
    wbl = ("codec_blob", "BlobCodec")
    wf4 = ("codec_fix4", "Fix4")
    wbu = ("codec_boolu", "BoolU")
    g.container([("a", "Opaque24", w24), ("b", "u8", P)])
    g.container([("b", "u8", P), ("a", "Opaque24", w24), ("c", "Vec<u8>", P)])
    g.container([("a", "Blob", wbl), ("b", "u8", P)])
    g.container([("b", "Vec<u8>", P), ("a", "Blob", wbl), ("c", "u16", P)])
    g.container([("a", "Vec<u8>", wf4), ("b", "u8", P)])
    g.container([("x", "Vec<u8>", P), ("a", "Vec<u8>", wf4), ("b", "Vec<u8>", P)])
    g.container([("a", "bool", wbu), ("b", "bool", P)])
    g.container([("b", "u8", P), ("a", "bool", wbu), ("c", "Vec<u8>", wf4),
                 ("d", "Opaque24", w24), ("e", "Blob", wbl), ("s", "String", "skip")])
    for m, t in LEGACY:
        g.container([("a", "u8", P), ("o", "Option<%s>" % t, (m, "LegacyOpt")),
                     ("b", "Vec<u8>", P)])
    g.container([("o", "Option<u16>", ("leg_u16", "LegacyOpt"))])
    g.container([("o", "Option<u16>", ("leg_u16", "LegacyOpt")),
                 ("p", "Option<u16>", ("leg_u16", "LegacyOpt")),
                 ("q", "Option<u16>", P), ("r", "Option<Vec<u8>>", ("leg_bytes", "LegacyOpt"))])
    # hygiene
    for n in NAMES:
        g.container([(n, "u8", P), ("zz", "u16", P), ("yy", "[u8; 3]", P)])
        g.container([(n, "Vec<u8>", P), ("zz", "u16", P), ("yy", "Vec<u16>", P)])
    for n in ("bytes", "slice", "decoder", "builder"):
        g.container([("aa", "u16", P), (n, "[u8; 7]", P), ("zz", "u16", P)])
        g.container([("aa", "u16", P), (n, "u64", "skip"), ("zz", "u16", P)])
        g.container([("aa", "u16", P), (n, "String", "skip"), ("zz", "Vec<u16>", P)])
        g.container([(n, "Opaque24", w24), ("zz", "Opaque24", w24)])
    g.container([("bytes", "Vec<u8>", P), ("slice", "Vec<u8>", P), ("decoder", "u8", P),
                 ("builder", "Vec<u8>", P), ("encoder", "Vec<u16>", P), ("offset", "u32", P),
                 ("buf", "Vec<u8>", P)])
    g.container([("bytes", "u32", P), ("slice", "u16", P), ("decoder", "u8", P),
                 ("builder", "u64", P), ("encoder", "u16", P), ("offset", "u32", P),
                 ("buf", "[u8; 9]", P)])
    # generics
    g.container([("a", "A", P), ("b", "B", P)], name="Gen", generics="A: Encode + Decode, B: Encode + Decode",
                bounds="A: Subject, B: Subject",
                insts=["Gen<u8, u16>", "Gen<u8, Vec<u8>>", "Gen<Vec<u16>, u8>",
                       "Gen<Vec<u16>, Option<u8>>", "Gen<Gen<u8, u8>, Gen<u8, Vec<u8>>>"])
    g.container([("a", "[u8; N]", P), ("b", "Vec<u8>", P)], name="Cg", generics="const N: usize",
                bounds="const N: usize", insts=["Cg<0>", "Cg<1>", "Cg<33>"])
    g.container([("a", "[u8; N]", P), ("b", "u16", P)], name="Ch", generics="const N: usize",
                bounds="const N: usize", insts=["Ch<0>", "Ch<5>"])
    g.container([("a", "Vec<A>", P), ("b", "u8", P)], name="Wh", generics="A", bounds="A: Subject",
                where="where A: Encode + Decode", insts=["Wh<u8>", "Wh<Vec<u8>>", "Wh<FixPair>"])
    # transparent structs
    for tup in (False, True):
        for t in ("u8", "u64", "Vec<u8>", "Vec<Vec<u16>>", "Option<u16>", "VarPair", "FixPair",
                  "[u8; 32]", "BTreeMap<u8, u16>", "MixUnion", "ThreeTag"):
            g.transparent([("bytes" if t == "u64" else "inner", t, P)], tup)
        g.transparent([("s", "u64", "skip"), ("a", "Vec<u16>", P)], tup)
        g.transparent([("a", "u32", P), ("s", "String", "skip")], tup)
        g.transparent([("s", "u64", "skip"), ("a", "Vec<u8>", P), ("t", "String", "skip")], tup)
        g.transparent([("s", "u8", "skip"), ("t", "Vec<u8>", "skip"), ("a", "u16", P)], tup)
        g.transparent([("a", "Option<u16>", ("leg_u16", "LegacyOpt"))], tup)
        g.transparent([("s", "u8", "skip"), ("a", "Option<Vec<u8>>", ("leg_bytes", "LegacyOpt"))], tup)
        g.transparent([("a", "Opaque24", w24)], tup)
        g.transparent([("a", "Blob", wbl), ("s", "u8", "skip")], tup)
        g.transparent([("a", "bool", wbu)], tup)
    # unions
    g.enum("Union", [("A", "u8")], weight=2)
    g.enum("Union", [("A", "Vec<u8>")])
    g.enum("Union", [("A", "u8"), ("B", "u8")], weight=2)
    g.enum("Union", [("A", "u8"), ("B", "Vec<u8>"), ("C", "FixPair"), ("D", "VarPair"),
                     ("E", "MixUnion"), ("F", "Option<u8>"), ("G", "Unit0"), ("H", "[u8; 0]")])
    g.enum("Union", [("V%d" % i, ["u8", "Vec<u16>", "u32"][i % 3]) for i in range(128)])
    g.enum("Union", [("V%d" % i, ["u8", "Vec<u16>", "u32"][i % 3]) for i in range(127)])
    g.enum("Union", [("A", "T"), ("B", "Vec<T>")], name="Gu",
           generics=("T: Encode + Decode", "T", "T: Subject"),
           insts=["Gu<u8>", "Gu<Vec<u8>>", "Gu<VarPair>"])
    # tags
    for n in (1, 2, 3, 5, 100, 127, 128):
        g.tag(["V%d" % i for i in range(n)])
    g.tag(["A", "B", "C"], discr=[5, 2, 9])
    g.tag(["A", "B"], discr=[1, 0])
    g.tag(["A", "B", "C"], discr=[200, 255, 0], attr="#[repr(u8)]")
    g.tag(["Z", "Y", "r#type"])


def trans_enums(g):
    g.enum("TransEnum", [("A", "Vec<u8>")])
    g.enum("TransEnum", [("A", "VarPair"), ("B", "Vec<u16>"), ("C", "Vec<u8>")], weight=3)
    g.enum("TransEnum", [("C", "Vec<u8>"), ("A", "VarPair"), ("B", "Vec<u16>")])
    g.enum("TransEnum", [("A", "BitList<U9>"), ("B", "BitList<U31>"), ("C", "VarPair")])
    g.enum("TransEnum", [("A", "Option<u8>"), ("B", "MixUnion"), ("C", "(u8, Vec<u8>)"),
                         ("D", "Vec<Vec<u8>>")], weight=3)
    g.enum("TransEnum", [("A", "Vec<[u8; 3]>"), ("B", "Vec<u32>"), ("C", "Vec<u16>")], weight=2)
    g.enum("TransEnum", [("A", "Vec<T>"), ("B", "VarPair")], name="Gt",
           generics=("T: Encode + Decode", "T", "T: Subject"),
           # also as a field, in a list, in an option
           insts=["Gt<u32>", "Gt<Vec<u8>>", "Vec<Gt<u16>>", "Option<Gt<u16>>",
                  "(u8, Gt<u32>, Vec<u8>)"])


def asym_defs(g):
    F = False
    T = True
    base = [("a", "u8"), ("b", "Vec<u16>"), ("c", "u32")]
    for ss in range(8):
        for sd in range(8):
            if (ss * 8 + sd) % 3 and (ss, sd) not in ((0, 1), (1, 0), (2, 0), (0, 2), (7, 0), (0, 7)):
                continue
            g.asym_struct([(n, t, ss >> i & 1, sd >> i & 1) for i, (n, t) in enumerate(base)])
    base = [("a", "u8"), ("b", "u64"), ("c", "[u8; 3]")]
    for ss, sd in ((1, 0), (0, 1), (2, 0), (0, 2), (4, 0), (0, 4), (3, 4), (4, 3), (6, 1), (2, 5)):
        g.asym_struct([(n, t, ss >> i & 1, sd >> i & 1) for i, (n, t) in enumerate(base)])
    for sides in ("enc", "dec"):
        g.asym_struct([("a", "u8", F, F), ("b", "Vec<u8>", F, F)], sides=sides)
        g.asym_struct([("a", "u8", T, F), ("b", "Vec<u8>", F, T), ("c", "u16", F, F)], sides=sides)
        g.asym_struct([("a", "u8", F, T), ("b", "u32", T, F), ("c", "u16", F, F)], sides=sides)
    # encoders of borrowed fields
    g.asym_struct([("a", "u16", F, F), ("b", "Vec<u8>", F, F), ("c", "FixPair", F, F)], sides="ref")
    g.asym_struct([("a", "u64", F, F), ("b", "u16", F, F)], sides="ref")
    g.asym_struct([("a", "VarPair", T, F), ("b", "Vec<Vec<u8>>", F, F), ("c", "Option<u8>", F, F)], sides="ref")
    g.asym_struct([("b", "Vec<Vec<u8>>", F, F)], sides="ref", transparent=T)
    g.asym_struct([("a", "u32", T, F), ("b", "u16", F, F)], sides="ref", transparent=T)
    for tup in (F, T):
        # both sides skip the same field or different ones
        g.asym_struct([("a", "u8", T, T), ("b", "u32", F, F)], transparent=T, tuple_like=tup)
        g.asym_struct([("a", "u32", F, F), ("b", "Vec<u8>", T, T)], transparent=T, tuple_like=tup)
        g.asym_struct([("a", "u8", T, F), ("b", "u32", F, T)], transparent=T, tuple_like=tup)
        g.asym_struct([("a", "Vec<u8>", F, T), ("b", "u32", T, F)], transparent=T, tuple_like=tup)
        g.asym_struct([("a", "u8", T, F), ("b", "Vec<u16>", F, F)], transparent=T, tuple_like=tup, sides="enc")
        g.asym_struct([("a", "u8", F, F), ("b", "Vec<u16>", T, F)], transparent=T, tuple_like=tup, sides="enc")
        g.asym_struct([("a", "u8", F, T), ("b", "Vec<u16>", F, F)], transparent=T, tuple_like=tup, sides="dec")
        g.asym_struct([("a", "u8", F, F), ("b", "Vec<u16>", F, T)], transparent=T, tuple_like=tup, sides="dec")


WITHS = [("Opaque24", ("codec_u24", "Codec24"), 3), ("Blob", ("codec_blob", "BlobCodec"), None),
         ("Vec<u8>", ("codec_fix4", "Fix4"), 4), ("bool", ("codec_boolu", "BoolU"), None)]


def random_defs(g, count, legacy_bias=0.12):
    r = g.r
    for _ in range(count):
        k = r.random()
        depth = r.choice([0, 0, 1, 1, 2])
        ref = "super::%s::" % ("d%03d" % g.n)
        if k < 0.62:
            n = r.choice([1, 2, 2, 3, 3, 4, 4, 5, 6, 8, 12])
            mode = r.random()
            names = r.sample(NAMES, min(n, 5)) if r.random() < 0.4 else []
            names += ["f%d" % i for i in range(n)]
            fields, fx, dflt = [], 0, 1
            for i in range(n):
                x = r.random()
                if x < 0.12:
                    fields.append((names[i], r.choice(NOISE), "skip"))
                    continue
                if x < 0.12 + legacy_bias:
                    m, t = r.choice(LEGACY)
                    fields.append((names[i], "Option<%s>" % t, (m, "LegacyOpt")))
                    fx = None
                    continue
                if x < 0.20 + legacy_bias:
                    t, how, f = r.choice(WITHS)
                    fields.append((names[i], t, how))
                    fx = None if (fx is None or f is None) else fx + f
                    continue
                c = g.rand_type(depth, fixed_only=mode < 0.25, var_only=mode > 0.85)
                fields.append((names[i], c[0], "Plain"))
                fx = None if (fx is None or c[1] is None) else fx + c[1]
            g.container(fields)
            if fx != 0:
                g.pool.append((ref + "S", fx, 0, 0))
        elif k < 0.82:
            n = r.choice([1, 2, 3, 4, 5, 7, 9, 17])
            vs = [("V%d" % i, g.rand_type(depth)[0]) for i in range(n)]
            g.enum("Union", vs)
            g.pool.append((ref + "E", None, 0, 0))
        elif k < 0.9:
            c = g.rand_type(depth)
            f = [("inner", c[0], "Plain")]
            for i in range(r.randrange(3)):
                f.insert(r.randrange(len(f) + 1), ("s%d" % i, r.choice(NOISE), "skip"))
            g.transparent(f, r.random() < 0.5)
            if c[1] != 0:
                g.pool.append((ref + "W", c[1], 0, 0))
        else:
            g.tag(["V%d" % i for i in range(r.randrange(1, 40))])
            g.pool.append((ref + "G", 1, 1, 0))


def random_types(g, count):
    seen = set()
    while len(seen) < count:
        c = g.rand_type(g.r.choice([1, 2, 2, 3]))
        t = c[0]
        if t in seen or t in [p[0] for p in g.plain]:
            continue
        seen.add(t)
        g.t(t)


def unions(g):
    body = ["u8", "Vec<u16>", "u32", "Option<u8>", "(u8, Vec<u8>)", "bool", "BitList<U9>"]
    for n in range(1, 129):
        g.enum("Union", [("V%d" % i, body[(i * (1 + n % 3) + n) % 7]) for i in range(n)])
    for i in ("u8", "bool", "u64", "Vec<u8>", "Vec<Vec<u8>>", "VarPair", "FixPair", "MixUnion",
              "Option<u8>", "Option<Option<Vec<u8>>>", "BitList<U9>", "[u8; 0]", "Unit0",
              "(u8, Vec<u16>)", "Arc<u16>", "U256", "ThreeTag", "WrapVec"):
        g.t("Option<%s>" % i)
    g.t("MixUnion")


def generate(profile, seed, extra):
    g = Gen(seed * 1000003 + 17)
    if profile == "codec":
        catalogue(g)
        static_defs(g)
        random_defs(g, 40 + extra)
        random_types(g, 60 + extra)
    elif profile == "c08":
        static_defs(g)
        trans_enums(g)
        asym_defs(g)
        random_defs(g, 110 + 3 * extra)
    elif profile == "c15":
        unions(g)
        random_defs(g, extra)
    elif profile == "c17":
        static_legacy(g)
        random_defs(g, 30 + extra, legacy_bias=0.6)
    elif profile == "c19":
        maps(g)
        zero_lists(g)
        n = 0
        seen = set(MAPS + SETS)
        while n < 40 + extra:
            c = g.rand_type(2)
            if c[0].startswith("BTree") and c[0] not in seen:
                seen.add(c[0])
                g.t(c[0])
                n += 1
    else:
        raise SystemExit("unknown profile " + profile)
    return g


def static_legacy(g):
    P = "Plain"
    for m, t in LEGACY:
        L = ("Option<%s>" % t, (m, "LegacyOpt"))
        g.container([("a", "u8", P), ("o",) + L, ("b", "Vec<u8>", P)])
        g.container([("o",) + L])
        g.container([("o",) + L, ("p",) + L])
        g.container([("x", "Vec<u16>", P), ("o",) + L])
        g.transparent([("o",) + L], True)
    g.container([("o%d" % i, "Option<%s>" % t, (m, "LegacyOpt"))
                 for i, (m, t) in enumerate(LEGACY)])


def emit(g):
    out = [HEAD.replace("#![", "// #![")]
    for _, body in g.mods:
        out.append(body)
    out.append("pub mod plain {\n%s    pub fn add(out: &mut Vec<reg::ops::TypeOps>) {\n" % PRE
               .replace("    use ssz_derive::{Decode, Encode};\n", ""))
    seen = set()
    for t, w in g.plain:
        if t in seen:
            continue
        seen.add(t)
        out.append("        { let mut o = reg::ops::ops::<%s>(\"%s\"); o.weight = %d; out.push(o); }\n"
                   % (t, t, w))
    out.append("    }\n}\n")
    out.append("pub fn registry() -> Vec<reg::ops::TypeOps> {\n    let mut out = vec![];\n    plain::add(&mut out);\n")
    for n, _ in g.mods:
        out.append("    %s::add(&mut out);\n" % n)
    out.append("    out\n}\npub fn asym() -> Vec<reg::work::c08::AsymOps> {\n    #[allow(unused_mut)]\n    let mut out = vec![];\n")
    for n, _ in g.mods:
        out.append("    %s::add_asym(&mut out);\n" % n)
    out.append("    out\n}\n")
    return "".join(out)


def main():
    profile, seed, extra, rs, js = sys.argv[1:6]
    g = generate(profile, int(seed), int(extra))
    text = emit(g)
    try:
        old = open(rs).read()
    except OSError:
        old = None
    if old != text:
        open(rs, "w").write(text)
    json.dump({"profile": profile, "seed": int(seed),
               "modules": {n: b for n, b in g.mods},
               "definitions": len(g.mods), "plain_types": len(g.plain)}, open(js, "w"))


if __name__ == "__main__":
    main()
