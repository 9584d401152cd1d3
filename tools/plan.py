"""What each check runs."""


class Step:
    def __init__(self, crate, profile=None, mode="dev", scale=1.0, cap=150, tier=None, extra=0,
                 seed_shift=0, min_evals=1000, needs=None, kind="monitor"):
        self.crate, self.profile, self.mode = crate, profile, mode
        self.scale, self.cap, self.tier, self.extra = scale, cap, tier, extra
        self.seed_shift, self.min_evals, self.needs = seed_shift, min_evals, needs or {}
        self.kind = kind

    def label(self):
        return "-".join(x for x in (self.crate, self.profile, self.mode) if x)


PROBES = "probes"


def steps(crate, profile=None, quick_scale=1.0, min_evals=1000, needs=None, rounds=3):
    """Quick: one run. Thorough: a deep run, optimised runs with fresh random definitions, and a
    run under AddressSanitizer."""
    def f(tier):
        q = Step(crate, profile, scale=quick_scale, min_evals=min_evals, needs=needs)
        if tier == "quick":
            return [q]
        out = [Step(crate, profile, mode="release", scale=quick_scale, cap=900, extra=60,
                    min_evals=min_evals, needs=needs)]
        for i in range(1, rounds if profile else 2):
            out.append(Step(crate, profile, mode="release", scale=quick_scale * 0.6, cap=500,
                            extra=120, seed_shift=1000 * i, min_evals=min_evals, needs=needs))
        out.append(Step(crate, profile, scale=quick_scale, tier="quick", cap=300,
                        seed_shift=7, min_evals=min_evals, needs=needs))
        out.append(Step(crate, profile, mode="asan", scale=quick_scale * 0.3, tier="quick",
                        cap=400, seed_shift=11, min_evals=0))
        return out
    return f


def both(*fs):
    return lambda tier: [s for f in fs for s in f(tier)]


def probes_first(f):
    return lambda tier: f(tier) + [Step("reg", None, kind=PROBES)]


VALUES = ("Values are generated from each type's schema (styles: empty, single, small, boundary list "
          "lengths, above 64 KiB; every value of the one- and two-byte types and small bitfields; "
          "parts above 2^16 and 2^24 bytes; lists, maps and sets of 255 to 65537 items). ")
INPUTS = ("Byte strings per type: all of at most two bytes where such can be valid, valid encodings, "
          "one-step mutations of them (offset words, selectors, padding and delimiter bits, bools, "
          "truncations, extensions, part swaps), random offset tables, every truncation, and tables of "
          "up to 65537 offsets with the ends changed. ")
TYPES = ("Types: a fixed catalogue of the supported algebra, hand-chosen derived definitions and "
         "definitions generated from the seed. ")

PLAN = {
    "C01": dict(
        steps=steps("reg", "codec", needs={"tall_values": 100, "exhaustive_values": 1000}),
        technique="runtime round-trip monitor over generated types and values",
        note="Each observed value is encoded and decoded by the real code and compared with ==, and "
             "with the model value it was built from.",
        rule=TYPES + VALUES + "Non-trivial: a distinct (type, encoding) with a non-empty encoding."),
    "C02": dict(
        steps=steps("reg", "codec", needs={"tall_values": 100, "accepted": 10000}),
        technique="runtime canonicality monitor: accepted bytes are re-encoded and compared",
        note="Self-contained oracle (no model needed for the verdict); reach comes from mutations "
             "aimed at offsets, selectors, padding and trailing bytes.",
        rule=TYPES + INPUTS + "Non-trivial: a distinct (type, input) that was accepted, or that is a "
             "mutation of a valid encoding."),
    "C03": dict(
        steps=steps("reg", "codec", needs={"tall_values": 100, "exhaustive_values": 1000}),
        technique="runtime comparison with an independent reference serializer",
        note="The oracle is an interpreter of SSZ schemas written from the specification, sharing no "
             "code with the library.",
        rule=TYPES + VALUES + "Non-trivial: a distinct (type, non-empty reference encoding)."),
    "C04": dict(
        steps=steps("reg", "codec", needs={"tall_values": 100, "accepted": 10000}),
        technique="runtime comparison with an independent strict reference deserializer",
        note="Accept/reject and the decoded value are compared on every input; error variants are not. "
             "For types with maps or sets only the forward direction.",
        rule=TYPES + INPUTS + "Non-trivial: a distinct (type, input) that is valid or a mutation of a "
             "valid encoding."),
    "C05": dict(
        steps=both(steps("reg", "codec", needs={"accepted": 10000, "rejected": 10000, "zero_length_items": 100, "tall_values": 100}),
                   steps("offs", quick_scale=1.5, needs={"built": 10000, "lists_refused": 100000}),
                   steps("bits", quick_scale=0.5, needs={"accepted": 10000, "rejected": 10000})),
        technique="runtime panic monitor with overflow checks, guard-page inputs and abort attribution",
        note="Built with overflow checks and debug assertions; inputs end at an inaccessible page; a "
             "supervisor attributes aborts, stack overflows and time-outs to the running case. Thorough "
             "adds AddressSanitizer.",
        rule=TYPES + INPUTS + "Plus the helpers and the builder: extreme registered lengths, every short "
             "registration sequence, limits, refusing collections, inputs above 2^32 bytes. "
             "Non-trivial: a distinct (type or call sequence, non-empty input)."),
    "C06": dict(
        steps=steps("reg", "codec", quick_scale=0.5, needs={"decodes_that_allocated": 10000}),
        technique="runtime allocation monitor: counting allocator around each decode",
        note="Peak live bytes and largest request of each decode against a linear bound computed from "
             "the type (item sizes, growth factor 4), with 64 KiB slack.",
        rule=TYPES + INPUTS + "Plus allocation bombs: tables announcing up to 2^32 items over few bytes, "
             "and well-formed tables of many empty items. Non-trivial: a distinct (type, input) whose "
             "decoding allocated."),
    "C07": dict(
        steps=steps("reg", "codec", needs={"tall_values": 100, "metadata_compared": 100, "lengths_past_2^32": 100}),
        technique="runtime monitor of predicted against produced sizes and of the static metadata",
        note="Sizes of every generated value through T, &T, &&T and Arc<T>; all input lengths around "
             "each fixed size offered to its decoder.",
        rule=TYPES + VALUES + "Non-trivial: a distinct (type, value) with a non-empty encoding, or a "
             "distinct (type, input) of a length near the advertised one."),
    "C08": dict(
        steps=probes_first(steps("reg", "c08", quick_scale=0.5, needs={"accepted": 10000, "asymmetric_values": 1000, "tall_values": 50})),
        technique="generated derive definitions monitored against a reference codec; compile probes",
        note="Definitions (fields, attributes, generics, hygiene names, variant counts) are generated "
             "together with their schema; encoder, decoder and metadata are compared with the "
             "reference codec; definitions without a meaning are compiled one by one.",
        rule="Definitions: a hand-chosen list over the attribute combinations plus random ones from the "
             "seed. " + VALUES + INPUTS + "Non-trivial: a distinct (definition, encoding or input)."),
    "C09": dict(
        steps=steps("offs", quick_scale=3, needs={"offset_words": 1 << 32, "exhaustive_shapes": 341, "accepted": 100000}),
        technique="runtime monitor of the slices handed out, against a reference partition",
        note="Address and length of every slice observed through decode_next_with / item decoders; the "
             "offset word codec is run on all 2^32 values.",
        rule="Registration sequences (every one of up to four items of 1..3 bytes or variable, with every "
             "small value of every offset word; random ones of up to 60 items and thousands) and lists (every "
             "assignment of words over up to 19 bytes; random) x layouts and their one-step neighbours, "
             "truncations and bit flips of words, inputs of more than 2^32 bytes. Non-trivial: a distinct "
             "(sequence, input) that is a partition, or a sampled neighbour."),
    "C10": dict(
        steps=steps("reg", "codec", needs={"tall_values": 100, "manual_containers": 1000, "manual_past_2^16": 50}),
        technique="runtime monitor of encoder call histories with pre-filled buffers",
        note="Every encoding entry point against the standalone encoding after a random prefix; random "
             "nested SszEncoder append histories against the parts' own encodings.",
        rule=TYPES + "Values of each type behind random prefixes (0 to 400 bytes) and random trees of "
             "container-encoder calls (append, append by reference, append_parameterized, nested). "
             "Non-trivial: a distinct (type, prefix and encoding) or tree."),
    "C11": dict(
        steps=steps("bits", quick_scale=3, needs={"tall_fields": 20, "exhaustive_states": 4000, "shifts": 10000, "sets": 10000}),
        technique="runtime model-based monitor of bitfield call histories",
        note="After every call the accessors, byte view, encodings, equality and hash of the real value are "
             "compared with a vector of bools and a freshly built twin.",
        rule="All three kinds over 50 capacities x random histories of set, shift, difference and clone, plus "
             "every state of the small fields under every call; fields of 65528 to 131080 bits. Non-trivial: a distinct (type, bit content)."),
    "C12": dict(
        steps=steps("bits", quick_scale=5, needs={"tall_pairs": 50, "exhaustive_pairs": 1000, "results": 100000}),
        technique="runtime comparison of set operations with set algebra on bit vectors",
        note="Bits, lengths, byte view and round trip of each result; subset relation; operands unchanged.",
        rule="Pairs of fields of equal and different lengths, all pairs of small ones; fields of 65528 to 131080 bits. Non-trivial: a distinct "
             "(type, pair)."),
    "C13": dict(
        steps=steps("bits", quick_scale=10, needs={"tall_fields": 50, "obtained": 10000, "refused": 10000, "resizes_up": 1000}),
        technique="runtime monitor of the length of every bitfield obtained by any route",
        note="Constructors, byte decoders, SSZ, serde, set operations, shifts, clone, resize and the dynamic "
             "constructors, with requests around every bound and up to usize::MAX.",
        rule="Types x routes x lengths and byte strings around the bound (0 to 131072 bits and beyond). Non-trivial: a distinct (type, byte "
             "string or bit content)."),
    "C14": dict(
        steps=steps("bits", quick_scale=1, needs={"tall_fields": 50, "accepted": 10000, "rejected": 10000, "values": 10000}),
        technique="runtime comparison of the byte functions with the codec and the validity rules",
        note="Accept/reject and value of from_bytes and from_ssz_bytes against each other and the "
             "specification; into_bytes and into_raw_bytes against the encoding.",
        rule="Every string of up to two bytes per type, valid encodings and their mutants, single flipped bits; fields of up to 131080 bits. "
             "Non-trivial: a distinct (type, string)."),
    "C15": dict(
        steps=steps("reg", "c15", needs={"selector_bytes": 25600, "variants_encoded": 8000}),
        technique="runtime monitor over unions of every variant count and every selector byte",
        note="All 128 variant counts, all variants, all 256 selector bytes with several bodies each; "
             "split_union_bytes and UnionSelector on all bytes.",
        rule="Unions of 1..128 variants, Option types and random unions x 256 selectors x bodies (empty, "
             "valid, of another variant, too long, random). Non-trivial: a distinct (union, bytes)."),
    "C16": dict(
        steps=steps("offs", quick_scale=8, needs={"over_the_limit": 100000, "huge_over_the_limit": 1000, "within_the_limit": 100000}),
        technique="runtime monitor of item decodes and allocations under limits",
        note="Item decoder calls are counted and allocations metered while the list function runs; results "
             "are compared with a reference partition and with the unlimited result.",
        rule="Lists and near-lists (also gigabytes of announced items) x limits (0..count+1, overflow-prone "
             "ones) x twenty target collections (growing, sorted, bounded, refusing early, late, or when "
             "empty). Non-trivial: a distinct (collection, input)."),
    "C17": dict(
        steps=steps("reg", "c17", quick_scale=0.6, needs={"accepted": 1000}),
        technique="runtime monitor of the legacy option modules against a reference codec",
        note="Modules made by four_byte_option_impl! for 21 payload types, standalone (functions of the "
             "module) and as field codecs of derived containers.",
        rule="Payload types x values (prefixed buffers) and inputs: short strings, mutations, selectors "
             "with up to two non-zero bytes, truncations. Non-trivial: a distinct (payload, bytes)."),
    "C18": dict(
        steps=steps("bits", quick_scale=2, needs={"tall_fields": 20, "serialized": 10000, "accepted": 10000, "spoiled_strings": 10000}),
        technique="runtime comparison of serde text with a reference hex codec",
        note="Serialised text, and accept/reject and value of deserialised text, through serde_json.",
        rule="Types x values and texts: valid, upper and mixed case, missing or doubled prefix, odd digits, "
             "non-hex characters, invalid bit strings; fields of up to 131080 bits. Non-trivial: a distinct (type, text)."),
    "C19": dict(
        steps=steps("reg", "c19", quick_scale=0.5, needs={"well_formed_accepted": 1000, "tall_values": 50}),
        technique="runtime monitor of maps and sets against a reference of sorted entry lists",
        note="Model collections decide encodings; entry lists in any order with duplicates, and mutated "
             "ones, decide decoding.",
        rule="Maps and sets over fixed- and variable-size keys and values x collections and entry lists "
             "(shuffled, duplicated, mutated). Non-trivial: a distinct (type, bytes)."),
    "C20": dict(
        steps=steps("arb", quick_scale=0.6, needs={"types_reached": 180, "generated": 100000}),
        technique="runtime monitor of generated values under a counting allocator and abort attribution",
        note="Each value generated from raw data is checked for valid length, clean padding, byte view and "
             "round trip; panics, aborts and runaway allocation are caught.",
        rule="Types of all three kinds x raw data (empty, short, all-zero, all-one, long, random) x depth "
             "hints. Non-trivial: a distinct (type, raw data) that produced a value."),
}
