"""What each check runs: harness entries, their parameters, bounds and assumptions."""

COMMON_ASSUMPTIONS = [
    "LLVM IR of the harness crate (opt-level 1, overflow checks and debug assertions on, panic=abort, fat LTO over /repo's crates and std) stands for the library",
    "the executor's semantics of that IR and Z3 are trusted; sampled paths are re-run natively from the same build and must agree",
    "allocation succeeds below the harness limit; allocations above it are reported",
]


class Job:
    def __init__(s, entry, params=(), reach=(), time=600, samples=16, solver_ms=60000, weight=1, path_instrs=200_000_000, cross=True):
        s.entry, s.params, s.reach, s.time, s.samples, s.solver_ms, s.weight, s.path_instrs, s.cross = entry, [int(x) for x in params], list(reach), time, samples, solver_ms, weight, path_instrs, cross


class Check:
    extra_technique = note = ""

    def __init__(s, feature, jobs, bounds, reach=(), assumptions=()):
        s.feature, s.jobs, s._b, s.reach, s.assumptions = feature, jobs, bounds, list(reach), list(assumptions)

    def bounds(s, tier):
        b = s._b
        return b(tier) if callable(b) else b


CHECKS = {}
# properties that are not claimed, with the reason
NOT_APPLICABLE = {}

# ---- files: F01..F06, L05 -------------------------------------------------------------------
# params of the generic generator: version, deviations, default inner variant, array length, string length, NaN, longest array
FORMATS = {
    # name: (versions, number of variants of its largest inner data enum)
    "modl": ([0], 1), "skel": ([0], 1), "hlpb": ([0], 2), "nlst": ([0], 1), "nufx": ([0, 1], 1), "shdr": ([0], 4),
    "matl": ([0, 1], 9), "mesh": ([0, 1, 2], 5), "anim": ([0, 1, 2], 6), "nrpd": ([0], 19), "adj": ([99], 1), "meshex": ([99], 1),
}


def fmt_jobs(prefix, names, tier, tag):
    out = []
    for n in names:
        vers, k = FORMATS[n]
        for v in vers:
            e = prefix + n
            R = [tag]
            # one deviation around several base shapes
            for var in range(k):
                out.append(Job(e, [v, 1, var, 1, 2, 0, 2], R, weight=2))
                # something long
                out.append(Job(e, [v, 1, var, 1, 2, 0, 300 if tier == "quick" else 3000], R, weight=3, path_instrs=2_000_000_000))
            if n in ("modl", "nlst", "adj", "shdr") and prefix != "y_":
                out.append(Job(e, [v, 1, 0, 1, 2, 0, 66000], R, weight=50, path_instrs=2_000_000_000))
            out.append(Job(e, [v, 1, 0, 2, 3, 0, 3], R, weight=5))
            out.append(Job(e, [v, 1, 0, 0, 0, 0, 2], R))
            # arbitrary float bits: the bytes must survive
            if prefix in ("f_", "y_"):
                out.append(Job(e, [v, 0, 0, 1, 1, 1, 1], R))
            if tier == "thorough":
                for var in range(k):
                    out.append(Job(e, [v, 1, var, 2, 3, 0, 3], R, weight=20))
                    out.append(Job(e, [v, 1, var, 1, 7, 0, 4], R, weight=5))
                if n != "nrpd":
                    out.append(Job(e, [v, 2, 0, 1, 2, 0, 2], R, weight=100))
                    out.append(Job(e, [v, 2, 1, 1, 1, 0, 3], R, weight=100))
            else:
                for var in {"nrpd": [0] if prefix == "f_" else [], "matl": [0, 4] if prefix == "f_" else [0]}.get(n, range(min(k, 2))):
                    out.append(Job(e, [v, 2, var, 1, 2, 0, 2], R, weight=200 if n == "nrpd" else 30))
    return out


def fmt_bounds(tier):
    return {
        "shapes": "arrays of 0..3 elements (0..4 in thorough runs), strings of 0..8 bytes, byte buffers of 0..9 bytes; every shape that differs from a base shape (all arrays empty, length 1 or length 2; each data enum's variant in turn) in at most one decision (array length, string length, enum variant, absent pointer); at most two decisions from one or two base shapes (of render pipelines in F05 only); one array, string or buffer of 300 (thorough: 3000; for four formats 66000) elements, of which the first and last are symbolic",
        "values": "every integer, float (non-NaN for value equality, any bits for byte equality), flag word, string byte (1..0x7f) and buffer byte is symbolic",
    }


for p, names in {"F01": ["modl", "skel", "hlpb", "nlst", "nufx", "shdr"], "F02": ["matl"], "F03": ["mesh"], "F04": ["anim"], "F05": ["nrpd"], "F06": ["meshex", "adj"]}.items():
    CHECKS[p] = Check(p.lower(), (lambda names: lambda tier: fmt_jobs("f_", names, tier, "rt"))(names), fmt_bounds, ["rt"] + (["refused"] if p == "F06" else []),
                      ["values are built through serde's Deserialize of the same types (feature serde)"])
CHECKS["F07"] = Check("f07", lambda tier: fmt_jobs("y_", list(FORMATS), tier, "bytes"), fmt_bounds, ["bytes"],
                      ["the layout of every type is stated in harness/src/layout.rs, recorded from the pinned commit; types without public fields are stated through their serde field names",
                       "zero bytes, fewer than 8, may follow an empty buffer at the end of a file"])
CHECKS["L05"] = Check("l05", lambda tier: fmt_jobs("l_", list(FORMATS), tier, "layout"), fmt_bounds, ["layout"],
                      ["the mesh extension's leading length field is a placeholder that is rewritten; it is exempt"])

# ---- building blocks: W01, L01..L04 ----------------------------------------------------------
def J(e, *lists, reach=(), **kw):
    """one job per combination of parameters"""
    import itertools
    return [Job(e, c, reach, **kw) for c in itertools.product(*lists)]


CHECKS["W01"] = Check(
    "w01",
    lambda tier: J("w_prims", range(14), reach=["laid-out"]) + J("w_types", range(29), reach=["laid-out"]) + J("w_vectors", range(5), reach=["laid-out"]),
    lambda tier: {
        "types": "all 12 number types and their non-zero forms, (), options, vectors, fixed arrays and slices of equal and differing element sizes, text, derived named/tuple structs and enums of one and of several fields with every derive option (padding on fields, variants and types, magic, repr, alignment) and pointers, strings and arrays inside them, the five vector and matrix types",
        "values": "every field byte symbolic; positions 0, 3, 8 and 0, 1 or 30 bytes already reserved beyond; collections of 0..3 elements; text of 0..4 bytes",
    },
    ["laid-out"],
    ["align_after pads relative to the end of the file and is not part of a declared size"],
)
CHECKS["L01"] = Check(
    "l01",
    lambda tier: J("l_rel", range(64), reach=["laid-out", "read-back"]) + J("l_abs", range(32), reach=["laid-out", "read-back"]) + J("l_narrow", reach=["fits", "too-far"])
    + J("l_read", range(4), [12, 16, 24] if tier == "quick" else [12, 16, 24, 40], [0, 3], reach=["null", "error"]),
    lambda tier: {
        "shapes": "every combination of present and absent for 6 relative and 5 absolute pointers (16, 32 and 64 bit), nested two deep, to numbers, records, aligned records and text of 5 lengths; starting positions 0, 5, 16 and 4 amounts of space already reserved",
        "values": "all pointee bytes symbolic",
        "reading": "all files of 12, 16 and 24 (thorough: 40) bytes: every stored offset including overflowing ones",
        "narrow": "16-bit pointers at 7 positions around 65536",
    },
    ["laid-out", "read-back", "null", "value", "error", "fits", "too-far"],
)
CHECKS["L02"] = Check(
    "l02",
    lambda tier: J("a_rt", range(8), range(4 if tier == "quick" else 7), range(3 if tier == "quick" else 6), reach=["laid-out", "read-back"])
    + J("a_buf", list(range(10)) + [63, 64, 65], reach=["laid-out", "read-back"])
    + J("a_long", [1023, 1024, 1025, 5000, 65535, 65537, 70000], [0, 1], reach=["long"])
    + J("a_read", range(3), [18, 24] if tier == "quick" else [18, 24, 34], reach=["none", "error"], weight=10),
    lambda tier: {
        "elements": "arrays of 0..3 (thorough 0..6) bytes, u32, text, records owning text, arrays and pointers, arrays, pointers, vectors and byte buffers, with differing inner lengths; byte buffers of 0..9 and 63..65 bytes; byte arrays and buffers around and above 1024 and 65536 elements with 3 symbolic elements",
        "values": "every element byte symbolic",
        "reading": "all files of 18 and 24 (thorough: 34) bytes: every stored offset and count",
    },
    ["laid-out", "read-back", "some", "none", "error", "long"],
)
CHECKS["L03"] = Check(
    "l03",
    lambda tier: J("s_rt", [1, 4, 8, 16], range(5 if tier == "quick" else 7), reach=["string"]) + J("s_types", range(5 if tier == "quick" else 7), reach=["laid-out"])
    + J("s_nul", reach=["laid-out"]) + J("s_read", range(10 if tier == "quick" else 20)) + J("s_null", reach=["null"])
    + J("s_long", [1, 4, 16], [254, 255, 256, 257, 1000] if tier == "quick" else [254, 255, 256, 257, 1000, 4000, 8000], reach=["string"]),
    lambda tier: {
        "strings": "all byte strings of 0..4 (thorough 0..6) bytes, any byte values including NUL and invalid UTF-8, at alignments 1, 4, 8 and 16, several positions; strings of 254..1000 (thorough: 8000) bytes with fixed contents",
        "reading": "all files of 0..9 (thorough 0..19) bytes",
    },
    ["string", "valid", "invalid", "some", "error", "null"],
)
CHECKS["L04"] = Check(
    "l04",
    lambda tier: J("e_rt", reach=["laid-out", "read-back"]) + J("e_tags", range(8), reach=["null", "value", "refused"]) + J("e_param", [0, 1], range(9), reach=["param"]),
    lambda tier: {
        "tags": "all 2^64 tag values for 8 tagged types (material parameters of both versions, five render pass types, one defined here), null and non-null offsets, zero contents",
        "values": "every variant of the material parameters and of a type with three kinds of contents, with symbolic contents",
    },
    ["laid-out", "read-back", "null", "value", "refused", "param"],
)

# ---- reading: R01, R02 ------------------------------------------------------------------------
# kind, version, default inner variant
TEMPLATES = [(0, 0, 0), (0, 0, 1), (1, 0, 0), (1, 1, 1), (1, 1, 4), (2, 0, 0), (3, 0, 0), (3, 1, 0), (3, 2, 0), (4, 0, 0), (5, 0, 0), (5, 1, 0),
             (5, 2, 0), (6, 0, 0), (7, 0, 0), (7, 0, 1), (8, 0, 0), (8, 1, 0), (9, 0, 0), (10, 99, 0), (11, 99, 0)]
LARGE = (0, 3, 7)


def r01(tier):
    out = J("r_any", [0], [0, 8, 20, 24, 32, 40, 48] + ([52] if tier != "quick" else []), reach=["error"], weight=20)
    out += J("r_any", [10], [0, 4, 8, 16, 24, 40], weight=1) + J("r_any", [11], [0, 16, 32, 40] + ([48] if tier != "quick" else []), weight=15)
    for k, v, var in TEMPLATES:
        big = k in LARGE
        quick = tier == "quick"
        if quick and (k, v, var) == (0, 0, 1):
            continue
        parts = 3 if big else 1
        for part in range(parts):
            out.append(Job("r_win", [k, v, var, 1, 1, 8, 8 if big and quick else 4, part, parts], weight=15 if big else 5))
        out.append(Job("r_cut", [k, v, var, 1, 1], ["value"], weight=3))
        if quick and not big:
            out += [Job("r_win", [k, v, var, 1, 1, 16, 8, part, 4], weight=30 if part == 0 else 10) for part in range(4) if part > 1 or k not in (5, 8)]
        if not quick:
            for part in range(8):
                out.append(Job("r_win", [k, v, var, 1, 1, 16, 8, part, 8], weight=100, time=3000))
                out.append(Job("r_win", [k, v, var, 2, 3, 8, 4, part, 8], weight=50, time=3000))
            out.append(Job("r_cut", [k, v, var, 2, 3], ["value"], weight=10))
    if tier != "quick":
        for var in range(2, 19):
            out += [Job("r_win", [7, 0, var, 1, 1, 8, 4, p, 4], weight=20) for p in range(4)]
        for var in range(9):
            out.append(Job("r_win", [1, var % 2, var, 1, 1, 8, 4, 0, 1], weight=5))
    return out


CHECKS["R01"] = Check(
    "r01", r01,
    lambda tier: {
        "any": "all byte sequences of length 0..48 read as the container type (every magic, type and version) and as the raw formats (adjacency 0..40 bytes, mesh extension 0..40)",
        "damaged": "a written file of every format and version with an arbitrary 8-byte run (any offset, count, tag or length) at every multiple of 4 (8 for the larger formats), and (smaller formats) arbitrary 16-byte runs at every multiple of 8 (half of them for animations and shader programs); thorough: 16-byte runs at every multiple of 8 and larger files",
        "cut": "files with symbolic contents cut at every length",
        "allocation": "no single allocation above 101 MiB, the fixed cap of a byte buffer's first reservation (files here are under 2 kB)",
    },
    ["value", "error"],
    ["error message text is not built (format! yields empty text)", "seeks and reads go through a reader equivalent to Cursor that enumerates in-file positions"],
)


def r02(tier):
    out = J("h_read", reach=["accepted", "refused"]) + J("h_typed", range(10), [0, 1], reach=["accepted", "refused"])
    for k, v, var in TEMPLATES:
        if k < 10:
            out += J("h_write", [k], [v], [var], [0, 1], reach=["written"])
    return out


CHECKS["R02"] = Check(
    "r02", r02,
    lambda tier: {
        "headers": "all 2^192 values of the 24 header bytes followed by contents every type accepts, and every shorter file; reading as each of the ten types with every type magic and version, or every container magic and version",
        "written": "one shape of every type and version with symbolic contents, through the type's own writer, and with fixed contents through the container",
    },
    ["accepted", "refused", "wrong-type", "written"],
    ["error message text is not built (format! yields empty text)"],
)

# ---- animation data: A01, A03..A05 ---------------------------------------------------------------
def a01(tier):
    R = ["same"]
    out = []
    for minor in (0, 1):
        for var in range(6):
            out.append(Job("n_any", [minor, 1, var, 1, 2, 2], R, weight=3))
        out.append(Job("n_any", [minor, 1, 0, 2, 3, 3], R, weight=5))
        out += [Job("n_any", [minor, 1, var, 1, 2, 300], R, weight=3) for var in range(6)]
        out += [Job("n_any", [minor, 2, var, 1, 1, 2], R, weight=10) for var in range(6)]
        out.append(Job("n_any", [minor, 3, minor, 1, 1, 2], R, weight=30))
    n = {0: [0, 2, 3, 5], 1: [0, 2, 3, 6], 2: [0, 2, 3, 10], 3: [0, 2, 3, 10], 4: [0, 2, 3, 34], 5: [0, 2, 3, 7]}
    for k, l in n.items():
        for i in l:
            out.append(Job("n_frames", [k, i, 0, i], R, weight=2))
    long = [(3, 11, 0, 3), (3, 11, 4, 4), (3, 11, 10, 1), (3, 12, 4, 2), (4, 35, 0, 6), (4, 36, 30, 6), (4, 41, 33, 8)]
    if tier != "quick":
        long += [(3, 11, 0, 5), (3, 13, 8, 5), (4, 35, 0, 12), (4, 48, 36, 12), (3, 40, 20, 3)]
    return out + [Job("n_frames", c, R, weight=10, time=600 if tier == "quick" else 3000) for c in long]


CHECKS["A01"] = Check(
    "a01", a01,
    lambda tier: {
        "shapes": "groups, nodes, tracks of 0..3 elements, names of 0..8 bytes, every kind of values with 0..3 frames: every shape that differs from a base shape in at most one decision, in at most two, and in at most three for one base shape; 300 groups, nodes, tracks, frames or characters with fixed contents",
        "frames": "uncompressed tracks at the largest lengths that stay uncompressed; compressed boolean and integer tracks of 11, 12, 35, 36 and 41 frames with up to 8 symbolic values",
        "values": "all names' bytes, floats (any bits), integers, booleans and flags symbolic",
    },
    ["same"],
    ["values are built through serde's Deserialize of the same types"],
)


def a02(tier):
    R = ["decoded"]
    out = [Job("q_float", [r, 11, at], R) for r in range(16) for at in (0, 5, 10)] + [Job("q_floats", [r, 11], R, weight=2) for r in range(16)]
    out += [Job("q_float", [r, 40, 33], R) for r in (0, 3)]
    for i in range(6):
        out += [Job("q_vec4", [3 * i + 1, 9, (0, 4, 8)[i % 3], f], R) for f in (i % 4, 5)]
        out += [Job("q_uv", [2 * i, 8, (7, 0, 3)[i % 3], u, f], R) for u, f in ((0, 5), (0, i % 5), (1, 5), (2, 5))]
        out += [Job("q_transform", [3 * i + 2, 7, (3, 6, 0)[i % 3], 0, u], R) for u in (0, 1, 2)] + [Job("q_transform", [3 * i, 7, i, 2, 0], R)]
    out += [Job("q_transform", [0, 7, at, 1, 0], R, weight=5) for at in range(7)]
    if tier != "quick":
        out += [Job("q_float", [r, 11, at], R) for r in range(16) for at in (1, 2, 3, 4, 6, 7, 8, 9)] + [Job("q_float", [r, 64, at], R) for r in range(16) for at in (0, 31, 63)]
        out += [Job("q_floats", [r, 40], R, weight=5) for r in range(16)]
        out += [Job("q_vec4", [r, n, at, f], R, weight=2) for r in range(16) for n, at in ((9, 1), (9, 6), (30, 17)) for f in (0, 1, 2, 3, 5)]
        out += [Job("q_uv", [r, n, at, u, 5], R, weight=2) for r in range(16) for n, at in ((8, 1), (8, 6), (30, 17)) for u in (0, 1, 2)]
        out += [Job("q_transform", [r, n, at, 0, u], R, weight=2) for r in range(16) for n, at in ((7, 1), (7, 5), (30, 17)) for u in (0, 1, 2)]
        out += [Job("q_transform", [r, n, at, 2, 0], R, weight=2) for r in range(16) for n, at in ((7, 1), (30, 17))] + [Job("q_transform", [0, 30, at, 1, 0], R, weight=10) for at in (0, 17, 29)]
    return out


CHECKS["A02"] = Check(
    "a02", a02,
    lambda tier: {
        "values": "all float values of one frame's components inside the ranges spanned by the other frames, at several positions of tracks of 7 to 40 frames (thorough: to 64); all values but the extremes of a float track of 11 frames at once (thorough: 40)",
        "ranges": "16 concrete ranges: units, degrees, wide (2e30), offset, two adjacent floats, subnormal differences, far from zero; every component in its own",
        "mixes": "Vector4 with and without a constant component; texture transforms with differing, equal and nearly equal scales; transforms in which the scale (three ways), the rotation or the translation varies",
        "tolerance": "six steps of 2^-24 of the range plus single precision rounding of the larger bound; constant components, other frames and other components bit for bit",
    },
    ["decoded"],
    ["queries over floats are first relaxed to linear real arithmetic with the rounding error of every operation as a bounded unknown: unsatisfiable there means unsatisfiable here; candidates are evaluated bit for bit",
     "ranges whose width overflows single precision, infinities and NaN are outside (they decode to other values)"],
)


def a03(tier):
    out = []
    for minor in (0, 1):
        for var in range(6):
            out.append(Job("b_any", [minor, 1, var, 1, 2, 2], ["plain"], weight=3))
            out.append(Job("b_any", [minor, 1, var, 1, 2, 300], ["plain", "compressed"] if var != 4 else ["plain"], weight=3))
        out.append(Job("b_any", [minor, 1, 0, 2, 2, 3], ["plain"], weight=5))
        out += [Job("b_any", [minor, 2, var, 1, 1, 2], ["plain"], weight=20) for var in range(6)]
    # kind, frames, constant components, first and number of symbolic signs or values
    long = [(0, n, m, at, c) for n in (7, 8, 9) for m, at, c in ((0, 3, 2), (7, 3, 0), (16, 3, 0), (33, 0, 1), (34, 3, 2), (36, n - 1, 1), (40, 3, 1))]
    long += [(1, n, m, 0, 0) for n in (7, 8) for m in (0, 2, 33, 45)]
    long += [(2, n, m, 0, 0) for n in (11, 12, 20) for m in (0, 1)] + [(5, n, m, 0, 0) for n in (8, 9) for m in (0, 35)]
    long += [(4, 35, 0, 20, 5), (4, 36, 0, 0, 4), (4, 41, 0, 38, 3), (3, 11, 0, 3, 2), (3, 12, 0, 0, 1)]
    if tier != "quick":
        long += [(5, 8, 3, 0, 0), (3, 11, 0, 5, 4), (4, 64, 0, 56, 8), (0, 16, 0, 6, 6), (0, 33, 0, 30, 3)]
    return out + [Job("b_long", c, ["compressed", "plain"], weight=3) for c in long]


CHECKS["A03"] = Check(
    "a03", a03,
    lambda tier: {
        "shapes": "groups, nodes, tracks of 0..3 elements and every kind of values with 0..3 frames: every shape that differs from a base shape in at most two decisions; 300 groups, nodes, tracks, frames or characters with fixed contents; compressed tracks of every kind and several lengths between other tracks, with every combination of constant component groups and uniform scale",
        "values": "uncompressed values symbolic (any bits); in compressed tracks the flags, rotation signs, booleans, up to 4 integers and some constant components are symbolic, varying components are fixed",
    },
    ["plain", "compressed"],
)


def a04(tier):
    quick = tier == "quick"
    out = [Job("n_plain", [t, c, n, o], weight=2) for t in range(6) for c in (0, 1, 3) for n in (((0, 9, 16) if t == 4 else (0, 9, 45)) if quick else ((0, 3, 9, 24) if t == 4 else (0, 3, 9, 24, 45, 90))) for o in (0, 1)]
    for k in range(6):
        p = 2 if k in (0, 1) else 1
        out += [Job("n_win", [k, 4, 4, i, p], weight=20) for i in range(p)]
        if not quick:
            out += [Job("n_win", [k, 8, 4, i, 4], weight=40, time=3000) for i in range(4)]
        else:
            out += [Job("n_win", [k, 8, 4, i, 4], weight=40) for i in range(4) if i or k in (2, 3, 4)]
        out += [Job("n_cut", [k], weight=3), Job("n_bits", [k], ["value", "error"], weight=3)]
    return out + [Job("n_v12", [n], weight=3) for n in ((3, 4, 8, 24, 60, 76, 80) if quick else (0, 3, 4, 7, 8, 16, 24, 40, 60, 61, 76, 80, 92))]


CHECKS["A04"] = Check(
    "a04", a04,
    lambda tier: {
        "uncompressed": "every track type and compression kind with all values of frame count, offset (0 and 1), size and buffers of 0, 9 and 45 (booleans: 16) bytes (thorough: 6 sizes)",
        "compressed": "valid compressed tracks of every kind with an arbitrary 4-byte run at every multiple of 4, with an 8-byte run at every multiple of 4 (quick: not in the first quarter of transform, texture transform and vector tracks), cut at every length, and with arbitrary bit counts",
        "1.2": "version 1.2 tracks with buffers of up to 80 (thorough: 92) arbitrary bytes",
        "allocation": "no single allocation above 1 MiB",
    },
    ["value", "error"],
    ["error message text is not built (format! yields empty text)"],
)
CHECKS["A05"] = Check(
    "a05",
    lambda tier: J("n_range", range(6), reach=["created", "unsupported", "bad-range"]) + [Job("n_long", c, ["long"]) for c in ([0, 5], [0, 6], [2, 300], [1, 40], [5, 100])],
    lambda tier: {
        "all": "all values of both version numbers and all floats as the final frame index, tracks of every kind with 0..3 frames in two groups, and tracks of 5, 6, 40, 100 and 300 frames",
    },
    ["created", "unsupported", "bad-range", "long"],
)

# ---- mesh data: M01..M05 -------------------------------------------------------------------------
def m01(tier):
    S = ["same"]
    quick = tier == "quick"
    out = []
    for minor in (8, 9, 10):
        out += [Job("g_shape", [minor, 1, 1, c, n, k], S) for c, n, k in ((4, 1, 1), (3, 2, 3), (2, 3, 2))]
        out += [Job("g_shape", [minor, 1, 2, 2, 0, 2], S), Job("g_shape", [minor, 2, 1, 3, 2, 1], S, weight=3), Job("g_shape", [minor, 2, 2, 4, 1, 1], S, weight=5)]
        out += [Job("g_shape", [minor, 0, 1, *c], S) for c in ([4, 300, 1], [3, 1, 40], [2, 40, 5])]
        out += [Job("g_shape", [minor, *c], S, weight=3) for c in ([1, 3, 3, 1, 1], [1, 4, 4, 1, 2], [0, 5, 2, 2, 2])]
        if not quick:
            out += [Job("g_shape", [minor, 2, 1, c, 2, 2], S, weight=10) for c in (2, 3, 4)] + [Job("g_shape", [minor, 3, 1, 3, 1, 1], S, weight=50)]
        for u in range(6):
            for c in (2, 3, 4):
                if u == 5 and c == 4:
                    continue
                half = u > 0 and (c == 4 or c == 2 and minor == 10)
                if half:
                    comps = range(c) if not quick else [(u + minor) % c]
                    out += [Job("g_value", [minor, u, c, 1, i], S, weight=15) for i in comps]
                else:
                    out.append(Job("g_value", [minor, u, c, 2, 99], S))
    for b in range(32):
        for i, minor in (((b % 4, (10, 8, 9)[b % 3]),) if quick else [(i, m) for i in range(4) for m in (8, 9, 10)]):
            out.append(Job("g_color", [minor, i, b], ["color"], weight=12, solver_ms=120000))
    return out


CHECKS["M01"] = Check(
    "m01", m01,
    lambda tier: {
        "shapes": "1 to 3 objects with 0..2 attributes of each of the six usages (3 to 5 of each for three base shapes), 2 to 4 components and 0..4 vertices: every shape that differs from a base shape in at most one or two decisions (thorough: three), fixed values; 40 objects, 300 vertices, object names of 400 characters",
        "values": "all 2^32 values of each component of full-precision attributes (2 vertices), of one component of each half-precision attribute, and of one colour component per stored byte (thorough: of every component); subindex, sort bias, depth flags and parent bone name symbolic",
    },
    ["same", "color"],
    ["a half's value is compared with the conversion written from the format's definition, NaN payloads aside"],
)


def m02(tier):
    out = []
    for minor in (8, 9, 10):
        for na, c, n, k, which in ((1, 4, 1, 1, 0), (1, 3, 2, 3, 1), (2, 2, 2, 2, 0), (1, 2, 0, 2, 1), (2, 4, 3, 3, 2), (1, 3, 1, 2, 1)):
            for sym in (0, 1):
                out.append(Job("y_shape", [minor, 1, na, c, n, k, sym, which], ["layout"]))
        out += [Job("y_shape", [minor, 1, 1, 4, 2, 3, 0, w, 1], ["layout"]) for w in (0, 1, 2)]
        out += [Job("y_shape", [minor, 1, 3, 4, 2, 2, 0, 1], ["layout"], weight=3)]
        out += [Job("y_shape", [minor, 2, 2, 4, 2, 2, 0, 1], ["layout"], weight=5), Job("y_shape", [minor, 2, 1, 3, 1, 2, 1, 0], ["layout"], weight=5)]
        if tier != "quick":
            out += [Job("y_shape", [minor, 3, na, c, 1, 2, 1, w], ["layout"], weight=50) for na in (1, 2) for c in (2, 3, 4) for w in (0, 1)]
        out += [Job("y_shape", [minor, 0, 1, 3, n, k, 0, 0], ["layout"], weight=2) for n, k in ((300, 3), (1, 40), (30, 5))]
        out.append(Job("y_wide", [minor], ["layout"], weight=4))
    return out


CHECKS["M02"] = Check(
    "m02", m02,
    lambda tier: {
        "shapes": "1 to 3 objects with 0..2 attributes of each usage, 2 to 4 components, 0..5 vertices and 0..9 indices: every shape in which one object differs from a base shape in at most one or two decisions (thorough: three); objects without indices between others; 40 objects; 300 vertices; an object with 65540 vertices between small ones",
        "values": "attributes stored as 32-bit floats symbolic (any bits), the others fixed",
    },
    ["layout"],
)
CHECKS["M03"] = Check(
    "m03",
    lambda tier: [Job("i_idx", [m, n, k, b], weight=2) for m in (8, 9, 10) for n in (0, 1, 3) for k in range(8 if tier == "quick" else 13) for b in (0, 1)]
    + [Job("i_idx", [m, n, k, 1], weight=10) for m in (8, 9, 10) for n in ((65535, 65536, 65537) if m == 10 or tier != "quick" else (65537,)) for k in (3, 6)]
    + J("i_len", (8, 9, 10), (1, 2), reach=["lengths"], weight=2),
    lambda tier: {
        "indices": "all 2^32 values of each of 0..7 (thorough: 0..12) indices of objects with 0, 1, 3, 65535, 65536 and 65537 vertices, alone and after another object",
        "lengths": "1 or 2 attributes of every usage with lengths 0, 2 and 3 where at most two differ from 2",
    },
    ["narrow", "wide", "faces", "lengths", "range"],
)
CHECKS["M04"] = Check(
    "m04",
    lambda tier: [Job("w_rt", [m, b, w], weight=2) for m in (8, 9, 10) for b, w in ((0, 1), (1, 0), (1, 1), (1, 4), (2, 2), (3, 1)) + (((3, 3), (4, 2)) if tier != "quick" else ())]
    + [Job("w_ids", [m, k], ["same"], weight=2 if k < 4 else 20) for m in (8, 9, 10) for k in ((1, 2, 3) if tier == "quick" else (1, 2, 3, 4))]
    + [Job("w_many", [m, *c], ["same"]) for m in (8, 9, 10) for c in ([300, 1, 1], [2, 300, 1], [1, 1, 40], [1, 2, 300])]
    + J("w_read", (8, 9, 10), range(5), reach=["read"]),
    lambda tier: {
        "weights": "0..3 bones (thorough: 4) with 0..4 weights; every weight's bits and the bone names symbolic; one vertex index at a time takes each of 10 values around 0, 2^8, 2^16 and 2^32 when creating (hashing keeps it from being symbolic) and all values when reading stored weights; 300 bones, weights or objects with symbolic first and last weights",
        "objects": "1 to 3 (thorough: 4) objects with every combination of names and subindices (0, 1, 2^32 and 2^32-1 among them)",
    },
    ["same", "limit", "duplicate", "read"],
)


def m05(tier):
    out = []
    sizes = [8, 12, 16, 4, 8, 4]
    for ty, s in enumerate(sizes):
        half = ty in (3, 4)
        out += [Job("d_attr", [ty, 1, s + 1 if half else s + 5, 0, 1], weight=10), Job("d_attr", [ty, 2, 2 * s + 3, 0, 0], weight=3), Job("d_attr", [ty, 1, 2 * s + 3, 1, int(not half)], weight=5),
                Job("d_attr", [ty, 1, 2 * s, 2, int(not half)]), Job("d_attr", [ty, 4, s, 3, int(not half)]), Job("d_attr", [ty, 5, s, 3, 0])]
        if tier != "quick":
            out += [Job("d_attr", [ty, 1, 3 * s + 9, w, 0], weight=10) for w in range(4)]
    out += [Job("d_attr", [ty, 4, 20 if ty != 5 else 8, 0, 0, b], weight=3) for ty in range(6) for b in range(4)]
    out += [Job("d_many", [m, 1, 20], weight=2) for m in (8, 9)] + [Job("d_many", [m, 2, n], weight=15) for m, n in (((8, 14), (9, 20)) if tier == "quick" else ((8, 14), (8, 20), (9, 14), (9, 20), (9, 11)))]
    out += J("d_index", [0, 1], [0, 1, 7, 10] if tier == "quick" else [0, 1, 2, 3, 4, 7, 10, 16, 21]) + J("d_rig", [0, 5, 6, 13])
    return out


CHECKS["M05"] = Check(
    "m05", m05,
    lambda tier: {
        "attributes": "one attribute of every type with all values of buffer offset and object offset, of stride, of vertex count, or of buffer index (0..5 buffers of 4..40 bytes); two attributes of version 1.8 and 1.9 with small offsets, strides and counts in every combination",
        "indices": "all values of index offset and count over buffers of 0..10 (thorough: 21) arbitrary bytes",
        "rigging": "arbitrary weight bytes of 4 lengths; missing, different and undecodable names of object, group, bone and parent",
    },
    ["value", "error"],
)


# ---- skeletons, models, helper bones, materials, adjacency, mesh extensions, shaders ---------------
CHECKS["S01"] = Check(
    "s01",
    lambda tier: J("k_rt", [1, 2, 3, 4] if tier == "quick" else [1, 2, 3, 4, 5, 6, 7, 8], [0], reach=["same", "refused"], weight=3) + J("k_rt", [1, 2, 3], [300], reach=["same", "refused"])
    + [Job("k_world", [n], ["world", "cycle"], weight=w) for n, w in ((1, 1), (2, 1), (3, 3), (4, 20)) + (((5, 200),) if tier != "quick" else ())]
    + [Job("k_read", [a, b], ["read"]) for a, b in ((0, 0), (1, 1), (2, 1), (1, 2), (2, 2))]
    + [Job("k_chain", [n, to], ["chain"]) for n in (40, 300) for to in (1000, 0, 3, n - 1)]
    + [Job("k_deep", [n, k], ["world", "cycle"], weight=10) for n, k in (((5, 1), (8, 7), (7, 3)) if tier == "quick" else ((5, 1), (8, 7), (7, 3), (12, 5), (12, 11), (20, 9)))]
    + [Job("k_any", [n, at, k], ["any"], weight=1 + n * k) for n in ((1, 2, 3, 5) if tier == "quick" else (1, 2, 3, 5, 8)) for at in sorted({0, n // 2, n - 1}) for k in (0, 1)],
    lambda tier: {
        "conversion": "1 to 4 bones (thorough: 8) with arbitrary transforms (all bits), names of 2 arbitrary characters or one of 7 other lengths or of 300, every billboard setting; one bone at a time has each of 10 parents (none, a bone, dangling, around 2^15, 2^16, 2^32, 2^64)",
        "hierarchies": "every assignment of parents (none, any bone, a missing bone) for 1 to 4 bones (thorough: 5) with fixed integer transforms that do not commute, where the product is exact; chains of 5 to 8 bones (thorough: 20) stored in three orders, of quarter turns with integer offsets, in which any one bone has any parent; chains of 40 and 300 bones, open or closed to a cycle",
        "any transform": "chains of 1, 2, 3 and 5 bones (thorough: 8) in which the first, middle or last has any affine transform with entries from -16 to 16 (world transforms), or any offset in that range (world and inverse transforms); compared to within 0.02",
        "stored": "up to 2 stored bones and transforms with arbitrary parents, indices, flags and matrices",
    },
    ["same", "refused", "world", "cycle", "read", "chain", "any"],
    ["one matrix of a chain is symbolic at a time, the others are fixed; inverses of matrices whose linear part is symbolic are not reasoned about"],
)

CHECKS["S02"] = Check(
    "s02",
    lambda tier: [Job("k_relative", [c, k], ["relative"]) for c in range(9) for k in ((range(4) if c != 7 else range(2)) if c > 1 else (0,))],
    lambda tier: {
        "no parent": "any transform, all bits",
        "parent at the origin": "any affine transform with entries from -16 to 16",
        "offsets": "parent and bone are offsets, one any in -16 to 16 and the other one of four",
        "even scale": "four scales of the parent, any linear transform of the bone with entries from -16 to 16",
        "turns": "bone and parent turned and moved alike, and about the same axis, four each",
        "general": "two pairs that do not commute (a known finding); for four parents that are turned, sheared and moved and any bone transform in -16 to 16: the two matrices multiply to the world transform at least in one order",
    },
    ["relative"],
    ["the parent's linear part is fixed; results may differ by 0.02"],
)


def d01(tier):
    S = ["same"]
    out = []
    for e in ("d_modl", "d_hlpb"):
        out.append(Job(e, [1, 1, 2, 300], S))
        out += [Job(e, [0, n, s, 2], S) for n in (0, 1, 2, 3) for s in (1, 4)] + [Job(e, [1, n, 2, 3], S, weight=3) for n in (0, 1, 2)]
    out += [Job("d_modl", [2, n, 2, 2], S, weight=10) for n in (0, 1, 2)] + [Job("d_hlpb", [2, 1, 2, 2], S, weight=20)]
    out.append(Job("d_modl", [3, 1, 2, 2], S, weight=100))
    if tier != "quick":
        out += [Job("d_hlpb", [3, 1, 2, 2], S, weight=200), Job("d_hlpb", [2, 2, 2, 3], S, weight=100)]
    k = 5 if tier == "quick" else 9
    out += J("d_counts", range(k), range(k), reach=S)
    out += [Job("d_counts", c, S, weight=10) for c in ([257, 2], [2, 257], [300, 300])]
    out.append(Job("d_stored", [1, 1, 2, 300], ["stored"]))
    out += [Job("d_stored", [d, n, 2, 3], ["stored"], weight=1 + 20 * d) for d, n in ((0, 0), (0, 1), (0, 3), (1, 1), (1, 2))]
    return out


CHECKS["D01"] = Check(
    "d01", d01,
    lambda tier: {
        "shapes": "arrays of 0..3 elements, strings of 0..8 characters, absent optional fields: every value that differs in at most two (thorough: three) of these decisions from a base shape; all characters and numbers symbolic (floats with any bits); 300 elements or characters with symbolic first and last ones",
        "constraints": "0..4 (thorough: 0..8) aim and orient constraints in every combination, and 257 and 300 of them",
    },
    ["same", "stored", "absent"],
)


def x01(tier):
    q = tier == "quick"
    out = [Job("j_adj", [n, k], ["same"]) for n, k in ((0, 1), (1, 5), (2, 3), (3, 2)) + (() if q else ((4, 2), (5, 2)))]
    out += [Job("j_damaged", [n, k], ["same"] + (["error"] if n else [])) for n in (0, 1, 2, 3) for k in ((0, 1, 4) if q else (0, 1, 2, 4, 7))]
    out += [Job("j_faces", [n, f, k], ["faces"], weight=n * f) for n, f in ((3, 0), (3, 1), (3, 2), (4, 1)) for k in range(4)]
    out += [Job("j_faces", [4, 2, k], ["faces"], weight=60) for k in (range(1) if q else range(4))]
    if not q:
        out += [Job("j_faces", [3, 3, 0], ["faces"], weight=60), Job("j_faces", [5, 1, 0], ["faces"], weight=60)]
    out += J("j_fan", [1, 3, 8, 9, 10, 12, 40], reach=["faces"])
    out += [Job("j_adj", c, ["same"]) for c in ([300, 2, 3], [3, 3, 300], [2, 3, 20000])] + [Job("j_ex", [1, 1, 2, 300], ["same"])]
    out += [Job("j_ex", [d, n, s, 3], ["same"], weight=1 + 10 * d) for d, n, s in ((0, 0, 2), (0, 1, 2), (0, 3, 1), (1, 1, 2), (1, 2, 2), (2, 1, 1), (2, 2, 2), (3, 1, 1))]
    out += [Job("j_stored", [n, f, g], ["stored"]) for n in (0, 1, 2, 3) for f in (0, 1, 2, 3) for g in (0, 1, 2, 3)]
    out += [Job("j_groups", [n], ["groups"], weight=5 ** n) for n in ((0, 1, 2, 3) if q else (0, 1, 2, 3, 4))]
    return out


CHECKS["X01"] = Check(
    "x01", x01,
    lambda tier: {
        "adjacency": "up to 3 entries (thorough: 5) with 0..5 arbitrary values each and arbitrary object indices; 300 entries, entries of 300 and 20000 values; stored files with 0..3 arbitrary offsets into 0..4 (thorough: 7) values",
        "corners": "every list of 0..2 (thorough: 3) faces with distinct corners over 3 or 4 vertices, positions equal in any pattern (generic positions, and one arbitrary float component per vertex of 2, 3 or 4); fans of 1..12 and 40 faces around one vertex",
        "extensions": "groups and flags that differ in at most three decisions from a base shape; stored files with 0..3 entries of arbitrary groups, 0..3 flag words and 0..3 groups; 0..3 (thorough: 4) mesh objects with every combination of four names and of present or absent positions",
    },
    ["same", "error", "faces", "stored", "groups"],
    ["vertex numbers are below the number of positions and vertices below 2^15, as the format requires"],
)


def k01(tier):
    q = tier == "quick"
    out = [Job("m_data", [0, n, s, 2, v, m], ["same"]) for n in range(4) for s in (1, 4) for v, m in ((0, 1), (3, 2), (9, 0))]
    out += [Job("m_data", [1, 1, 2, 300, v, m], ["same"], weight=2) for v in (0, 5) for m in (1, 2)] + [Job("m_stored", [1, 1, 2, 300, v, 1, m], ["stored"], weight=2) for v in range(9) for m in (5, 6)]
    out += [Job("m_data", [1, 1, 2, 2, v, 1], ["same"], weight=20) for v in (0, 5)] + [Job("m_data", [1, 2, 1, 3, 2, 1], ["same"], weight=40)] + [Job("m_data", [2, n, 2, 2, v, 1, 0, 60], ["same"], weight=60) for n, v in ((1, 0), (2, 0), (1, 5))]
    if not q:
        out += [Job("m_data", [1, n, 1, 3, v, 2], ["same"], weight=80) for n in (1, 2) for v in (1, 7)]
    out += [Job("m_counts", [n, a, b], ["same"]) for a in range(8) for b in range(a, 8) for n in ((3,) if q else (3, 4))]
    out.append(Job("m_version", [0], ["created", "refused"]))
    for minor in (5, 6):
        out += [Job("m_stored", [1, 1, 2, 2, v, n, minor], ["stored"], weight=5 * n) for v in range(9) for n in (1, 2)]
        out += [Job("m_stored", [1, 1, 1, 2, v, 3, minor], ["stored"], weight=20) for v in ((0, 5) if q else range(9))]
        out += [Job("m_stored", [2, 1, 1, 1, 0, 1, minor], ["stored"], weight=40)]
        if not q:
            out += [Job("m_stored", [2, 1, 1, 1, v, 2, minor], ["stored"], weight=100) for v in (0, 4)]
    return out


CHECKS["K01"] = Check(
    "k01", k01,
    lambda tier: {
        "data": "0 to 2 materials with 0..3 parameters of every kind, every parameter id one at a time, every two other enumeration values, strings of 0..8 characters; all floats (any bits), characters and switches symbolic; 0..3 parameters of any two kinds in every combination; 300 entries, parameters or characters with symbolic first and last ones",
        "versions": "all 2^32 version pairs",
        "stored": "entries of version 1.5 and 1.6 with 1 to 3 attributes of every kind in every order of one differing attribute, absent values, any ids and numbers",
    },
    ["same", "created", "refused", "stored"],
)


def h01(tier):
    R = ["read"]
    top = 4294967295
    out = [Job("h_valid", [*n, s, 9, 0], R) for n in ((0, 0, 0, 0), (1, 1, 1, 1), (2, 1, 0, 2), (2, 2, 2, 2), (0, 0, 3, 1), (3, 0, 0, 0)) for s in (0, 1, 2, 5)]
    out += [Job("h_valid", c, R, weight=2) for c in ([300, 0, 0, 0, 2, 9, 0], [1, 300, 0, 0, 2, 9, 0], [0, 0, 300, 40, 2, 9, 0], [0, 1, 40, 300, 2, 9, 0], [1, 1, 1, 1, 300, 9, 0])]
    out += [Job("h_valid", [1, 1, 1, 1, 2, t, 0], R + ["error"]) for t in (1, 2, 3)]
    out += [Job("h_valid", [*n, k, 9, 1], R, weight=w) for n, k, w in (((1, 0, 0, 0), 2, 1), ((0, 1, 0, 0), 2, 1), ((0, 0, 1, 0), 1, 1), ((0, 0, 0, 1), 1, 1), ((1, 0, 0, 0), 3, 10))]
    out += [Job("h_field", [w, 0, top], R + ["error"], weight=2) for w in (1, 3, 5, 7, 10)]
    cut = [(0, 600), (601, 1200), (1201, 1800), (1801, 2400), (2401, top)]
    for w in (0, 2, 4, 6, 8, 9, 11, 13, 15, 17):
        out += [Job("h_field", [w, a, b], weight=8) for a, b in cut]
    for w in (12, 14, 16, 18):
        out += [Job("h_field", [w, a, b], weight=6) for a, b in (((0, 150), (1900, top)) if tier == "quick" else ((0, 300), (301, 600), (601, 1000), (1001, 1500), (1501, 1900), (1901, top)))]
    out += [Job("h_cut", [a, a + 499], weight=5) for a in range(0, 3000, 500)]
    out += [Job("h_shdr", [0], R + ["error"])] + [Job("h_code", [n], ["code", "error"]) for n in (1, 4, 8)]
    return out


CHECKS["H01"] = Check(
    "h01", h01,
    lambda tier: {
        "valid": "0..3 buffers, uniforms, inputs and outputs (and 300 of one kind) with names of 0..5 and 300 arbitrary ASCII characters (or 1..3 arbitrary bytes), arbitrary numbers and one arbitrary type at a time",
        "damaged": "a file with one entry of every kind in which one of the stored offsets, counts or lengths is any 32-bit number" + (" (lengths of names: outside 151..1899)" if tier == "quick" else "") + "; the file cut at any length; program code length of any value",
        "memory": "no single allocation above 8 times the file's size (at least 32 KiB)",
    },
    ["read", "error", "code"],
    ["two damaged numbers at once are not explored"],
)


def j01(tier):
    q = tier == "quick"
    R = ["survives"]
    out = []
    data = {"modl": 1, "skel": 7, "hlpb": 1, "matl": 1, "mesh": 1, "anim": 6, "adj": 1, "meshex": 1, "shdr": 4}
    for n, (vers, k) in FORMATS.items():
        for v in vers:
            for var in range(k):
                for x in ((var % 2,) if q else (0, 1)):
                    out.append(Job("j_" + n, [v, 1, var, 1, 2, 2, x], R, weight=4))
                out.append(Job("j_" + n, [v, 1, var, 1, 2, 300, (var + 1) % 2], R, weight=5))
                if n != "nrpd" and var < 2:
                    out.append(Job("j_" + n, [v, 2, var, 1, 2, 2, var % 2], R, weight=60))
                if not q:
                    out.append(Job("j_" + n, [v, 1, var, 2, 4, 3, var % 2], R, weight=20))
    for n, k in data.items():
        for var in range(k):
            for x in ((1 - var % 2,) if q else (0, 1)):
                out.append(Job(f"j_{n}d", [99, 1, var, 1, 2, 2, x], R, weight=8))
            out.append(Job(f"j_{n}d", [99, 1, var, 1, 2, 300, var % 2], R, weight=5))
            if not q:
                out.append(Job(f"j_{n}d", [99, 1, var, 2, 4, 3, 1 - var % 2], R, weight=30))
    out += [Job("j_file", [k, 1, 0, 1, 2, 2, 1], R, weight=4) for k in range(10)]
    for n, (vers, k) in FORMATS.items():
        for v in vers:
            for var in range(k):
                # for text that is not UTF-8 see j_raw
                out += [Job("c_" + n, [v, 0, var, 1, 2, 2, 0, x], R, weight=6) for x in ((1,) if q else (1, 2, 3))]
    out += [Job("j_literal", [k, j], R) for k in range(9) for j in range({3: 5, 5: 6}.get(k, 1))]
    out += [Job("j_text", [n, k], R, weight=5 ** n) for n in ((0, 1, 2) if q else (0, 1, 2, 3)) for k in range(3)]
    out += [Job("j_import", [n], R, weight=6 ** n) for n in ((0, 1, 2) if q else (0, 1, 2, 3))]
    out += [Job("j_raw", [n, 0], R, weight=6 ** n) for n in ((0, 1, 2) if q else (0, 1, 2, 3))]
    out += [Job("j_raw", [n, 1], weight=6 ** n) for n in (1, 2)]
    out += [Job("j_nested", [99, 1, 0, 1, 2, 2, 0], ["nested"])]
    out += [Job("j_bytes", [n, m], R, weight=4 ** n) for n, m in ((0, 0), (1, 0), (2, 0), (3, 0), (4, 0), (3, 13), (3, 30), (3, 61), (0, 5), (0, 300)) + (() if q else ((5, 0), (4, 30), (5, 125)))]
    out += [Job("j_numbers", [k], R, weight=20) for k in range(3)]
    out += [Job("j_damaged", [h, 2, t], weight=5) for h in range(4) for t in range(5)]
    out += [Job("j_damaged", [0, 3, t], weight=20) for t in range(5)]
    if not q:
        out += [Job("j_damaged", [h, 3, t], weight=50) for h in (1, 2, 3) for t in range(5)] + [Job("j_damaged", [0, 4, t], weight=100) for t in range(5)]
    return out


CHECKS["J01"] = Check(
    "j01", j01,
    lambda tier: {
        "values": "structures of every format and every version and of the data types of ssbh_data, with arrays of 0..2 (thorough: 3) elements and strings of 0..8 characters (and 300 of them), that differ in at most one decision (files other than render pipelines: in two from two base shapes) (enumeration value, presence, count) from a base shape of every kind; byte buffers: the first 0..4 (thorough: 5) bytes symbolic, of 0 to 300",
        "numbers": "bytes and 16-bit numbers symbolic; wider numbers and floats take distinct small values or extreme ones (largest, smallest, infinite precision edge cases of their type)",
        "text": "0..2 (thorough: 3) characters, each any ASCII character or any two-byte character; names read from binary files: any 0..2 (thorough: 3) bytes",
        "changed": "files of every base shape with the byte at any position after the type's magic one higher (thorough: also two and three), as far as they still read: these come from the binary reader, not from the types' own import",
        "all fields": "one value of every data type of ssbh_data with every field set",
        "damaged": "any 2 or 3 (thorough: 4) bytes alone, and as the rest of a text, an object or an array, read as five types",
    },
    ["survives", "error", "read", "nested"],
    ["how serde_json writes and reads back wide numbers and floats is only sampled; byte buffers are exported as hexadecimal text as ssbh_lib_json does (feature serde_hex)"],
)


def j03(tier):
    q = tier == "quick"
    R = ["refused"]
    # (the numbers of fields to choose from exceed those there are)
    out = [Job("j_literal", [k, j, m, 90], R, weight=3) for k in range(9) for j in (({3: range(5), 5: range(6)}.get(k, (1,)))) for m in (1, 2, 3)]
    for n, (vers, k) in FORMATS.items():
        for v in vers:
            for var in range(k):
                out += [Job("p_" + n, [v, 0, m, 160, 1, var, 0], ["default"] if m == 3 else R, weight=4) for m in (1, 2, 3)]
                if n in ("nufx", "nlst", "shdr", "anim", "modl") and (v or n != "nufx") and (not q or var == 0) or not q and n not in ("mesh", "nrpd"):
                    out += [Job("p_" + n, [v, 0, m, 64, 1, var, 1], ["default"] if m == 3 else R, weight=20) for m in (1, 2, 3)]
    return out


CHECKS["J03"] = Check(
    "j03", j03,
    lambda tier: {
        "fields": "each one of the fields of one value of every data type with every field set, and of a file of every format, version and inner variant with arrays of one element; for five small formats also of every such file that differs in one decision (presence, count, enumeration value)",
        "change": "the field is missing, or null, or a number or boolean of the wrong type, or another text (which is kept where any text is allowed)",
    },
    ["refused", "default"],
    ["which field is symbolic, the values are fixed; two fields at once, lists in place of values and values in place of lists are not explored"],
)


def v01(tier):
    q = tier == "quick"
    out = [Job("v_types", [], ["same"]), Job("v_matrices", [], ["same"])]
    out += [Job("v_data", [c, n], ["same"]) for c in (2, 3, 4) for n in (0, 1, 2, 5, 300, 70000)]
    out += [Job("v_transform", [c, 300, k, s], ["same"]) for c in (2, 3, 4) for k in (0, 1) for s in (0, 1)]
    out += [Job("v_transform", [c, n, k, s], ["same"]) for c in (2, 3, 4) for n in ((0, 1, 2) if q else (0, 1, 2, 4)) for k in (0, 1) for s in (0, 1, 2)]
    out += [Job("v_transform", [c, n, k, 0, m], ["same"]) for c in (2, 3, 4) for n in (1, 2) for k in (0, 1) for m in range(2, 12)]
    return out


CHECKS["V01"] = Check(
    "v01", v01,
    lambda tier: {
        "types": "every bit pattern of every component",
        "vertex data": "0, 1, 2, 5, 300 and 70000 vectors of 2, 3 and 4 components with any bits",
        "transforms": "0..2 (thorough: 4) vectors of each number of components: all vectors with 11 fixed matrices (one without structure, and identity, flattening, mirroring, shearing, perspective, turning and tiny ones), all matrices with fixed vectors, and all of both, finite values; 300 vectors, one of them symbolic, or with any matrix",
    },
    ["same"],
    ["the transform is compared with the sum of products column by column; sums in another order may differ by 0.05 where only vectors or only the matrix is symbolic, and are left open where both are"],
)


def v02(tier):
    q = tier == "quick"
    N, T, F = ["normals"], ["tangents"], ["refused"]
    out = [Job("n_normals", [c, n, k, s, a], N) for c in (2, 3, 4) for n, k in ((3, 3), (4, 5), (4, 6)) for s in range(n) for a in range(3)]
    out += [Job("n_normals", [c, n, k, 99, 0], N) for c in (2, 3, 4) for n, k in ((0, 0), (2, 0), (1, 3), (2, 2), (5, 7), (5, 9), (300, 1200), (70000, 90000))]
    out += [Job("n_tangents", [c, 7 - c, u, n, n, n, k, s, a, w], T) for c in (2, 3, 4) for u in ((2 + c % 3,) if q else (2, 3, 4)) for n, k in ((3, 3), (4, 6)) for s in range(n) for a in range(3) for w in range(3)]
    out += [Job("n_tangents", [3, m, u, n, n, n, k, 99, 0, 0], T) for m in (2, 3, 4) for u in (2, 3, 4) for n, k in ((0, 0), (2, 0), (1, 3), (5, 9), (300, 1200))]
    out += [Job("n_tangents", [3, 3, 2, n, a, b, k, 99, 0, 0], F) for n, a, b, k in ((3, 2, 3, 3), (3, 3, 2, 3), (2, 3, 3, 3), (3, 3, 0, 3), (0, 3, 3, 0), (3, 3, 4, 3), (3, 4, 3, 0), (3, 3, 3, 1), (3, 3, 3, 2), (3, 3, 3, 4), (4, 4, 4, 5), (300, 300, 299, 300), (300, 300, 300, 301))]
    return out


CHECKS["V02"] = Check(
    "v02", v02,
    lambda tier: {
        "triangles": "the first four indices: any of up to 5 vertices; further ones, and those over 300 and 70000 vertices, fixed; 0 to 9 indices, whole triangles or not",
        "vertices": "points without structure, one coordinate of one of them, each in turn, any of eight values (so triangles that are flat or turn over are among them)",
        "components that do not count": "any bits",
        "refused": "thirteen combinations of lengths",
    },
    ["normals", "tangents", "refused"],
    ["coordinates are not symbolic beyond those eight values (the square roots and divisions of three symbolic coordinates are out of the solver's reach); indices past the last vertex, which stop the program in geometry_tools"],
)


def m06(tier):
    q = tier == "quick"
    out = [Job("b_info", [v, c, a, b, 0], ["bounds"], weight=1 + 4 * a) for v in (8, 9, 10) for c in (2, 3, 4) for a, b in ((0, 99), (1, 99), (2, 99), (1, 1), (0, 1), (2, 1)) if v == 10 or c == 3 or not q]
    out += [Job("b_info", [10, 3, 3, 99, 0], ["bounds"], weight=30)] + [Job("b_info", [10, 3, a, b, 1], ["bounds"], weight=10) for a, b in ((1, 99), (2, 99), (1, 1))]
    out += [Job("b_info", [v, c, a, b, 0], ["bounds"], weight=5 + b) for v, c, a, b in ((10, 3, 300, 99), (9, 4, 300, 2), (8, 3, 2, 40), (10, 2, 70000, 99))]
    if not q:
        out += [Job("b_info", [10, 3, 4, 99, 0], ["bounds"], weight=90), Job("b_info", [10, 3, 2, 2, 0], ["bounds"], weight=60), Job("b_info", [10, 3, 3, 99, 1], ["bounds"], weight=60)]
    return out


CHECKS["M06"] = Check(
    "m06", m06,
    lambda tier: {
        "meshes": "one or two objects of 0..3 (thorough: 4) vertices together, 2, 3 or 4 components, versions 1.8, 1.9 and 1.10, each component any value from -1024 to 1024; objects of 40, 300 and 70000 vertices, one of them symbolic",
        "spheres": "0..2 (thorough: 3) vertices on a line",
    },
    ["bounds"],
    ["centres and half sizes may differ by 0.01 from the exact values (rounding of the sums)"],
)


# ---- disks and streams ----------------------------------------------------------------------
# params: type, version, inner variant, array length, string length, two faults, an extra, 1: symbolic numbers, deviations
# types: 0..9 the SSBH types, 10 adj, 11 meshex, 12 any SSBH file, 20..27 the data types
# faults: 1 error from then on, 2 interrupted, 3 one byte only, 4 all but one, 5 half and then errors, 6 error once
P01_TYPES = [(k, v, 0) for k, (n, (vers, _)) in enumerate([(n, FORMATS[n]) for n in ("hlpb", "matl", "modl", "mesh", "skel", "anim", "nlst", "nrpd", "nufx", "shdr", "adj", "meshex")]) for v in (vers[-1],)]
P01_TYPES += [(12, v, 0) for v in (0, 1, 5)] + [(20, 0, 0), (21, 1, 0), (22, 0, 0), (23, 0, 0), (23, 2, 1), (23, 1, 2), (24, 0, 0), (25, 0, 12), (25, 1, 13), (26, 0, 0), (27, 0, 0)]


def p01(tier):
    q = tier == "quick"
    out = []
    for t, v, i in P01_TYPES:
        big = t in (3, 7, 23, 25, 1, 21)
        pairs = [(0, 0), (1, 0), (2, 2), (3, 4), (2, 5), (6, 0)] if q else [(0, 0), (1, 0), (6, 0), (2, 6), (3, 6), (6, 6), (2, 2), (2, 3), (3, 3), (3, 4), (4, 2), (5, 0), (2, 5), (3, 1), (4, 5)]
        for a, b in pairs:
            out.append(Job("p_save", [t, v, i, 1, 1, a, b, 1], ["stored"], weight=2))
            out.append(Job("p_load", [t, v, i, 1, 1, a, b, 0], ["loaded"], weight=2))
        out.append(Job("p_save", [t, v, i, 1, 1, 5, 3, 0], ["failed"]))
        out.append(Job("p_load", [t, v, i, 1, 1, 5, 0, 1], ["failed"]))
        for f in (1, 2, 3, 4, 5, 6):
            out.append(Job("p_put", [t, v, i, 1, 1, f, 0, 0], ["stored"], weight=3 + 5 * big))
            out.append(Job("p_get", [t, v, i, 1, 1, f, 0, 0], ["loaded"], weight=4 + 8 * big))
        if not q:
            for a, b in ((2, 3), (3, 1), (4, 4)):
                if t in (2, 6, 9, 10, 11, 22, 24, 26):
                    out.append(Job("p_put", [t, v, i, 1, 1, a, b, 0], ["stored"], weight=200))
                    out.append(Job("p_get", [t, v, i, 1, 1, a, b, 0], ["loaded"], weight=300))
            out.append(Job("p_put", [t, v, i, 2, 3, 2, 0, 0], ["stored"], weight=30))
            out.append(Job("p_get", [t, v, i, 2, 3, 3, 0, 0], ["loaded"], weight=50))
    for t, v in ((0, 0), (2, 0), (6, 0), (8, 1), (9, 0), (10, 0)):
        out += [Job("p_save", [t, v, 0, 1, 1, a, b, 1, 1], ["stored"], weight=2) for a, b in ((0, 0), (3, 2))]
        out += [Job("p_get", [t, v, 0, 1, 1, 3, 0, 0, 1], ["loaded"], weight=6), Job("p_put", [t, v, 0, 1, 1, 3, 0, 0, 1], ["stored"], weight=6)]
    out += [Job("p_refuse", [k], ["refused"], weight=2) for k in range(6)]
    return out


CHECKS["P01"] = Check(
    "p01", p01,
    lambda tier: {
        "files": "one small file of every format, the current version and for the data types the others too; arrays of one element (thorough: two)" ,
        "disk": "up to two misbehaving operations at any two of the operations that saving or loading takes, each an error (from then on, or once), an interruption, one byte, all bytes but one, or half of the bytes and errors from then on; saving over a longer file or to a new path; loading a file that is missing",
        "streams": "one (thorough, for smaller formats: two) misbehaving operation, of the same kinds, at any operation of writing and reading; errors also at seeks",
        "refused data": "every unsupported version of anim, mesh and matl data; bone parents above 32767; vertex indices out of range; mesh extensions with another number of flags than of entries (up to 3 of each)",
    },
    ["stored"],
    ["the disk is the harness's stand-in for the C library's file functions (harness/src/disk.rs), under the real std::fs; symbolic links, directories, permissions and other processes are outside",
     "reading from a stream that fails once may succeed with the right value (the reader tries the next alternative); what a file holds after a failed save is left open, except that data the format cannot hold must leave it as it was"],
)
CHECKS["P01"].extra_technique = "; files live on an in-memory disk that std::fs really runs on, the failing operations are symbolic"


def j02(tier):
    q = tier == "quick"
    out = []
    T = ["there"]
    P = lambda k, v, i, ln, sl, dev, named, text=0, f=0, g=0: [k, v, i, ln, sl, f, g, 0, 0, dev, named, text]
    lib = ["hlpb", "matl", "modl", "mesh", "skel", "anim", "nlst", "nrpd", "nufx", "shdr", "adj", "meshex"]
    for k, n in enumerate(lib):
        vers, kinds = FORMATS[n]
        for i in range(kinds):
            out.append(Job("t_lib", P(k, 99, i, 1, 2, 1, (k + i) % 2), T, weight=8))
            if not q:
                out += [Job("t_lib", P(k, 99, i, 2, 4, 1, 1 - (k + i) % 2), T, weight=30)]
        out.append(Job("t_lib", P(k, 99, 0, 0, 0, 0, 1 - k % 2), T))
    out += [Job("t_lib", P(k, 99, 0, 1, 2, 0, j, 1), T, weight=20) for k, j in ((2, 1), (6, 0), (8, 1), (9, 0))]
    for k, v, kinds in ((0, 0, 2), (1, 1, 9), (2, 0, 1), (4, 0, 1), (6, 0, 1), (7, 0, 1)):
        for i in range(kinds):
            out.append(Job("t_data", P(k, v, i, 1, 2, 1, (k + i) % 2), T, weight=8))
            if not q:
                out.append(Job("t_data", P(k, v, i, 2, 4, 1, 1 - (k + i) % 2), T, weight=30))
    out += [Job("t_data", P(3, v, i, 0, 0, 0, (v + i) % 2), T, weight=2) for v in (0, 1, 2) for i in (0, 1, 2)]
    out += [Job("t_data", P(5, v, i, 0, 0, 0, (v + i) % 2), T, weight=2) for v in (0, 1) for i in range(14)]
    for j, (a, b) in enumerate(((2, 0), (3, 0), (4, 0), (2, 3)) if q else ((2, 0), (3, 0), (4, 0), (2, 3), (3, 3), (4, 2))):
        w = 50 if b else 2
        if b and q:
            out += [Job("t_lib", P(6, 99, 0, 1, 2, 0, j % 2, 0, a, b), T, weight=w)]
            continue
        out += [Job("t_lib", P(k, 99, 0, 1, 2, 0, (j + k) % 2, 0, a, b), T, weight=w) for k in range(12)]
        out += [Job("t_data", P(k, k == 1, 0, 1, 2, 0, (j + k) % 2, 0, a, b), T, weight=w) for k in range(8)]
    out += [Job("t_junk", [t, k], ["junk"]) for t, ks in ((0, (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11)), (1, (0, 1, 2, 3, 4, 5, 7))) for k in ks]
    return out


CHECKS["J02"] = Check(
    "j02", j02,
    lambda tier: {
        "files": "files of every format and (data tool) every data type: all variants, arrays of 0..2 elements and short text, at most one decision away from a base shape, fixed numbers; for text in four formats one byte with any value below 0x80 at any place",
        "runs": "export and import with the names the tools choose, or over longer files with names given; one (thorough: two) of the disk's operations interrupted or partial, at any place; files of 24 bytes without a format's magic",
    },
    ["there"],
    ["the tools' main functions run with positional arguments from the harness (a stand-in for clap's derive, harness/tools/clap) on the disk of harness/src/disk.rs",
     "known from J01: a present pointer to a null string, and text that is not UTF-8, are left out",
     "numbers in JSON text are the subject of J01"],
)
CHECKS["J02"].extra_technique = "; the tools' own main functions run on an in-memory disk"
