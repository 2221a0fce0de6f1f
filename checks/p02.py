"""P02: a data vector survives every textual form with the same ordered entries."""
import itertools

from seyfert.fisher import fisher_utils as fu
from seyfert.fisher.datavector import ClDataVector
from seyfert.utils.shortcuts import ClKey
from vlib import probes as P

PROPERTY = "P02"
LEVEL = "exploration"
RULE = ("random ordered selections (1-10 entries, all ordered probe pairs, mixed notations) sent through chains of "
        "textual forms and notation changes, plus every single entry and every ordered pair of entries; non-trivial "
        "cases have two entries or more, or change the notation")
ASSUMPTIONS = ["entries are given in one of the three documented notations"]
NEEDS = {"oracle.forms": 1000, "oracle.equality": 400, "oracle.shipped_lists": 10}

PAIRS = list(itertools.product(range(P.N), repeat=2))


def expected_name(pairs, kind="alias"):
    return "[" + "+".join(P.fisher_repr(i, j, kind) for i, j in pairs) + "]"


def _check_vector(ctx, dv, pairs, tag):
    got = [e.toLongRawKey() for e in dv]
    ctx.same(got, [P.spell(*p, "long") for p in pairs], "entries-" + tag)
    ctx.same(dv.name, expected_name(pairs), "name-" + tag)
    ctx.same(set(dv.involved_probes), {P.ALIAS[i] for i, j in pairs if i == j}, "involved-" + tag, pairs=pairs)
    ctx.same(set(dv.getInvolvedAutoCorrelationProbes()), {P.ALIAS[i] for i, j in pairs if i == j}, "involved2-" + tag)
    ctx.same(len(dv), len(pairs), "length-" + tag)
    ctx.same(bool(dv.is_single_autocorrelation), len(pairs) == 1 and pairs[0][0] == pairs[0][1], "single-auto-" + tag, pairs=pairs)
    ctx.same(list(dv.toRawTuples()), [P.spell(*p, "alias") for p in pairs], "raw-tuples-" + tag)
    for idx in (0, len(pairs) - 1):
        ctx.same(dv[idx].toShortRawKey(), P.spell(*pairs[idx], "short"), "item-" + tag)


def _selection(ctx, force=None):
    if force is not None:
        pairs = force
    else:
        n = int(ctx.rng.integers(1, 11))
        pairs = [PAIRS[i] for i in ctx.rng.permutation(16)[:n]]
    mode = int(ctx.rng.integers(4))
    kinds = [P.KINDS[mode] if mode < 3 else P.KINDS[ctx.rng.integers(3)] for _ in pairs]
    return pairs, [P.spell(*p, k) for p, k in zip(pairs, kinds)]


def forms(ctx):
    forced = [[p] for p in PAIRS] + [list(c) for c in itertools.permutations(PAIRS, 2)]
    n = len(forced) + ctx.n(300, 3000)
    for it in range(n):
        pairs, raw = _selection(ctx, forced[it] if it < len(forced) else None)
        raw0 = list(raw)
        dv = ClDataVector(raw)
        ctx.case((tuple(pairs), tuple(map(str, raw))), sample=repr(dv), nontrivial=len(pairs) > 1 or any(r != P.spell(*p, "alias") for r, p in zip(raw, pairs)))
        _check_vector(ctx, dv, pairs, "built")
        ctx.same(list(dv.getRawEntries()), raw0, "raw-entries")
        ctx.same(dv.toBriefString(), "_".join(P.spell(*p, "short") for p in pairs), "brief-text")
        _check_vector(ctx, ClDataVector.fromName(dv.name), pairs, "fromName")
        _check_vector(ctx, ClDataVector.fromName(dv.name.strip("[]")), pairs, "fromName-bare")
        _check_vector(ctx, ClDataVector.fromString(dv.toString()), pairs, "fromString")
        _check_vector(ctx, ClDataVector.fromBriefString(dv.toBriefString()), pairs, "fromBriefString")
        _check_vector(ctx, dv.toShortKeysVector(), pairs, "shortVector")
        _check_vector(ctx, dv.toTupleKeysVector(), pairs, "tupleVector")
        _check_vector(ctx, ClDataVector(dv), pairs, "copied")
        ctx.check(all(e.kind == "short" for e in dv.toShortKeysVector()), "short-notation")
        ctx.check(all(e.kind == "alias" for e in dv.toTupleKeysVector()), "tuple-notation")
        # a random walk over the forms ends at the same ordered entries
        cur, trace = dv, []
        for _ in range(int(ctx.rng.integers(2, 7))):
            step = ("name", "string", "brief", "short", "tuple", "copy", "transform")[ctx.rng.integers(7)]
            trace.append(step)
            if step == "name":
                cur = ClDataVector.fromName(cur.name)
            elif step == "string":
                cur = ClDataVector.fromString(cur.toString())
            elif step == "brief":
                cur = ClDataVector.fromBriefString(cur.toBriefString())
            elif step == "short":
                cur = cur.toShortKeysVector()
            elif step == "tuple":
                cur = cur.toTupleKeysVector()
            elif step == "copy":
                cur = ClDataVector(cur)
            else:
                cur = ClDataVector(cur)
                kd = P.KINDS[ctx.rng.integers(3)]
                cur.transformEntriesTo(kd)
                ctx.same([e.key for e in cur], [P.spell(*p, kd) for p in pairs], "transform-notation", kind=kd)
        ctx.saw("walk-steps", len(trace))
        _check_vector(ctx, cur, pairs, "walk")
        ctx.check(cur == dv, "walk-equality", trace=trace)
        ctx.same(list(dv.getRawEntries()), raw0, "source-unchanged", trace=trace)


def equality(ctx):
    for _ in range(ctx.n(250, 3000)):
        pairs, raw = _selection(ctx)
        dv = ClDataVector(raw)
        other_raw = [P.spell(*p, P.KINDS[ctx.rng.integers(3)]) for p in pairs]
        ctx.case((tuple(pairs), tuple(map(str, other_raw))))
        ctx.check(dv == ClDataVector(other_raw), "same-entries-other-notation", pairs=pairs)
        # any edit of the ordered list makes it a different vector
        op = int(ctx.rng.integers(5))
        mod = list(pairs)
        if op == 0:
            mod = mod[:-1]
        elif op == 1:
            mod = mod + [PAIRS[ctx.rng.integers(16)]]
        elif op == 2:
            mod = mod[::-1]
        elif op == 3:
            k = int(ctx.rng.integers(len(mod)))
            mod[k] = mod[k][::-1]
        else:
            k = int(ctx.rng.integers(len(mod)))
            mod[k] = PAIRS[ctx.rng.integers(16)]
        if mod:
            m = ClDataVector([P.spell(*p, "short") for p in mod])
            ctx.check((dv == m) is (mod == pairs), "edited-vector-equality", a=pairs, b=mod)
            ctx.check((m == dv) is (mod == pairs), "edited-vector-equality-swapped", a=pairs, b=mod)
            ctx.check((dv.name == m.name) is (mod == pairs), "name-identifies-vector", a=pairs, b=mod)
            ctx.check((dv.toBriefString() == m.toBriefString()) is (mod == pairs), "brief-identifies-vector", a=pairs, b=mod)


def malformed(ctx):
    for bad in ("phphwlwl", "phph_", "_phph", "phph__wlwl", "phph_wlw", "phph-wlwl", "phph_WLWL", "", "phph wlwl",
                "phph_xxyy", "phphx_wlwl"):
        ctx.case(bad)
        ctx.raises(lambda: ClDataVector.fromBriefString(bad), "malformed-brief-accepted", bad=bad)
    for bad in ("[WL+]", "[+WL]", "[WL+XC(WL)]", "[WL+XC(WL,)]", "[WL+XC(WL,GCph]", "[Lens]", "", "[]", "[WL+foo]", "[WLGCph]",
                "[XC(WL;GCph)]", "[WL,GCph]", "[WL+XC(WL,GCph)x]"):
        ctx.case(bad)
        ctx.raises(lambda: ClDataVector.fromName(bad), "malformed-name-accepted", bad=bad)
    for bad in ([("WL", "foo")], ["phph", "zz"], [3], [None]):
        ctx.raises(lambda: ClDataVector(bad), "malformed-entries-accepted", bad=bad)


def shipped_lists(ctx):
    dvs = fu.load_selected_data_vectors()
    from seyfert.utils import filesystem_utils as fsu
    lines = [ln.strip() for ln in (fsu.fisher_aux_files_dir() / "selected_datavectors.txt").read_text().splitlines()]
    lines = [ln for ln in lines if ln and not ln.startswith("#")]
    ctx.same(len(dvs), len(lines), "one-vector-per-line")
    for dv, ln in zip(dvs, lines):
        head, _, tail = ln.partition(":")
        short = [t.strip(" '\"[]") for t in tail.strip().split(",")]
        ctx.case(ln, sample=ln)
        ctx.same([e.toShortRawKey() for e in dv], short, "listed-entries", line=ln)
        ctx.same(dv.name, head.strip(), "listed-name", line=ln)
        ctx.same(dv.toString(), ln, "text-reproduced")
    # every vector an a-posteriori combination refers to is parseable and re-spelt identically
    for name in fu.load_a_posteriori_fisher_comb_names():
        for part in name.replace(" - ", " + ").split(" + "):
            if "(Pk)" in part:      # an external (non-Cl) Fisher, not a data vector
                continue
            ctx.same(ClDataVector.fromName(part.strip()).name, part.strip() if part.strip().startswith("[") else f"[{part.strip()}]",
                     "combination-part", name=name)


SECTIONS = [forms, equality, malformed, shipped_lists]
