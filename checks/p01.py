"""P01: observable keys denote one ordered pair of probes in every notation."""
import copy
import itertools

import numpy as np

from seyfert.base_structs import cl_dict as cd
from seyfert.utils import general_utils as gu
from seyfert.utils.shortcuts import ClKey, SmartKeyDict, ClSmartKeyDict, ProbeName
from vlib import probes as P

PROPERTY = "P01"
LEVEL = "exploration"
RULE = ("all 16 ordered probe pairs x 3 notations (and all pairs of those) driven through chains of conversions, "
        "reversals, copies and dictionary operations; a case is non-trivial when two notations, a reversed pair or a "
        "malformed spelling take part")
ASSUMPTIONS = ["the probe vocabulary is the four probes documented in the package"]
NEEDS = {"oracle.conversions": 400, "oracle.dictionaries": 200, "oracle.malformed": 100}

PAIRS = list(itertools.product(range(P.N), repeat=2))


def _key(i, j, kind):
    return ClKey(P.spell(i, j, kind))


def conversions(ctx):
    for (i, j), kind in itertools.product(PAIRS, P.KINDS):
        k = _key(i, j, kind)
        ctx.case((i, j, kind), sample=repr(k))
        ctx.same(k.kind, kind, "kind", pair=(i, j))
        ctx.check([k.is_long, k.is_short, k.is_tuple] == [kind == "long", kind == "short", kind == "alias"], "kind-flags")
        ctx.same(tuple(k.toParts()), (P.name(i, kind), P.name(j, kind)), "parts", pair=(i, j), kind=kind)
        ctx.same(k.is_auto_correlation, i == j, "auto", pair=(i, j), kind=kind)
        ctx.same(k.toLongRawKey(), P.spell(i, j, "long"), "to-long", frm=kind)
        ctx.same(k.toShortRawKey(), P.spell(i, j, "short"), "to-short", frm=kind)
        ctx.same(k.toTupleRawKey(), P.spell(i, j, "alias"), "to-alias", frm=kind)
        for k2 in P.KINDS:
            t = k.transformTo(k2)
            ctx.check(t.key == P.spell(i, j, k2) and t.kind == k2, "transform", frm=kind, to=k2, pair=(i, j), got=repr(t))
            r = t.getReverseKey()
            ctx.check(r.key == P.spell(j, i, k2) and r.kind == k2, "reverse", pair=(i, j), kind=k2, got=repr(r))
            ctx.check(r.getReverseKey() == k, "reverse-twice", pair=(i, j))
            ctx.same(t.toFisherStringRepr(), P.fisher_repr(i, j), "text-form", frm=k2)
            back = ClKey.fromParts(P.name(i, k2), P.name(j, k2), kind=k2)
            ctx.check(back == k and hash(back) == hash(k) and back.key == P.spell(i, j, k2), "from-parts", pair=(i, j), kind=k2)
        ctx.check(k.key == P.spell(i, j, kind) and k.kind == kind, "source-unchanged", pair=(i, j), kind=kind)
        p = ClKey.fromFisherStringRepr(k.toFisherStringRepr())
        ctx.check(p == k, "text-round-trip", text=k.toFisherStringRepr(), got=repr(p))
    # random chains end where the pair says, however long they are
    for _ in range(ctx.n(400, 4000)):
        i, j = PAIRS[ctx.rng.integers(16)]
        k = _key(i, j, P.KINDS[ctx.rng.integers(3)])
        trace = [repr(k)]
        for _ in range(int(ctx.rng.integers(1, 9))):
            op = int(ctx.rng.integers(6))
            if op < 3:
                k = k.transformTo(P.KINDS[op])
            elif op == 3:
                k = k.getReverseKey()
                i, j = j, i
            elif op == 4:
                k = copy.deepcopy(k) if ctx.rng.random() < .5 else copy.copy(k)
            else:
                k = ClKey(k)
            trace.append(repr(k))
        ctx.case(tuple(trace))
        ctx.check(k.toLongRawKey() == P.spell(i, j, "long") and k == _key(i, j, "short"), "chain", trace=trace, want=(i, j))


def equality(ctx):
    allk = [(i, j, kd, _key(i, j, kd)) for (i, j) in PAIRS for kd in P.KINDS]
    for (a, b, ka, x), (c, d, kb, y) in itertools.product(allk, allk):
        want = (a, b) == (c, d)
        ctx.case((a, b, ka, c, d, kb), nontrivial=ka != kb or want)
        ctx.check((x == y) is want and (x != y) is (not want), "equality", x=repr(x), y=repr(y), want=want)
        ctx.check(x.equivalentTo(y) is want, "equivalence", x=repr(x), y=repr(y), want=want)
        if want:
            ctx.check(hash(x) == hash(y), "hash", x=repr(x), y=repr(y))
    ctx.same(len({x for *_, x in allk}), 16, "set-size")
    for raw in ("phph", ("WL", "WL"), None, 3):
        ctx.check(not (_key(0, 0, "short") == raw), "equals-foreign-object", other=repr(raw))


def probe_names(ctx):
    for i, k in itertools.product(range(P.N), P.KINDS):
        p = ProbeName(P.name(i, k))
        ctx.case((i, k))
        ctx.same((p.kind, p.is_long, p.is_short, p.is_alias), (k, k == "long", k == "short", k == "alias"), "probe-kind")
        ctx.same((p.toLong().name, p.toShort().name, p.toAlias().name), (P.LONG[i], P.SHORT[i], P.ALIAS[i]), "probe-to")
        for j, k2 in itertools.product(range(P.N), P.KINDS):
            ctx.check((p == ProbeName(P.name(j, k2))) is (i == j), "probe-equality", a=p.name, b=P.name(j, k2))
        ctx.same(gu.probe_alias_to_fullname(P.ALIAS[i]), P.LONG[i], "alias-to-fullname")
        ctx.same(gu.probe_fullname_to_alias(P.LONG[i]), P.ALIAS[i], "fullname-to-alias")
    for bad in ("", "WLL", "gcph", "phx", "Photometric", "PhotometricGalaxy_", " wl", "GCphph", "wlwl"):
        ctx.raises(lambda: ProbeName(bad), "malformed-probe-accepted", bad=bad)
    for i, j in PAIRS:
        raw = P.spell(i, j, "long")
        ctx.same(gu.get_probes_combination_key(P.LONG[i], P.LONG[j]), raw, "comb-key")
        ctx.same(list(gu.get_probes_from_comb_key(raw)), [P.LONG[i], P.LONG[j]], "comb-parts")
        ctx.same(gu.reverse_probes_comb_key(raw), P.spell(j, i, "long"), "comb-reverse")
    short = {"gcph": 0, "gcsp": 1, "wl": 2, "v": 3}
    for a, b in itertools.product(short, short):
        ctx.same(gu.get_probe_comb_from_shortcut(a, b), P.spell(short[a], short[b], "long"), "shortcut-comb")


def _mutate(rng, s):
    letters = "abcdefgpslwhvdGCWLVX_+(),0123 "
    op = int(rng.integers(5))
    i = int(rng.integers(len(s) + 1))
    c = letters[int(rng.integers(len(letters)))]
    if op == 0:
        return s[:i] + c + s[i:]
    if op == 1 and s:
        i = min(i, len(s) - 1)
        return s[:i] + s[i + 1:]
    if op == 2 and s:
        i = min(i, len(s) - 1)
        return s[:i] + c + s[i + 1:]
    if op == 3:
        return s + c * int(rng.integers(1, 4))
    return s.swapcase() if rng.random() < .3 else c + s


def malformed(ctx):
    good_str = {P.spell(i, j, k) for (i, j) in PAIRS for k in ("long", "short")}
    good_alias = set(P.ALIAS)
    good_repr = {P.fisher_repr(i, j) for (i, j) in PAIRS}
    for _ in range(ctx.n(700, 6000)):
        base = sorted(good_str)[ctx.rng.integers(len(good_str))]
        bad = _mutate(ctx.rng, base)
        if bad in good_str:
            continue
        ctx.case(("s", bad), sample=bad)
        ctx.raises(lambda: ClKey(bad), "malformed-string-accepted", bad=bad)
        a = P.ALIAS[ctx.rng.integers(4)]
        m = _mutate(ctx.rng, P.ALIAS[ctx.rng.integers(4)])
        if m not in good_alias:
            for tpl in ((a, m), (m, a)):
                ctx.case(("t", tpl))
                ctx.raises(lambda: ClKey(tpl), "malformed-tuple-accepted", bad=tpl)
        r = sorted(good_repr)[ctx.rng.integers(len(good_repr))]
        mr = _mutate(ctx.rng, r)
        if mr not in good_repr and mr not in {f"XC({x},{x})" for x in P.ALIAS}:
            ctx.case(("r", mr))
            ctx.raises(lambda: ClKey.fromFisherStringRepr(mr), "malformed-text-accepted", bad=mr)
    for bad in (None, 5, (), ("WL",), ("WL", "WL", "WL"), ["WL", "WL"], ("wl", "ph"), ("Lensing", "Void"), b"phph", "",
                "ph", "Lensing", "Lensing_", "_Lensing", "wl_ph", "Lensing_ph", ("", "")):
        ctx.raises(lambda: ClKey(bad), "malformed-object-accepted", bad=repr(bad))
    for i, j in PAIRS:
        for k, wrong in itertools.permutations(P.KINDS, 2):
            ctx.raises(lambda: ClKey.fromParts(P.name(i, wrong), P.name(j, wrong), kind=k), "wrong-kind-parts-accepted",
                       kind=k, parts=wrong)
        for bad_kind in ("fisher", "", "LONG", None):
            ctx.raises(lambda: _key(i, j, "long").transformTo(bad_kind), "unknown-notation-accepted", kind=bad_kind)


def dictionaries(ctx):
    """a stored block is found in every notation; the swapped pair gives the transposed block"""
    for _ in range(ctx.n(60, 500)):
        pairs = [(i, j) for i in range(4) for j in range(i, 4)]
        ctx.rng.shuffle(pairs)
        pairs = [tuple(int(v) for v in p) for p in pairs[:int(ctx.rng.integers(1, 11))]]
        pairs = [p if ctx.rng.random() < .5 else p[::-1] for p in pairs]
        nb = ctx.rng.integers(1, 6, size=4)
        nl = int(ctx.rng.integers(1, 5))
        data = {}
        for (i, j) in pairs:
            x = ctx.rng.normal(size=(nl, nb[i], nb[j]))
            data[(i, j)] = (x + x.transpose(0, 2, 1)) / 2 if i == j else x
        ctx.case((tuple(pairs), tuple(nb), nl), sample={"pairs": pairs, "bins": nb})

        kinds = {p: P.KINDS[ctx.rng.integers(3)] for p in pairs}
        raw = {P.spell(*p, kinds[p]): data[p] for p in pairs}
        keep = {k: v.copy() for k, v in raw.items()}
        d = ClSmartKeyDict(raw)
        plain = SmartKeyDict(raw)
        stores = [(lambda a, b, kk, d=d: d[P.spell(a, b, kk)], P.KINDS, True, "ClSmartKeyDict[raw]"),
                  (lambda a, b, kk, d=d: d[ClKey(P.spell(a, b, kk))], P.KINDS, True, "ClSmartKeyDict[key]"),
                  (lambda a, b, kk, d=plain: d[P.spell(a, b, kk)], P.KINDS, False, "SmartKeyDict[raw]")]
        d2 = ClSmartKeyDict()
        for p in pairs:
            d2[ClKey(P.spell(*p, kinds[p]))] = data[p]
        stores.append((lambda a, b, kk, d=d2: d[P.spell(a, b, kk)], P.KINDS, True, "ClSmartKeyDict setitem"))
        cld = cd.ClDict({P.spell(*p, "long"): data[p] for p in pairs})
        fld = cd.FlexDict({P.spell(*p, "long"): data[p] for p in pairs})
        stores.append((lambda a, b, kk, d=cld: d[P.spell(a, b, kk)], ("long", "alias"), True, "ClDict"))
        stores.append((lambda a, b, kk, d=fld: d[P.spell(a, b, kk)], ("long", "alias"), False, "FlexDict"))
        tpd = cd.ClSmartDict({P.spell(*p, "alias"): data[p] for p in pairs})
        stores.append((lambda a, b, kk, d=tpd: d[P.spell(a, b, kk)], ("alias",), True, "ClSmartDict"))
        for get, kk_list, transposed, what in stores:
            for (a, b), kk in itertools.product(PAIRS, kk_list):
                if (a, b) in data:
                    want = data[(a, b)]
                elif (b, a) in data:
                    want = data[(b, a)].transpose(0, 2, 1) if transposed else data[(b, a)]
                else:
                    ctx.raises(lambda: get(a, b, kk), "absent-pair-answered", store=what, pair=(a, b), stored=pairs)
                    continue
                got = get(a, b, kk)
                ctx.check(np.array_equal(np.asarray(got), want), "lookup", store=what, pair=(a, b), notation=kk, stored=pairs)
        ctx.check(len(d) == len(pairs) and len(d2) == len(pairs), "size")
        ctx.check(all(np.array_equal(raw[k], keep[k]) for k in keep), "stored-blocks-mutated")
        ctx.same({k.toLongRawKey() for k in d.keys()}, {P.spell(*p, "long") for p in pairs}, "stored-keys")
        for p in pairs:
            found = d.searchAlias(ClKey(P.spell(*p, P.KINDS[ctx.rng.integers(3)])))
            ctx.check(found is not None and found == ClKey(P.spell(*p, "long")), "search-alias", pair=p)
            ctx.same(cld.tuple_key_to_str_key(P.spell(*p, "alias")), P.spell(*p, "long"), "tuple-to-str")
            swapped = cld.tuple_key_to_str_key(P.spell(*p[::-1], "alias"))
            ctx.check(np.array_equal(cld[swapped], cld[P.spell(*p[::-1], "alias")]) or swapped == P.spell(*p, "long"),
                      "tuple-to-str-swapped", pair=p, got=swapped)
            ctx.same(cld.str_key_to_tuple_key(P.spell(*p, "long")), P.spell(*p, "alias"), "str-to-tuple")
        ctx.same(set(cld.tuple_keys), {P.spell(*p, "alias") for p in pairs}, "tuple-keys")


SECTIONS = [conversions, equality, probe_names, malformed, dictionaries]
