"""Independent probe naming table (written from the documentation, not imported from the code under test)."""
LONG = ["PhotometricGalaxy", "SpectroscopicGalaxy", "Lensing", "Void"]
SHORT = ["ph", "sp", "wl", "vd"]
ALIAS = ["GCph", "GCsp", "WL", "V"]
N = 4
KINDS = ("long", "short", "alias")


def spell(i, j, kind):
    """raw key of the ordered pair (i, j) in a notation"""
    if kind == "long":
        return f"{LONG[i]}_{LONG[j]}"
    if kind == "short":
        return SHORT[i] + SHORT[j]
    return (ALIAS[i], ALIAS[j])


def name(i, kind):
    return {"long": LONG, "short": SHORT, "alias": ALIAS}[kind][i]


def fisher_repr(i, j, kind="alias"):
    a, b = name(i, kind), name(j, kind)
    return a if i == j else f"XC({a},{b})"
