"""Profile lists in catalogue order, with plain dimensions (kept with the checks)."""
import json
import os
import re
from . import sections as S

HERE = os.path.dirname(os.path.abspath(__file__))
_I = json.load(open(os.path.join(HERE, "..", "ref", "catalogue.json")))
_H = json.load(open(os.path.join(HERE, "..", "ref", "hollow.json")))


def family(fam):
    """-> [(name, kind, dims)] of IPE, HEA, HEB, RHS, SHS, CHS"""
    out = []
    if fam in ("IPE", "HEA", "HEB"):
        for n, (h, b, tw, tf, r) in _I.items():
            p = n.split()
            if p[0] == "IPE" == fam or p[0] == "HE" and p[-1] == fam[2] and fam != "IPE":
                out.append((n, "I", dict(H=h, B=b, tw=tw, tf=tf, r=r)))
        return out
    for n in _H:
        p = n.split()
        if p[0] != fam:
            continue
        v = [float(x) for x in re.split("[xX]", p[1])]
        if fam == "CHS":
            out.append((n, "CHS", dict(D=v[0], T=v[1])))
        elif fam == "SHS":
            out.append((n, "SHS", dict(H=v[0], T=v[2])))
        else:
            out.append((n, "RHS", dict(H=v[0], B=v[1], T=v[2])))
    return out


def dims_of(s):
    """plain dimensions of a section object of the library"""
    if hasattr(s, "tf"):
        return dict(H=float(s.h), B=float(s.b), tw=float(s.tw), tf=float(s.tf), r=float(s.r))
    if hasattr(s, "D"):
        return dict(D=float(s.D), T=float(s.T))
    return dict(H=float(s.H), B=float(s.B), T=float(s.T))


def width(kind, d):
    return d["D"] if kind == "CHS" else d.get("B", d["H"])
