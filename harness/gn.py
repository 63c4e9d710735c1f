"""Independent tables and projections shared by the checks (GNSS domain)."""
import numpy as np
from cssrlib import gnss as G
from cssrlib.gnss import uGNSS, uTYP, gtime_t
from vlib import lsb, toint, NAN, BADTYPE, INEXACT

GPS0 = 315964800            # 1980-01-06 in unix seconds
W2000 = GPS0 + 2000*604800

SYS = dict(G=uGNSS.GPS, R=uGNSS.GLO, E=uGNSS.GAL, C=uGNSS.BDS, J=uGNSS.QZS,
           S=uGNSS.SBS, I=uGNSS.IRN)
SIDX = dict(G=1, R=2, E=3, C=4, J=5, S=6, I=7)
LET = {v: k for k, v in SIDX.items()}
RANGE = dict(G=(1, 32), R=(1, 32), E=(1, 36), C=(1, 63), J=(193, 209),
             S=(120, 158), I=(1, 14))

_num = {}
_inv = {}
for _s, (_a, _b) in RANGE.items():
    for _p in range(_a, _b+1):
        try:
            n = G.prn2sat(SYS[_s], _p)
        except Exception:
            n = None
        _num[(_s, _p)] = n
        if n is not None:
            _inv.setdefault(int(n), SIDX[_s]*1000+_p)


def sid(s, prn):
    """stable satellite id used in traces"""
    return SIDX[s]*1000+prn


def sat(i):
    """satellite number of the code for a trace id"""
    return _num[(LET[i//1000], i % 1000)]


def unsat(n):
    """trace id of a satellite number of the code"""
    try:
        return _inv.get(int(n), -int(n))
    except Exception:
        return BADTYPE


def name(i):
    s, p = LET[i//1000], i % 1000
    if s == "J":
        p -= 192
    if s == "S":
        p -= 100
    return f"{s}{p:02d}"


def t2i(t):
    """gtime -> integer seconds since GPS week 2000; -1 = default time"""
    if t is None:
        return -1
    try:
        if t.time == 0 and t.sec == 0:
            return -1
        if t.sec != 0:
            v = t.time-W2000+t.sec
            return int(v) if v == int(v) else INEXACT
        v = t.time - W2000
        return int(v) if abs(v) < 2**31 else BADTYPE
    except Exception:
        return BADTYPE


def i2t(v):
    return gtime_t(W2000+int(v), 0.0)


def uset(rows):
    """JSON array of a set (duplicates removed, sorted)"""
    return [list(x) for x in sorted({tuple(r) for r in rows})]


# signal masks of Compact SSR (table of RINEX signal codes, bit order)
CSSR_SIG = {
    "G": ["1C", "1P", "1W", "1S", "1L", "1X", "2S", "2L", "2X", "2P", "2W",
          "5I", "5Q", "5X"],
    "R": ["1C", "1P", "2C", "2P", "4A", "4B", "4X", "6A", "6B", "6X", "3I",
          "3Q", "3X"],
    "E": ["1B", "1C", "1X", "5I", "5Q", "5X", "7I", "7Q", "7X", "8I", "8Q",
          "8X", "6B", "6C", "6X"],
    "C": ["2I", "2Q", "2X", "6I", "6Q", "6X", "7I", "7Q", "7X", "1D", "1P",
          "1X", "5D", "5P", "5X"],
    "J": ["1C", "1S", "1L", "1X", "2S", "2L", "2X", "5I", "5Q", "5X", "6D",
          "6P", "6E", "1E"],
}
