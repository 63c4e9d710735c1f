"""P22: RINEX navigation files."""
import datetime
import os
from decimal import Decimal
import gn
from vlib import toint, BADTYPE, INEXACT, NAN
from cssrlib.gnss import Nav, sat2prn
from cssrlib.rinex import rnxdec, rnxenc

EP = datetime.datetime(1980, 1, 6)
INTS = """iode iodc week toes code l2p svh svhq fit ttm tops urai0 urai1 urai2
urai3 urai wn_op integ sattype sisai0 sisai1 sisai2 sisai3 sismai frq age flag
status src aode aodc tk svhf iodn sn mode""".split()
# printed unit of a parameter: 10**-n
UNIT = dict(af0=15, af1=20, af2=25, crs=4, crc=4, deln=17, idot=17, OMGd=17,
            delnd=20, M0=8, i0=8, OMG0=8, omg=8, cuc=14, cus=14, cic=14,
            cis=14, e=9, sqrtA=5, Adot=9, tgd=17, tgd_b=17, bgda=17, bgdb=17,
            sva=2, ntaun=15, taun=15, gamn=20, beta=22, dtaun=17, tin=1,
            tau1=3, tau2=3, psi=6, win=9, dw=9, wmax=9, iod=0)
for _a in INTS:
    UNIT[_a] = 0
for _n in range(6):
    UNIT[f"isc{_n}"] = 17
for _n in range(3):
    UNIT[f"dp{_n}"] = 3
for _a in "xyz":
    UNIT["p"+_a], UNIT["v"+_a], UNIT["a"+_a] = 5, 8, 12
for _n in range(24):
    UNIT[f"p{_n}"] = 6
for _n in range(4):
    UNIT[f"r{_n}"] = 3
UN = dict(UNIT)
for _a in "xyz":  # stored in metres
    UN["p"+_a], UN["v"+_a], UN["a"+_a] = 2, 5, 9

KEPL = "crs deln M0 cuc e cus cic OMG0 cis i0 crc omg OMGd idot".split()


def text(rng, v, n, w=19, style=None):
    """number v*10**-n in 19 columns"""
    st = style or rng.choice(["1", "1", "1", "0", "."])
    if v == 0 and rng.random() < .3:
        return " "*w
    ch = rng.choice("EEEDD" if style is None else "E")
    d = Decimal(v).scaleb(-n)
    s, dg, ex = d.as_tuple()
    dg = list(dg)
    ex = ex+len(dg)-1 if v else 0          # exponent of 1.xxx
    if st == "1":
        dg = (dg+[0]*13)[:13]
        t = f"{dg[0]}."+"".join(map(str, dg[1:]))
    else:
        dg = (dg+[0]*12)[:12]
        t = ("0." if st == "0" and not s else ".")+"".join(map(str, dg))
        ex = ex+1 if v else 0
    return (("-" if s else "")+t+f"{ch}{ex:+03d}").rjust(w)


def cal(t):
    return EP+datetime.timedelta(weeks=t[0], seconds=t[1])


def line0(rng, y, prn, t, names, v):
    d = cal(t)
    s = f"{y}{prn:02d} {d.year:4d} {d.month:02d} {d.day:02d} {d.hour:02d} " \
        f"{d.minute:02d} {d.second:02d}"
    return s+"".join(text(rng, x, UNIT[a]) for a, x in zip(names, v))


def fin(rng, s):
    return s.rstrip() if rng.random() < .5 else s


# ---------------------------------------------------------------- generation
def kep(a, b):
    return [[a, "crs", "deln", "M0"], ["cuc", "e", "cus", "sqrtA"],
            [b, "cic", "OMG0", "cis"], ["i0", "crc", "omg", "OMGd"]]


def xyz(a, b, c):
    return [["px", "vx", "ax", a], ["py", "vy", "ay", b],
            ["pz", "vz", "az", c]]


N = "-"


def layout(y, ty, ver, rsf=0):
    """names of the numbers of the lines after the first"""
    if y == "R" and ty == "FDMA":
        r = xyz("svh", "frq", "age")
        return r+([["flag", "dtaun", "sva", "svhf"]] if ver >= 305 else [])
    if y == "R":
        return xyz("svh", "status", "isc1" if ty == "L1OC" else "isc2")+[
            ["sattype", "src", "aode", "aodc"],
            ["flag", "tin", "tau1", "tau2"], ["psi", "sn", "win", "dw"],
            ["wmax", "dp0", "dp1", "dp2"], ["urai0", "urai1", "tk", N]]
    if y == "S":
        return xyz("svh", "sva", "iodn")
    if y in "GJ" and ty == "LNAV":
        return kep("iode", "toes")+[
            ["idot", "code", "week", "l2p"],
            ["sva", "svh" if y == "G" else "svhq", "tgd", "iodc"],
            ["ttm", "fit", N, N]]
    if y in "GJ":
        r = kep("Adot", "tops")+[
            ["idot", "delnd", "urai0", "urai1"],
            ["sva", "svh", "tgd", "urai2"], ["isc0", "isc1", "isc2", "isc3"]]
        if ty == "CNV2":
            r.append(["isc4", "isc5", N, N])
        return r+[["ttm", "wn_op", "integ", N]]
    if y == "E":
        return kep("iode", "toes")+[["idot", "code", "week", N],
                                    ["sva", "svh", "bgda", "bgdb"],
                                    ["ttm", N, N, N]]
    if y == "C" and ty[0] == "D":
        return kep("iode", "toes")+[["idot", N, "week", N],
                                    ["sva", "svh", "tgd", "tgd_b"],
                                    ["ttm", "iodc", N, N]]
    if y == "C":
        r = kep("Adot", "toes")+[["idot", "delnd", "sattype", "tops"],
                                 ["sisai0", "sisai1", "sisai2", "sisai3"]]
        if ty == "CNV3":
            return r+[["sismai", "svh", "integ", "tgd"], ["ttm", N, N, N]]
        r.append(["isc0", N, "tgd", "tgd_b"] if ty == "CNV1" else
                 [N, "isc1", "tgd", "tgd_b"])
        return r+[["sismai", "svh", "integ", "iodc"], ["ttm", N, N, "iode"]]
    if y == "I" and ty == "LNAV":
        return kep("iode", "toes")+[["idot", N, "week", N],
                                    ["sva", "svh", "tgd", N],
                                    ["ttm", N, N, N]]
    r = kep("Adot", "iode")+[["idot", "delnd", N, "integ"]]
    r += [["urai", "svh", "tgd", N], ["isc5", "isc4", N, N]] if rsf == 0 else \
        [["urai", "svh", N, "tgd"], [N, N, "isc5", "isc4"]]
    return r+[["ttm", N, N, N]]


TYPES = dict(G=["LNAV", "CNAV", "CNV2"], J=["LNAV", "CNAV", "CNV2"],
             E=["INAV", "FNAV"], C=["D1", "D2", "CNV1", "CNV2", "CNV3"],
             I=["LNAV", "L1NV"], R=["FDMA", "L1OC", "L3OC"], S=["SBAS"])
OLD = dict(G=["LNAV"], J=["LNAV"], E=["IFNV"], C=["D1", "D2"], I=["LNAV"],
           R=["FDMA"], S=["SBAS"])
PRNS = dict(G=32, J=7, E=36, C=63, I=14, R=27, S=39)


def first(y, ty):
    if y == "R":
        return ["ntaun", "gamn", "tk" if ty == "FDMA" else "beta"]
    return ["af0", "af1", "ttm" if y == "S" else "af2"]


def value(rng, a, y, ty, r):
    big = rng.choice([10**3, 10**6, 999999999])
    if a in ("px", "vx", "ax", "py", "vy", "ay", "pz", "vz", "az"):
        return rng.randint(-big, big)
    small = dict(iode=1023, iodc=1023, l2p=1, svh=63, svhq=63, fit=1, tops=
                 604799, wn_op=255, integ=7, sattype=3, sismai=15, age=31,
                 flag=511, status=1, src=15, aode=255, aodc=255, svhf=7,
                 iodn=255, sn=1, urai=15, iod=7)
    if a == "integ" and ty == "L1NV":
        return r["rsf"]
    if a == "iode" and y in "GJC":
        return rng.choice([0, 1, rng.randint(0, 255)])
    if a in small:
        return rng.choice([0, 1, rng.randint(0, small[a]), small[a]])
    if a == "code":
        if y == "E":
            return rng.choice([513, 516, 517]) if ty == "INAV" or \
                ty == "IFNV" and rng.random() < .5 else 258
        return rng.choice([0, 1, 2])
    if a == "week":
        return r["t"][0]-(1356 if y == "C" else 0)+rng.choice([0, 0, 0, 1, -1])
    if a == "toes":
        return rng.choice([0, 7200, 597600, 604784, rng.randrange(604800)])
    if a == "ttm":
        return rng.choice([0, 30, 604799, -30, 604830, rng.randrange(604800)])
    if a == "tk":
        d = rng.choice([0, -30, -1800, 1800, -7200, 36000, -36000])
        v = (r["t"][1]+d) % 604800
        return v if rng.random() < .6 else v % 86400
    if a == "sva":
        if y == "R" or y in "GJ" and ty != "LNAV":
            return rng.randint(-16, 15)*100
        return rng.choice([200, 240, 280, 312, 0, 204800, -100])
    if a == "frq":
        return rng.choice([rng.randint(-7, 6), rng.randint(249, 255)])
    if a.startswith("urai") or a.startswith("sisai"):
        return rng.randint(-16, 15)
    if a == "e" or a == "sqrtA":
        return rng.choice([0, 1, rng.randrange(1, 10**9), 999999999])
    return rng.choice([0, 1, -1, rng.randint(-big, big),
                       rng.randint(-999999999, 999999999)])


def eph(rng, ver, prev):
    tab = TYPES if ver >= 400 else OLD
    y = rng.choice("GGJEECCCIRRS")
    ty = rng.choice(tab[y])
    prn = rng.randint(1, PRNS[y])
    p = [x for x in prev if x["y"] == y]
    if p and rng.random() < .4:
        prn = rng.choice(p)["prn"]
    w = rng.choice([2200, 2400, rng.randint(1600, 2450)])
    s = rng.choice([0, 597600, 603000, 604200, 86400*rng.randrange(7),
                    900*rng.randrange(672)])
    if y == "R" and ty == "FDMA" and rng.random() < .2:
        s = (s+rng.choice([18, 882, 30])) % 604800
        if (s+10800) % 86400 >= 85950:  # tb would round into the next day
            s -= 450
    if y == "R" and ty != "FDMA":
        s = s-s % 90
    if y in "CESGJI" and rng.random() < .3:
        s = rng.randrange(604800)
    r = dict(k="EPH", y=y, ty=ty, prn=prn, t=[w, s], rsf=rng.randrange(2),
             nb=False)
    names = layout(y, ty, ver, r["rsf"])
    r["v"] = [value(rng, a, y, ty, r) for a in first(y, ty)]
    r["L"] = [[0 if a == N else value(rng, a, y, ty, r) for a in ln]
              for ln in names]
    if y == "R" and ty == "FDMA" and ver >= 305 and rng.random() < .6:
        r["nb"] = True
        r["L"][3][3] = 0
    return finish(r)


def finish(r):
    y = r["y"]
    r["sat"] = gn.sid(y, r["prn"]+dict(J=192, S=100).get(y, 0) +
                      (19 if y == "S" else 0))
    return r


def prnof(r):
    return r["sat"] % 1000-dict(J=192, S=100).get(r["y"], 0)


def ephlines(rng, r, ver):
    y, ty = r["y"], r["ty"]
    out = []
    if ver >= 400:
        out.append(f"> EPH {y}{prnof(r):02d} {ty}")
    out.append(fin(rng, line0(rng, y, prnof(r), r["t"], first(y, ty),
                              r["v"])))
    for ln, vs in zip(layout(y, ty, ver, r["rsf"]), r["L"]):
        s = "    "
        for a, v in zip(ln, vs):
            if a == N:
                s += " "*19
            elif a == "svhf":
                s += " "*19 if r["nb"] else text(rng, v, 0, style="1") if v \
                    else "0.000000000000E+00".rjust(19)
            else:
                s += text(rng, v, UNIT[a])
        out.append(fin(rng, s))
    return out


PTY = ["LNAV", "FDMA", "IFNV", "D1D2", "SBAS", "CNVX", "L1NV", "LXOC"]


def P(*n):
    return [N if x is None else f"p{x}" for x in n]


def par_layout(r):
    k, y, ty, sub = r["k"], r["y"], r["ty"], r["sub"]
    if k == "EOP":
        return [P(0, 1, 2), P(None, 3, 4, 5), ["ttm"]+P(6, 7, 8)]
    if k == "STO":
        return [[N, N, N], ["ttm"]+P(0, 1, 2)]
    if y == "E":
        return [P(0, 1, 2), P(3, None, None, None)]
    if y == "C" and ty == "CNVX":
        return [P(0, 1, 2), P(3, 4, 5, 6), P(7, 8, None, None)]
    if y == "R":
        return [P(0, 1, 2)]
    if y == "I" and ty == "L1NV" and sub == "KLOB":
        return [["iod", N, N], P(0, 1, 2, 3), P(4, 5, 6, 7),
                ["r0", "r1", "r2", "r3"]]
    if y == "I" and ty == "L1NV":
        return [["iod", N, N]]+[P(*range(4*i, 4*i+4)) for i in range(6)]
    return [P(0, 1, 2), P(3, 4, 5, 6), P(7, 8, None, None)]


SRC = dict(GP=1, GL=2, GA=3, BD=4, QZ=5, IR=7, SB=6, UT=0)


def par(rng):
    k = rng.choice(["ION", "ION", "EOP", "STO"])
    y = rng.choice("GJECIR")
    ty = dict(G=["LNAV", "CNVX"], J=["LNAV", "CNVX"], E=["IFNV"],
              C=["D1D2", "CNVX"], I=["LNAV", "L1NV"], R=["LXOC"])[y]
    ty = rng.choice(ty)
    if k != "ION" and rng.random() < .1:
        ty = "XNAV"
    if k == "STO" and y == "R" and rng.random() < .5:
        ty = "FDMA"
    r = dict(k=k, y=y, ty=ty, prn=rng.randint(1, 7),
             t=[rng.randint(1600, 2450), rng.randrange(604800)],
             sub=rng.choice(["KLOB", "NEQN"]) if ty == "L1NV" else "",
             src=rng.sample(sorted(SRC), 2) if k == "STO" else [])
    names = par_layout(r)
    C = []
    for ln in names:
        row = []
        for a in ln:
            if a == N:
                v = 0
            elif a == "ttm":
                v = rng.randrange(604800)
            elif a == "iod":
                v = rng.randint(0, 7)
            else:
                v = rng.choice([0, 1, -1, rng.randint(-10**9, 10**9)])
            row.append(v)
        C.append(row)
    if k == "ION" and y == "E":
        C[1][0] = rng.randint(0, 31)*10**6
    elif k == "ION" and len(names) == 3 and not (y == "C" and ty == "CNVX"):
        C[2][1] = rng.randint(0, 2)*10**6
    r["v"], r["L"] = C[0], C[1:]
    r["codes"] = r["src"]
    r["src"] = [SRC[x] for x in r["src"]]
    return r


def parlines(rng, r):
    y = r["y"]
    h = f"> {r['k']} {y}{r['prn']:02d} {r['ty']}"
    if r["sub"]:
        h += " "+r["sub"]
    d = cal(r["t"])
    s = f"    {d.year:4d} {d.month:02d} {d.day:02d} {d.hour:02d} " \
        f"{d.minute:02d} {d.second:02d}"
    names = par_layout(r)
    if r["k"] == "STO":
        s += f" {''.join(r['codes']):18}"+" "*19+f"{'UTC(USNO)':19}"
    else:
        s += "".join(" "*19 if a == N else text(rng, v, UNIT[a])
                     for a, v in zip(names[0], r["v"]))
    out = [h, fin(rng, s)]
    for ln, vs in zip(names[1:], r["L"]):
        out.append(fin(rng, "    "+"".join(
            " "*19 if a == N else text(rng, v, UNIT[a])
            for a, v in zip(ln, vs))))
    return out


# --------------------------------------------------------------- observation
def scaled(x, n):
    try:
        x = float(x)
    except Exception:
        return BADTYPE
    if x != x:
        return NAN
    v = x*10.0**n if n < 20 else x*1e15*10.0**(n-15)
    if abs(v) > 2.1e9:
        return INEXACT
    r = round(v)
    return r if abs(v-r) < 2e-3 else INEXACT


def wt(t):
    try:
        q, s = divmod(int(t.time)-gn.GPS0, 604800)
        return [q, s] if t.sec == 0 else [q, INEXACT]
    except Exception:
        return [BADTYPE, 0]


def arr(o, base, name, n):
    d = {}
    v = getattr(o, name, None)
    if v is None:
        return d
    try:
        v = list(v)
    except TypeError:
        d[base] = scaled(v, 0)
        return d
    for k, x in enumerate(v[:n]):
        d[f"{base}{k}"] = scaled(x, UN[f"{base}{k}"])
    return d


def obs(o, c):
    a = dict(sat=gn.unsat(o.sat), mode=toint(o.mode))
    for n in UN:
        if n in ("mode", "sqrtA") or not hasattr(o, n):
            continue
        if n in ("urai", "sisai", "isc"):
            continue
        a[n] = scaled(getattr(o, n), UN[n])
    if c == "K":
        a["sqrtA"] = scaled(max(o.A, 0)**.5, UN["sqrtA"])
    for b, n, k in (("urai", "urai", 4), ("sisai", "sisai", 4),
                    ("isc", "isc", 6), ("dp", "dpos", 3)):
        a.update(arr(o, b, n, k))
    if c != "K":
        for pre, n in (("p", "pos"), ("v", "vel"), ("a", "acc")):
            for k, x in enumerate("xyz"):
                a[pre+x] = scaled(getattr(o, n)[k], UN[pre+x])
    for n in ("toc", "toe", "tot", "tof"):
        if hasattr(o, n) and hasattr(getattr(o, n), "time"):
            a[n] = wt(getattr(o, n))
    k = known(c, o)
    return dict(c=c, a={n: v for n, v in a.items() if n in k})


def known(c, o):
    """the parameters a record of this kind has"""
    y = gn.LET[gn.unsat(o.sat)//1000]
    if c == "S":
        ty = "SBAS"
    elif c == "R":
        ty = {0: "FDMA", 1: "L1OC"}.get(o.mode, "L3OC")
    else:
        t = TYPES.get(y, ["LNAV"])
        k = o.mode+1 if y == "C" and o.mode else o.mode
        ty = {("I", 2): "L1NV"}.get((y, o.mode), t[k] if k < len(t) else t[0])
    a = {x for r in [first(y, ty)]+layout(y, ty, 402) for x in r} - {
        "ttm", "tk", "svhf"}
    a |= {"sat", "mode", "toc", "toe"}
    if "ntaun" in a:
        a |= {"taun", "tof", "iode"}
    elif c == "S":
        a |= {"tof"}
    else:
        a |= {"tot", "week", "toes"}
    if y == "E":
        a |= {"tgd", "tgd_b", "iodc"}
    if y == "J":
        a |= {"svh", "code"} if ty == "LNAV" else {"svh"}
    if y in "GJ" and ty != "LNAV":
        a |= {"urai3"}
    if y == "I":
        a |= {"iodc"}
    return a


def store(nav):
    return [obs(o, c) for c, l in (("K", nav.eph), ("R", nav.geph),
                                   ("S", nav.seph)) for o in l]


def pars(nav):
    r = []
    for k, tab in (("ION", nav.ion_prm), ("EOP", nav.eop_prm),
                   ("STO", nav.sto_prm)):
        for s, x in tab.items():
            y = [q for q in gn.SYS if gn.SYS[q] == s]
            for im, o in x.items():
                a = dict(src=[])
                v = o.a if k == "STO" else o.prm
                try:
                    v = [z for row in v for z in row]
                    v = [v[8*j+4*h+i] for j in range(3) for h in range(2)
                         for i in range(4)]
                except TypeError:
                    pass
                for i, z in enumerate(list(v)[:24]):
                    a[f"p{i}"] = scaled(z, 6)
                if k == "STO":
                    a["src"] = [gn.SIDX.get(next((q for q in gn.SYS if
                                                  gn.SYS[q] == z), ""), 0)
                                for z in o.prm]
                a["t"] = wt({"ION": "t_tm", "EOP": "t_eop", "STO": "t_ot"}[k]
                            and getattr(o, {"ION": "t_tm", "EOP": "t_eop",
                                            "STO": "t_ot"}[k]))
                if k != "ION":
                    a["ttm"] = scaled(o.t_t, 0)
                else:
                    a["iod"] = scaled(o.iod, 0)
                    if o.region is not None:
                        for i, z in enumerate(o.region):
                            a[f"r{i}"] = scaled(z, 3)
                r.append(dict(k=k, y=y[0] if y else "?",
                              ty=PTY[im] if im < 8 else "?", a=a))
    return r


class Dut:
    def __init__(self, run):
        self.run = run
        run.hist()
        self.nav = Nav()
        self.n = 0
        self.ion = [[scaled(x, n) for x in row]
                    for row, n in zip(self.nav.ion, (13, -1))]
        self.leaps = toint(self.nav.leaps)
        self.prev = []

    def file(self, ver, recs, app, hdr):
        rng = self.run.rng
        L = [f"{ver/100:9.2f}"+" "*11+f"{'N: GNSS NAV DATA':20}"
             + f"{'M: Mixed':20}RINEX VERSION / TYPE"]
        for h in hdr:
            if h[0] == "LEAP":
                self.leaps = h[1]
                L.append(f"{h[1]:6d}{h[1]:6d}{'':48}LEAP SECONDS")
            else:
                k = 0 if h[0][3] == "A" else 1
                if h[0][:3] in ("GPS", "QZS"):
                    self.ion[k] = h[1]
                L.append(f"{h[0]} "+"".join(
                    text12(v, 13 if k == 0 else -1) for v in h[1])+" "*7
                    + "IONOSPHERIC CORR")
        L.append(f"{'':60}END OF HEADER")
        for r in recs:
            L += ephlines(rng, r, ver) if r["k"] == "EPH" else \
                parlines(rng, r)
        fn = os.path.join(self.run.tmp, "x.nav")
        with open(fn, "w") as f:
            f.write("\n".join(L)+"\n")
        return fn

    def read(self, ver, recs, app, hdr):
        fn = self.file(ver, recs, app, hdr)
        d = rnxdec()
        run = self.run

        def f():
            d.decode_nav(fn, self.nav, app)
            return dict(rec=store(self.nav), par=pars(self.nav),
                        ion=[[scaled(x, n) for x in row] for row, n in
                             zip(self.nav.ion, (13, -1))],
                        leaps=toint(self.nav.leaps))
        o, exc = run.call(f)
        run.ev("nav", out=o, exc=exc, ver=ver, app=app, recs=recs,
               ion=list(self.ion), leaps=self.leaps)
        return not exc

    def write(self):
        run = self.run
        fn = os.path.join(run.tmp, "y.nav")

        def f():
            e = rnxenc(sig_tab={})
            with open(fn, "w") as fh:
                e.rnx_nav_header(fh)
                for x in self.nav.eph:
                    e.rnx_nav_body(x, fh)
                for x in self.nav.geph:
                    e.rnx_gnav_body(x, fh)
                for x in self.nav.seph:
                    e.rnx_snav_body(x, fh)
            n = Nav()
            rnxdec().decode_nav(fn, n)
            return dict(rec=store(n))
        o, exc = run.call(f)
        run.ev("wr", out=o, exc=exc)


def text12(v, n):
    return f"{Decimal(v).scaleb(-n):.4E}".replace("E", "D").rjust(12) \
        if v else "   .0000D+00"


def norm(t):
    import re
    return re.sub(r"D([+-])(\d)$", r"D\g<1>0\2", t)


_t12 = text12


def text12(v, n):  # noqa: F811
    return norm(_t12(v, n).strip()).rjust(12)


def header(rng):
    h = []
    for k in rng.sample(["GPSA", "GPSB", "QZSA", "QZSB", "BDSA", "BDSB",
                         "GAL "], rng.randint(0, 4)):
        h.append([k, [rng.choice([0, 1, -1, rng.randint(-9999, 9999)])
                      for _ in range(4)]])
    if rng.random() < .6:
        h.append(["LEAP", rng.choice([15, 16, 17, 18, 19])])
    return h


def again(rng, prev, ver):
    """a record of a satellite already there: the same, or with its issue"""
    c = [r for r in prev if r["ver"] == ver]
    if not c:
        return None
    r = rng.choice(c)
    q = {k: ([list(x) if isinstance(x, list) else x for x in v]
             if isinstance(v, list) else v) for k, v in r.items()}
    if rng.random() < .5:     # a later one with the same issue
        q["t"][1] = (q["t"][1]+86400) % 604800
        for ln, vs in zip(layout(q["y"], q["ty"], ver, q["rsf"]), q["L"]):
            for i, a in enumerate(ln):
                if a == "toes":
                    vs[i] = (vs[i]+7200) % 604800
                elif a in ("M0", "px", "pz"):
                    vs[i] = rng.randint(-999999999, 999999999)
        if q["y"] == "R" and q["ty"] == "FDMA":
            q["v"][2] = q["t"][1]
        elif q["y"] == "R":
            q["L"][7][2] = q["t"][1]
    return q


def main(run):
    rng = run.rng
    run.assumptions += [
        "record layouts are those of RINEX 3.02-3.05 and 4.00-4.02",
        "BDS CNAV records have their ephemeris and clock times in the same "
        "week",
        "the health of a GLONASS record with a health-flags field is not "
        "compared",
        "system time offsets: one per system and message type"]
    edges = run.model_check("RnxNav_MC", emit=True)
    for _, evs in run.paths(edges, maxlen=3,
                            budget=250 if run.quick else 3000):
        d = Dut(run)
        for e in evs:
            if e["op"] == "wr":
                d.write()
            elif not d.read(e["ver"], e["recs"], e["app"], []):
                break
    run.validate("RnxNav_Trace", label="model")
    for h in range(150 if run.quick else 3000):
        d = Dut(run)
        prev = []
        for k in range(rng.choice([1, 1, 2])):
            ver = rng.choice([302, 303, 304, 304, 305, 400, 401, 402, 402])
            recs = []
            for _ in range(rng.choice([1, 3, 8, 14])):
                if ver >= 400 and rng.random() < .3:
                    recs.append(par(rng))
                    continue
                r = again(rng, prev, ver) if rng.random() < .3 else None
                if r is None:
                    r = eph(rng, ver, prev)
                r["ver"] = ver
                recs.append(r)
                prev.append(r)
            app = bool(k) and rng.random() < .5
            if not app:
                prev = [r for r in recs if r["k"] == "EPH"]
            if not d.read(ver, recs, app, header(rng)):
                break
            if rng.random() < .7:
                d.write()
        if h % 300 == 299:
            run.validate("RnxNav_Trace")
    run.validate("RnxNav_Trace")
