"""P21: RINEX observation files."""
import datetime
import gzip
import os
import gn
from vlib import lsb, toint, BADTYPE, INEXACT, NAN
import numpy as np
from cssrlib.gnss import gtime_t, Obs, rSigRnx, uTYP
from cssrlib.rinex import rnxdec, rnxenc, sync_obs

TYP = dict(C=uTYP.C, L=uTYP.L, D=uTYP.D, S=uTYP.S)
EP2000 = datetime.datetime(1980, 1, 6)+datetime.timedelta(weeks=2000)
CODES = dict(G=["1C", "1W", "1S", "1L", "1X", "2C", "2W", "2S", "2L", "2X",
                "5I", "5Q", "5X"],
             R=["1C", "1P", "2C", "2P", "3I", "3Q", "3X"],
             E=["1B", "1C", "1X", "5I", "5Q", "5X", "7I", "7Q", "7X", "8I",
                "8Q", "8X", "6B", "6C", "6X"],
             C=["2I", "2Q", "2X", "6I", "7I", "1D", "1P", "1X", "5D", "5P",
                "5X", "7D", "7P"],
             J=["1C", "1S", "1L", "1X", "2S", "2L", "2X", "5I", "5Q", "5X"],
             S=["1C", "5I", "5Q", "5X"],
             I=["5A", "9A"])


def epoch(t):
    return EP2000+datetime.timedelta(seconds=t)


def num(v):
    """number as printed with 3 digits -> text (14 columns)"""
    q, r = v[0], v[1]
    n = q*1000000+r
    s = f"{abs(n)//1000}.{abs(n) % 1000:03d}"
    return ("-"+s if n < 0 else s).rjust(14)


def d4(v):
    """[millions, units] of 1e-4 -> 14.4f text"""
    n = v[0]*1000000+v[1]
    s = f"{abs(n)//10000}.{abs(n) % 10000:04d}"
    return ("-"+s if n < 0 else s).rjust(14)


def u4(n):
    return [n//1000000, n % 1000000]


def meta(rng):
    """other header values"""
    def w():
        n = rng.randint(1, 16)
        return "".join(rng.choice("ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789.-_")
                       for _ in range(n))
    g = rng.sample(range(1, 25), rng.choice([0, 0, 1, 7, 8, 9, 16, 17, 24]))
    return dict(pos=[u4(rng.randrange(-6400*10**7, 6400*10**7))
                     for _ in range(3)],
                hen=[u4(rng.randrange(-99999, 10**6)) for _ in range(3)],
                ant=w(), rcv=w(),
                ts=[rng.randrange(-600000000, 1500000000),
                    rng.randrange(10**7)],
                te=rng.choice([[-1, 0], [rng.randrange(1, 1500000000),
                                         rng.randrange(10**7)]]),
                glo=[[2000+p, rng.randint(-7, 6)] for p in g])


def hepoch(t):
    d = epoch(t[0])
    return f"  {d.year:4d}{d.month:6d}{d.day:6d}{d.hour:6d}{d.minute:6d}" \
        f"{d.second:5d}.{t[1]:07d}"


def header(rng, c, M=None):
    L = []
    M = M or meta(rng)
    ver = rng.choice(["3.02", "3.03", "3.04", "3.05", "4.00", "4.01", "4.02"])
    L.append(f"{ver:>9}"+" "*11+f"{'OBSERVATION DATA':20}{'M: MIXED':20}"
             + "RINEX VERSION / TYPE")
    H = []
    H.append([f"{'prog':20}{'runby':20}{'20200101 000000 UTC':20}"
              + "PGM / RUN BY / DATE"])
    H.append([f"{'G  100 C1C L1C SYS / # / OBS TYPES':60}COMMENT"])
    H.append([f"{'site':60}MARKER NAME"])
    H.append([f"{'1':20}{M['rcv']:20}{'1.0':20}REC # / TYPE / VERS"])
    H.append([f"{'1':20}{M['ant']:20}{'':20}ANT # / TYPE"])
    H.append(["".join(d4(v) for v in M["pos"])+f"{'':18}APPROX POSITION XYZ"])
    H.append(["".join(d4(v) for v in M["hen"])
              + f"{'':18}ANTENNA: DELTA H/E/N"])
    if M["glo"]:
        ls = []
        for k in range(0, len(M["glo"]), 8):
            h = f"{len(M['glo']):3d} " if k == 0 else " "*4
            h += "".join(f"R{x[0] % 1000:02d} {x[1]:2d} "
                         for x in M["glo"][k:k+8])
            ls.append(f"{h:60}GLONASS SLOT / FRQ #")
        H.append(ls)
    for y, codes in c["hdr"]:
        ls = []
        for k in range(0, max(1, len(codes)), 13):
            h = f"{gn.LET[y]}  {len(codes):3d}" if k == 0 else " "*6
            h += "".join(" "+x for x in codes[k:k+13])
            ls.append(f"{h:60}SYS / # / OBS TYPES")
        H.append(ls)
    H.append([f"{30.0:10.3f}{'':50}INTERVAL"])
    rng.shuffle(H)
    for h in H:
        L += h
    L.append(f"{hepoch(M['ts'])+'     GPS':60}TIME OF FIRST OBS")
    if M["te"][0] != -1:
        L.append(f"{hepoch(M['te'])+'     GPS':60}TIME OF LAST OBS")
    L.append(f"{'':60}END OF HEADER")
    return L


def epline(t, flag, n, rng, blank=False):
    if blank:
        return f">{'':30}{flag}{n:3d}"
    d = epoch(t[0])
    s = f"> {d.year:4d} {d.month:02d} {d.day:02d} {d.hour:02d} " \
        f"{d.minute:02d}{d.second:3d}.{t[1]:07d}  {flag}{n:3d}"
    if rng.random() < .3:
        s += f"{'':6}{-0.000123456789:15.12f}"
    return s


EVLINES = ["G    4 C5Q L5Q D5Q S5Q", "moving", "> comment like an epoch",
           "G01  20000000.000", "   1.0   2.0   3.0", "", "E  garbage"]


def body(rng, recs):
    L = []
    for r in recs:
        if r["flag"] in (0, 1):
            L.append(epline(r["t"], r["flag"], len(r["sats"]), rng))
        elif r["flag"] == 6:
            L.append(epline(r["t"], 6, len(r["sats"]), rng))
        else:
            n = rng.choice([0, 1, 2, 3])
            L.append(epline(r["t"], r["flag"], n, rng,
                            r["flag"] in (3, 4) and rng.random() < .7))
            for _ in range(n):
                L.append(f"{rng.choice(EVLINES):60}COMMENT")
            continue
        for row in r["sats"]:
            y, p = gn.LET[row["s"]//1000], row["s"] % 1000
            p -= dict(J=192, S=100).get(y, 0)
            s = f"{y}{p:2d}" if rng.random() < .2 else f"{y}{p:02d}"
            for v in row["f"]:
                if v == [0, 0, 0]:
                    s += " "*16
                else:
                    s += num(v)
                    s += str(v[2]) if v[2] or rng.random() < .1 else " "
                    s += rng.choice([" ", "7", "4"])
            L.append(s.rstrip() if rng.random() < .7 else s)
    return L


def split(v, scale=1e-3):
    try:
        n = float(v)/scale
    except Exception:
        return [BADTYPE, 0]
    if n != n:
        return [BADTYPE, 1]
    r = round(n)
    if abs(n-r) > 1e-3:
        return [INEXACT, 0]
    return [r//1000000, r % 1000000]


def ptime(t):
    if t.time == 0 and t.sec == 0:
        return [-1, 0]
    return [toint(t.time-gn.W2000), lsb(t.sec, 1e-7, 1e-2)]


def view_meta(d):
    return dict(pos=[split(x, 1e-4) for x in d.pos],
                ecc=[split(x, 1e-4) for x in d.ecc],
                ant=d.ant.strip(), rcv=d.rcv.strip(), ts=ptime(d.ts),
                te=[-1, 0] if d.te is None else ptime(d.te),
                glo=gn.uset([gn.unsat(s), toint(v)]
                            for s, v in d.glo_ch.items()))


def pobs(d, o, c):
    rows = []
    want = {(y, ty): len(w) for y, ty, w in c["req"]}
    for k in range(len(o.sat)):
        i = gn.unsat(o.sat[k])
        y = i//1000
        w = {ty: want.get((y, ty), 0) for ty in "CLDS"}
        rows.append([i] + [[split(x) for x in A[k][:w[ty]]]
                           for ty, A in zip("CLDS", (o.P, o.L, o.D, o.S))]
                    + [[toint(x) for x in o.lli[k][:w["L"]]]])
    return dict(t=ptime(o.t), rows=rows)


class Dut:
    def __init__(self, run, c, gz=False):
        self.run, self.c = run, c
        rng = run.rng
        run.hist(**c)
        self.d = {}
        self.ok = True
        for w in ("rov", "base"):
            fn = os.path.join(run.tmp, f"{w}.rnx")
            M = meta(rng)
            txt = "\n".join(header(rng, c, M)+body(rng, c[w]))+"\n"
            if gz:
                fn += ".gz"
                with gzip.open(fn, "wt") as f:
                    f.write(txt)
            else:
                with open(fn, "w") as f:
                    f.write(txt)
            d = rnxdec()
            d.setSignals([rSigRnx(gn.SYS[gn.LET[y]], x)
                          for y, ty, ws in c["req"] for x in ws])
            _, exc = run.call(d.decode_obsh, fn)
            if w == "rov" or exc:
                m = [] if exc else gn.uset(
                    [gn.SIDX[k], i, g.str()] for s, x in d.sig_map.items()
                    for k in gn.SYS if gn.SYS[k] == s for i, g in x.items())
                run.ev("hdr", out=dict(map=m), exc=exc)
                o, exc = run.call(view_meta, d)
                run.ev("meta", out=o, exc=exc, **M)
            self.d[w] = d
            if exc:
                self.ok = False

    def next(self):
        run = self.run

        def f():
            return pobs(self.d["rov"], self.d["rov"].decode_obs(), self.c)
        o, exc = run.call(f)
        run.ev("next", out=o, exc=exc)

    def sync(self):
        run = self.run
        r, exc = run.call(sync_obs, self.d["rov"], self.d["base"], timeout=3)
        run.ev("sync", out=dict(t=ptime(r[0].t), tb=ptime(r[1].t))
               if not exc else {}, exc=exc)
        return not exc and r[0].t.time != 0

    def subst(self):
        run = self.run

        def f():
            d = self.d["rov"]
            d.autoSubstituteSignals()
            return [[y, ty, [g.str() for g in
                             d.sig_tab[gn.SYS[gn.LET[y]]][TYP[ty]]]]
                    for y, ty, _ in self.c["req"]]
        r, exc = run.call(f)
        run.ev("subst", out=dict(req=r), exc=exc)

    def close(self):
        for d in self.d.values():
            if d.fobs:
                d.fobs.close()


def field(rng, ty):
    x = rng.random()
    if x < .2:
        return [0, 0, 0]
    n = dict(C=rng.randrange(19000000000, 42000000000),
             L=rng.randrange(-10**9, 2*10**11),
             D=rng.randrange(-7000000, 7000000),
             S=rng.randrange(10000, 60000))[ty]
    if x < .25:
        n = rng.choice([1, -1, 999, -999, 1000, 9999999999999, -999999999999])
    if n == 0:
        n = 1
    return [n//1000000, n % 1000000,
            rng.choice([0, 0, 0, 1, 2, 3, 4, 5, 6, 7]) if ty == "L" else 0]


def times(rng, n, t, dt=30):
    r = []
    for _ in range(n):
        t += dt*rng.choice([1, 1, 1, 2, 3])
        r.append([t, rng.choice([0, 0, 0, rng.randrange(10**6),
                                 5000000])])
    return r


def config(rng):
    sys = rng.sample("GRECJSI", rng.randint(1, 6))
    hdr, req = [], []
    for y in sys:
        codes = CODES[y]
        n = rng.choice([1, 2, 3, 5, 7, len(codes)])
        cs = rng.sample(codes, min(n, len(codes)))
        allc = [ty+x for x in cs for ty in "CLDS"
                if rng.random() < .9]
        k = rng.random()
        if k < .5:
            allc = allc[:rng.choice([1, 4, 12, 13, 14, 26, 27, 28, 39, 40,
                                     41])]
        if rng.random() < .5:
            rng.shuffle(allc)
        if not allc:
            allc = ["C"+cs[0]]
        hdr.append([gn.SIDX[y], allc])
    for y in rng.sample("GRECJSI", 7):
        if rng.random() < .3 and y not in sys or rng.random() < .25:
            continue
        same = rng.sample(CODES[y], min(len(CODES[y]), rng.randint(1, 4)))
        for ty in rng.sample("CLDS", rng.randint(1, 4)):
            w = same if rng.random() < .7 else \
                rng.sample(CODES[y], min(len(CODES[y]), rng.randint(1, 3)))
            req.append([gn.SIDX[y], ty, [ty+x for x in w]])
    if not req:
        req = [[hdr[0][0], hdr[0][1][0][0], [hdr[0][1][0]]]]
    return hdr, req


def records(rng, hdr, ts):
    recs = []
    for t in ts:
        x = rng.random()
        if x < .2:
            fl = rng.choice([2, 3, 4, 5, 6])
            recs.append(dict(flag=fl, t=t, sats=rows(rng, hdr)
                             if fl == 6 else []))
        if x < .1:
            continue
        recs.append(dict(flag=0 if rng.random() < .9 else 1, t=t,
                         sats=rows(rng, hdr)))
    return recs


def rows(rng, hdr):
    r = []
    for y, codes in hdr:
        a, b = gn.RANGE[gn.LET[y]]
        if gn.LET[y] == "J":
            b = 199
        for p in rng.sample(range(a, b+1), rng.randint(0, 4)):
            r.append(dict(s=y*1000+p, f=[field(rng, c[0]) for c in codes]))
    rng.shuffle(r)
    return r


MISS = [NAN, 0]


def gen_write(rng):
    tab = []
    for y in rng.sample("GRECJSI", rng.randint(1, 6)):
        n = rng.choice([1, 2, 3, 4, 5, 6, 7, 9, 13, 15])
        ws = rng.sample(CODES[y], min(n, len(CODES[y])))
        tab.append(dict(y=gn.SIDX[y], w=ws,
                        ty=["C", "L"]+rng.choice([["D", "S"], ["D", "S"], [],
                                                  ["D"], ["S"]])))
    t0 = rng.randrange(-600000000, 1500000000)
    eps = []
    for t in times(rng, rng.randint(1, 4), t0, rng.choice([1, 30])):
        rs = []
        for tb in tab:
            s = gn.LET[tb["y"]]
            a, b = gn.RANGE[s]
            if s == "J":
                b = 199
            for q in rng.sample(range(a, b+1), rng.randint(0, 4)):
                v = []
                for ty in "CLDS":
                    r = [field(rng, ty)[:2] for _ in tb["w"]]
                    v.append([MISS if rng.random() < .05 else
                              [0, 0] if ty not in tb["ty"] and ty != "S"
                              else x for x in r])
                rs.append(dict(s=tb["y"]*1000+q, v=v,
                               lli=[rng.choice([0, 0, 1, 2, 3])
                                    for _ in tb["w"]]))
        rng.shuffle(rs)
        eps.append(dict(t=t, rows=rs))
    return dict(tab=tab, eps=eps,
                pos=[u4(rng.randrange(-6400*10**7, 6400*10**7))
                     for _ in range(3)])


def fcol(s, scale):
    """fixed column number -> [millions, units]"""
    if not s.strip():
        return [0, 0]
    i, f = s.strip().split(".")
    n = int(i+f)
    if len(f) != scale:
        raise ValueError("digits: "+s)
    return [n//1000000, n % 1000000]


def tline(s, sec):
    d = datetime.datetime(*[int(x) for x in s.split()])-EP2000
    a, f = sec.split(".")
    return [d.days*86400+d.seconds+int(a), int(f)]


def parse_rnx(txt):
    """independent reader of fixed columns"""
    L = txt.split("\n")
    assert L[-1] == ""
    L = L[:-1]
    hdr, o, k, y = [], {}, 0, None
    assert L[0][60:].strip() == "RINEX VERSION / TYPE"
    assert L[0][20] == "O" and L[0][5:9] == "4.02"
    while True:
        s = L[k]
        k += 1
        lab = s[60:].strip()
        assert len(s) <= 80
        if lab == "END OF HEADER":
            break
        if lab == "SYS / # / OBS TYPES":
            if s[0] != " ":
                y, n = s[0], int(s[3:6])
                assert s[6] == " "
                hdr.append([gn.SIDX[y], []])
                left = n
            assert left > 0 and s[1:3] == "  "
            for m in range(min(13, left)):
                assert s[6+4*m] == " "
                hdr[-1][1].append(s[7+4*m:10+4*m])
            assert not s[6+4*min(13, left):60].strip()
            left -= min(13, left)
        elif lab == "APPROX POSITION XYZ":
            o["pos"] = [fcol(s[14*m:14*m+14], 4) for m in range(3)]
        elif lab == "TIME OF FIRST OBS":
            assert s[48:51] == "GPS"
            o["first"] = tline(s[:30], s[30:43])
        assert lab in ("RINEX VERSION / TYPE", "PGM / RUN BY / DATE",
                       "MARKER NAME", "OBSERVER / AGENCY",
                       "REC # / TYPE / VERS", "ANT # / TYPE",
                       "APPROX POSITION XYZ", "ANTENNA: DELTA H/E/N",
                       "SYS / # / OBS TYPES", "TIME OF FIRST OBS",
                       "LEAP SECONDS", "COMMENT", "INTERVAL"), lab
    o["hdr"] = hdr
    cols = {gn.LET[h[0]]: h[1] for h in hdr}
    eps = []
    while k < len(L):
        s = L[k]
        k += 1
        assert s[:2] == "> " and s[31] == "0"
        e = dict(t=tline(s[2:18], s[18:29]), rows=[])
        for _ in range(int(s[32:35])):
            s = L[k]
            k += 1
            y = s[0]
            prn = int(s[1:3])+dict(J=192, S=100).get(y, 0)
            f = []
            for m, c in enumerate(cols[y]):
                x = s[3+16*m:19+16*m]
                v = fcol(x[:14], 3)
                f.append(v+[int(x[14:15].strip() or 0)])
            assert not s[3+16*len(cols[y]):].strip()
            e["rows"].append([gn.SIDX[y]*1000+prn, f])
        eps.append(e)
    o["eps"] = eps
    return o


def write(run, g):
    rng = run.rng

    def val(v, exact):
        if v == MISS:
            return float("nan")
        x = (v[0]*1000000+v[1])*1e-3
        return x if exact or v == [0, 0] else x+rng.uniform(-3e-4, 3e-4)

    def f():
        tab = {}
        for tb in g["tab"]:
            y = gn.LET[tb["y"]]
            tab[gn.SYS[y]] = {TYP[t]: [rSigRnx(gn.SYS[y], t+w)
                                       for w in tb["w"]] for t in tb["ty"]}
        enc = rnxenc(sig_tab=tab)
        enc.pos = np.array([(v[0]*1000000+v[1])*1e-4 for v in g["pos"]])
        fn = os.path.join(run.tmp, "w.rnx")
        nw = max(len(tb["w"]) for tb in g["tab"])
        with open(fn, "w") as fh:
            for n, e in enumerate(g["eps"]):
                o = Obs()
                o.t = gtime_t(gn.W2000+e["t"][0], e["t"][1]*1e-7)
                m = len(e["rows"])
                A = [np.zeros((m, nw)) for _ in range(4)]
                o.lli = np.zeros((m, nw), dtype=np.int32)
                for k, r in enumerate(e["rows"]):
                    for q in range(4):
                        for j, v in enumerate(r["v"][q]):
                            A[q][k, j] = val(v, rng.random() < .5)
                    o.lli[k, :len(r["lli"])] = r["lli"]
                o.P, o.L, o.D, o.S = A
                o.sat = np.array([gn.sat(r["s"]) for r in e["rows"]],
                                 dtype=np.int32)
                o.sig = tab
                enc.rnx_obs_header(o.t, fh)
                enc.rnx_obs_body(o, fh)
        out = parse_rnx(open(fn).read())
        d = rnxdec()
        d.setSignals([rSigRnx(gn.SYS[gn.LET[tb["y"]]], t+w)
                      for tb in g["tab"] for t in tb["ty"] for w in tb["w"]])
        d.decode_obsh(fn)
        c = dict(req=[[tb["y"], t, tb["w"]] for tb in g["tab"]
                      for t in tb["ty"]])
        eps = []
        for k in range(len(out["eps"])):
            r = pobs(d, d.decode_obs(), c)
            if r["t"] != out["eps"][k]["t"]:
                raise ValueError("time read")
            eps.append(dict(t=r["t"], file=out["eps"][k]["rows"],
                            read=r["rows"]))
        if len(d.decode_obs().sat):
            raise ValueError("read beyond")
        d.fobs.close()
        out["eps"] = eps
        return out
    o, exc = run.call(f)
    run.ev("wr", out=o, exc=exc, **g)


def main(run):
    rng = run.rng
    run.assumptions += [
        "values are read as printed (scale-factor header records and "
        "re-definition of observation types by event records: not covered)"]
    edges = run.model_check("RnxObs_MC", emit=True)
    for cfg, evs in run.paths(edges, maxlen=10,
                              budget=150 if run.quick else 3000):
        d = Dut(run, cfg)
        for e in evs:
            getattr(d, e["op"])()
        d.close()
    run.validate("RnxObs_Trace", label="model")
    for h in range(150 if run.quick else 3000):
        hdr, req = config(rng)
        t0 = rng.randrange(-600000000, 1500000000)
        n = rng.randint(1, 6)
        if h % 3 == 0:        # synchronisation
            dt = rng.choice([1, 1, 30])
            tr = times(rng, n+3, t0, dt)
            tb = [[t[0], min(9999999, max(0, t[1]+rng.choice(
                [0, 0, 400000, 2000000])))] for t in tr
                if rng.random() < .8]
            tb += times(rng, 2, (tb or tr)[-1][0], dt)
            rov = [dict(flag=rng.choice([0, 0, 0, 0, 1, 4, 5]), t=t,
                        sats=[]) for t in tr]
            base = [dict(flag=rng.choice([0, 0, 0, 0, 1, 4, 5]), t=t,
                         sats=[]) for t in tb]
        else:
            rov = records(rng, hdr, times(rng, n, t0))
            base = []
        c = dict(hdr=hdr, req=req, rov=rov, base=base)
        d = Dut(run, c, gz=rng.random() < .1)
        if not d.ok:
            continue
        if h % 3 and rng.random() < .5 and all(
                len({x[:2] for x in w}) == len(w) for _, _, w in req):
            d.subst()
            d.c = dict(c)
        for _ in range(len(rov)+1):
            if h % 3 == 0 and rng.random() < .8:
                if not d.sync():
                    break
            else:
                d.next()
        d.close()
    for h in range(80 if run.quick else 1500):
        run.hist(hdr=[], req=[], rov=[], base=[])
        for _ in range(rng.randint(1, 3)):
            write(run, gen_write(rng))
    run.validate("RnxObs_Trace")
