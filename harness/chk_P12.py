"""P12: SBAS L1 corrections."""
import numpy as np
import gn
from vlib import Bits, lsb, toint, INEXACT
from cssrlib.gnss import rCST, gtime_t
from cssrlib.cssrlib import sCType
from cssrlib.sbas import sbasDec, ionoSBAS

BASE = 250*604800
C = rCST.CLIGHT
NGP = {b: 201 if b < 8 else 200 if b == 8 else 192 for b in range(11)}
NAVN = [30, 30, 25, 17, 17, 18, 10, 10, 10, 12, 8]
ALMN = [15, 15, 9, 3, 3, 4]



def half(b, h):
    b.u(h["vc"], 1)
    for r in h["rows"]:
        b.u(r[0], 6).u(r[1], 8)
        if h["vc"] == 0:
            b.s(r[2], 9).s(r[3], 9).s(r[4], 9).s(r[5], 10)
        else:
            for v in r[2:6]:
                b.s(v, 11)
            for v in r[6:10]:
                b.s(v, 8)
    if h["vc"] == 1:
        b.u(h["toa"], 13)
    b.u(h["iodp"], 2)
    if h["vc"] == 0:
        b.u(0, 1)


def message(e, rng):
    b = Bits()
    op = e["op"]
    mt = dict(mask=1, integ=6, degr=7, nav=9, deg=10, alm=17, igp=18, mixed=24,
              long=25, iono=26, serv=27, cov=28).get(op, e.get("mt"))
    b.u(rng.choice([0x53, 0x9a, 0xc6]), 8).u(mt, 6)
    if op == "mask":
        b.mask(e["slots"], 210, 1).u(e["iodp"], 2)
    elif op == "fast":
        b.u(e["iodf"], 2).u(e["iodp"], 2)
        for v in e["fc"]:
            b.s(v, 12)
        for v in e["u"]:
            b.u(v, 4)
    elif op == "integ":
        for _ in range(4):
            b.u(rng.randrange(4), 2)
        for v in e["u"]:
            b.u(v, 4)
    elif op == "degr":
        b.u(e["lat"], 4).u(e["iodp"], 2).u(rng.randrange(4), 2)
        for v in e["a"]:
            b.u(v, 4)
    elif op == "nav":
        b.u(rng.randrange(256), 8).u(e["t0"], 13).u(e["ura"], 4)
        for v, n in zip(e["v"], NAVN):
            b.s(v, n)
    elif op == "deg":
        for v, n in zip(e["v"], DEGN):
            b.u(v, n)
    elif op == "alm":
        for r in e["rows"]:
            b.u(rng.randrange(4), 2).u(r[0], 8).u(r[1], 8)
            for v, n in zip(r[2:], ALMN):
                b.s(v, n)
        b.u(e["ta"], 11)
    elif op == "igp":
        b.u(e["nb"], 4).u(e["band"], 4).u(e["iodi"], 2).mask(e["idx"], 201)
    elif op == "mixed":
        for v in e["fc"]:
            b.s(v, 12)
        for v in e["u"]:
            b.u(v, 4)
        b.u(e["iodp"], 2).u(e["blk"], 2).u(e["iodf"], 2).u(rng.randrange(16), 4)
        half(b, e["half"])
    elif op == "long":
        for h in e["halves"]:
            half(b, h)
    elif op == "iono":
        b.u(e["band"], 4).u(e["bid"], 4)
        for v, g in e["pts"]:
            b.u(v, 9).u(g, 4)
        b.u(e["iodi"], 2)
    elif op == "serv":
        v = e["v"]
        b.u(v[0], 3).u(v[1], 3).u(v[2], 3).u(v[3], 3).u(v[4], 2)
        b.u(v[5], 4).u(v[6], 4)
        for k in range(5):
            r = v[7+5*k:12+5*k]
            b.s(r[0], 8).s(r[1], 9).s(r[2], 8).s(r[3], 9).u(r[4], 1)
    elif op == "cov":
        b.u(e["iodp"], 2)
        for r in e["rows"]:
            b.u(r["p"], 6).u(r["scale"], 3)
            for k in range(10):
                if k < 4:
                    b.u(r["e"][k], 9)
                else:
                    b.s(r["e"][k], 10)
    assert b.n <= 226, (op, b.n)
    while b.n < 250:
        b.u(rng.randrange(2) if b.n >= 226 else 0, 1)
    return b.tobytes(32)


DEGN = [10, 10, 10, 9, 10, 9, 10, 10, 9, 6, 10, 9, 10, 1, 1, 7]
DEGQ = [2e-3, 2e-3, 5e-5, 1, 2e-3, 1, 5e-4, 5e-5, 1, .5, 1e-3, 1, 5e-6, 1, 1,
        .1]
NAVQ = [.08, .08, .4, 6.25e-4, 6.25e-4, 4e-3, 1.25e-5, 1.25e-5, 6.25e-5,
        2.**-31, 2.**-40]
URA = [2, 2.8, 4, 5.7, 8, 11.3, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 0]


def scale(x):
    """exponent e of a factor 2**(e-5)"""
    for k in range(8):
        if x == 2.**(k-5):
            return k
    return INEXACT


def view(d):
    lc = d.lc[0]
    long = []
    for s in d.sat_n:
        if s not in lc.iode or lc.iode[s] < 0:
            continue
        t = {gn.t2i(lc.t0[s][c]) for c in (sCType.CLOCK, sCType.ORBIT)}
        long.append([gn.unsat(s), toint(lc.iode[s])] +
                    [lsb(v, .125) for v in lc.dorb[s]] +
                    [lsb(lc.dclk[s]/C, 2.**-31)] +
                    [lsb(v, 2.**-11) for v in lc.dvel[s]] +
                    [lsb(lc.ddft[s]/C, 2.**-39)] +
                    [t.pop() if len(t) == 1 else INEXACT])
    pts = []
    for b in d.igp_idx:
        for k, j in enumerate(d.igp_idx[b]):
            v, g = d.vtec[b][k], d.givei[b][k]
            if g < 15 and not np.isnan(v):
                la, lo = d.igp_t[b][j]
                pts.append([b, j, toint(la), toint(lo), lsb(v, .125), toint(g)])
    cov = []
    for s, m in d.obad.cov.items():
        f = d.obad.scl[s]
        low = np.array_equal(m, m.T)
        cov.append([gn.unsat(s), scale(f) if low else INEXACT] +
                   [lsb(m[i, j], f*f) for i in range(4)
                    for j in range(i, 4)])
    nav = []
    if d.Seph is not None:
        q = d.Seph
        nav = [gn.unsat(q.sat), gn.t2i(q.t0), URA.index(q.sva)] + \
            [lsb(v, x) for v, x in zip(
                [*q.pos, *q.vel, *q.acc, q.af0, q.af1], NAVQ)]
    si = d.sinfo
    serv = []
    if si.iods >= 0:
        serv = [si.iods, si.nmsg, si.snum, si.nreg, si.priority, si.dUDRE_in,
                si.dUDRE_out]
        for k in range(5):
            serv += [toint(x[k]) for x in (si.lat1, si.lon1, si.lat2, si.lon2,
                                           si.shape)]
    return dict(
        iodp=toint(d.iodp), iodi=toint(d.iodi),
        iodc=(lambda a, b: a if a == b else INEXACT)(
            toint(d.iodssr_c[sCType.CLOCK]), toint(d.iodssr_c[sCType.ORBIT])),
        fast=gn.uset([[gn.unsat(s), lsb(v, .125),
                       gn.t2i(lc.t0[s][sCType.HCLOCK])]
                      for s, v in lc.hclk.items()]),
        udrei=gn.uset([[gn.unsat(s), toint(v)]
                       for s, v in d.obad.udrei.items()]),
        ai=gn.uset([[gn.unsat(s), toint(v)] for s, v in d.ai.items()]),
        long=gn.uset(long), cov=gn.uset(cov), pts=gn.uset(pts), nav=nav,
        alm=gn.uset([[gn.unsat(s), gn.t2i(a.t0), toint(a.svh)] +
                     [lsb(v, x) for v, x in zip(
                         [*a.pos, *a.vel], [2600, 2600, 26000, 10, 10, 60])]
                     for s, a in d.Alm.items()]),
        deg=[lsb(v, q) for v, q in zip(d.deg_prm, DEGQ)]
        if np.any(d.deg_prm) else [], serv=serv)


class Dut:
    def __init__(self, run):
        self.run = run
        self.d = sbasDec()

    def do(self, e):
        run, d = self.run, self.d
        if e["op"] == "chk":
            _, exc = run.call(d.check_validity, gn.i2t(e["t"]))
        elif e["op"] == "delay":
            pos = np.array([np.deg2rad(e["la"]/10), np.deg2rad(e["lo"]/10), 0.])
            r, exc = run.call(ionoSBAS, gn.i2t(e["t"]), pos, 0.3, np.pi/2, d)
            out = {} if exc else dict(delay=lsb(r[0], .125e-4, 1e-4))
            self.log(e, out, exc)
            return
        else:
            d.time = gn.i2t(e["t"])
            m = message(e, run.rng)
            _, exc = run.call(d.decode_cssr, m, 0, 0, e.get("prn", 0))
        out = {}
        if not exc:
            out, x = run.call(view, d)
            if x:
                out, exc = {}, "view:"+x
        self.log(e, out, exc)

    def log(self, e, out, exc):
        a = {k: v for k, v in e.items() if k not in ("op", "out", "exc")}
        self.run.ev(e["op"], out=out, exc=exc, **a)


def sv(rng, n):
    if rng.random() < .15:
        return rng.choice([-2**(n-1), 1-2**(n-1), 2**(n-1)-1, -1, 0, 1])
    return rng.randrange(-2**(n-1), 2**(n-1))


class Gen:
    def __init__(self, rng):
        self.rng = rng
        self.t = BASE+rng.randrange(7)*86400+rng.choice(
            [5, 86390, rng.randrange(86400), rng.randrange(86400)])
        n = rng.choice([2, 12, 14, 30, 51])
        self.masks = {}
        for k in rng.sample(range(4), 3):
            m = set(rng.sample(range(1, 33), min(n, rng.randint(1, 32))))
            if rng.random() < .6:
                m |= set(rng.sample(range(38, 62), rng.randint(1, 10)))
            if rng.random() < .6:
                m |= set(rng.sample(range(120, 159), rng.randint(1, 4)))
            if rng.random() < .25:
                m |= set(rng.sample([33, 37, 62, 80, 119, 159, 180, 210], 2))
            self.masks[k] = sorted(m)[:51]
        self.iodp = rng.choice(list(self.masks))
        self.polar = rng.random() < .3
        self.bands = rng.sample([9, 10] if self.polar else range(9),
                                2 if self.polar else rng.randint(1, 3))
        if not self.polar and rng.random() < .6:  # neighbours
            b = rng.choice([8, rng.randrange(9), rng.randrange(9)])
            self.bands = [b, (b+1) % 9]
        self.imask = {}
        self.iodi = {b: rng.randrange(4) for b in self.bands}
        self.dense = rng.choice([.4, .8, .95, .99])

    def idx(self, b, i):
        rng = self.rng
        if (b, i) not in self.imask:
            self.imask[b, i] = [k for k in range(NGP[b])
                                if rng.random() < self.dense]
        return self.imask[b, i]

    def place(self):
        rng = self.rng
        n = len(self.masks[self.iodp])
        if rng.random() < .1:
            return rng.choice([0, 0, min(63, n+1), rng.randrange(64)])
        return rng.randint(1, n)

    def half(self, iodp):
        rng = self.rng
        vc = rng.randrange(2)
        if vc == 0:
            rows = [[self.place(), rng.randrange(256), sv(rng, 9), sv(rng, 9),
                     sv(rng, 9), sv(rng, 10), 0, 0, 0, 0] for _ in range(2)]
        else:
            rows = [[self.place(), rng.randrange(256)] +
                    [sv(rng, 11) for _ in range(4)] +
                    [sv(rng, 8) for _ in range(4)]]
        toa = 0
        if vc:
            toa = rng.choice([0, 5399, rng.randrange(5400),
                              (self.t % 86400)//16])
        return dict(vc=vc, iodp=iodp, toa=toa, rows=rows)

    def event(self, what=None):
        rng = self.rng
        self.t += rng.choice([0, 1, 1, 6, 30, 100])
        t = self.t
        op = what or rng.choice(
            ["mask", "fast", "fast", "integ", "degr", "nav", "deg", "alm",
             "igp", "mixed", "mixed", "long", "long", "iono", "iono", "serv",
             "cov", "chk", "other", "delay", "delay"])
        iodp = self.iodp if rng.random() < .85 else rng.randrange(4)
        e = dict(op=op, t=t)
        if op == "mask":
            if rng.random() < .6:
                self.iodp = rng.choice(list(self.masks))
            e.update(iodp=self.iodp, slots=self.masks[self.iodp])
        elif op in ("fast", "mixed"):
            n = 13 if op == "fast" else 6
            e.update(iodp=iodp, iodf=rng.randrange(4),
                     fc=[sv(rng, 12) for _ in range(n)],
                     u=[rng.choice([14, 15, rng.randrange(16)])
                        for _ in range(n)])
            if op == "fast":
                e["mt"] = rng.randint(2, 5)
            else:
                e.update(blk=rng.randrange(4),
                         half=self.half(iodp if rng.random() < .9
                                        else rng.randrange(4)))
        elif op == "integ":
            e.update(u=[rng.randrange(16) for _ in range(51)])
        elif op == "degr":
            e.update(iodp=iodp, lat=rng.randrange(16),
                     a=[rng.randrange(16) for _ in range(51)])
        elif op == "nav":
            e.update(prn=rng.randint(120, 158), t0=rng.randrange(5400),
                     ura=rng.randrange(16), v=[sv(rng, n) for n in NAVN])
            if rng.random() < .1:
                e["prn"] = 0
        elif op == "deg":
            e.update(v=[rng.choice([2**n-1, rng.randrange(2**n)])
                        for n in DEGN])
            e["v"][0] = max(1, e["v"][0])
        elif op == "alm":
            e.update(ta=rng.randrange(1350), rows=[
                [rng.choice([0, rng.randint(120, 158)]), rng.randrange(256)] +
                [sv(rng, n) for n in ALMN] for _ in range(3)])
        elif op == "igp":
            b = rng.choice(self.bands)
            if rng.random() < .3:
                self.iodi[b] = rng.randrange(4)
            e.update(nb=len(self.bands), band=b, iodi=self.iodi[b],
                     idx=self.idx(b, self.iodi[b]))
        elif op == "long":
            e.update(halves=[self.half(iodp if rng.random() < .9 else
                                       rng.randrange(4)) for _ in range(2)])
        elif op == "iono":
            b = rng.choice(self.bands)
            i = self.iodi[b] if rng.random() < .9 else rng.randrange(4)
            e.update(band=b, iodi=i, bid=rng.randrange(14),
                     pts=[self.pt() for _ in range(15)])
        elif op == "serv":
            e.update(v=[rng.randrange(8) for _ in range(4)] +
                     [rng.randrange(4), rng.randrange(16), rng.randrange(16)])
            for _ in range(5):
                e["v"] += [sv(rng, 8), sv(rng, 9), sv(rng, 8), sv(rng, 9),
                           rng.randrange(2)]
        elif op == "cov":
            e.update(iodp=iodp, rows=[dict(
                p=self.place(), scale=rng.randrange(8),
                e=[rng.randrange(512) for _ in range(4)] +
                [sv(rng, 10) for _ in range(6)]) for _ in range(2)])
        elif op == "chk":
            self.t += rng.choice([0, 60, 121, 300])
            e["t"] = self.t
        elif op == "other":
            e["mt"] = rng.choice([0, 12, 62, 63])
        elif op == "delay":
            b = rng.choice(self.bands)
            while True:
                if self.polar:
                    la = rng.randrange(650, 750)*(1 if b == 9 else -1)
                    lo = rng.randrange(-1800, 1800)
                else:
                    la = rng.randrange(-750, 750)
                    lo = -1800+400*b+rng.randrange(400)
                    if rng.random() < .5:  # either side of a band's border
                        lo = -1800+(400*b+rng.choice(
                            [rng.randrange(100), 399-rng.randrange(100),
                             350+rng.randrange(100)])) % 3600
                    if rng.random() < .2:
                        la = rng.choice([-1, 1])*rng.randrange(500, 600)
                c = 50 if -550 <= la < 550 else 100
                x, y = lo % c, (la if c == 50 else la-50) % c
                if x and y and x != y and x+y != c:
                    break
            e.update(la=la, lo=lo)
        return e

    def pt(self):
        rng = self.rng
        return [511 if rng.random() < .03 else rng.choice(
            [510, rng.randrange(512), rng.randrange(100)]),
            15 if rng.random() < .05 else rng.randrange(15)]


def shift(e):
    e = dict(e, t=e["t"]+BASE)
    return e


def main(run):
    rng = run.rng
    run.assume = run.assumptions.append
    run.assume("the time of reception is given by the caller (dec.time)")
    run.assume("no two masks of the same issue number are in use at once")
    run.assume("pierce points below 75 deg latitude, not on the edge of a "
               "cell; bands 9/10 are not mixed with bands 0-8")
    run.model_check("Sbas_MC")
    edges = run.model_check("Sbas_MC", emit=True)
    for cfg, evs in run.paths(edges, maxlen=40,
                              budget=60 if run.quick else 1500):
        run.hist(**cfg)
        d = Dut(run)
        for e in evs:
            d.do(shift(e))
    run.validate("Sbas_Trace", label="model")
    for h in range(120 if run.quick else 2500):
        run.hist(x=0)
        d = Dut(run)
        g = Gen(rng)
        if rng.random() < .85:
            d.do(g.event("mask"))
        iono = rng.random() < .5
        for b in g.bands if iono else []:
            d.do(dict(op="igp", t=g.t, nb=1, band=b, iodi=g.iodi[b],
                      idx=g.idx(b, g.iodi[b])))
            for k in range(14):
                if rng.random() < .9:
                    d.do(dict(op="iono", t=g.t, band=b, iodi=g.iodi[b], bid=k,
                              pts=[g.pt() for _ in range(15)]))
        for _ in range(12 if iono else 0):
            d.do(g.event("delay"))
        for _ in range(rng.randint(5, 25)):
            if iono and rng.random() < .6:
                d.do(g.event(rng.choice(["iono", "delay", "delay", "igp"])))
            else:
                d.do(g.event())
    run.validate("Sbas_Trace")
