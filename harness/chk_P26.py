"""P26: pseudorange corrections of QZSS (SLAS)."""
import math
import numpy as np
import ewstab
import gn
from vlib import Bits, lsb, toint, INEXACT
from cssrlib.gnss import rCST, uGNSS, pos2ecef
from cssrlib.cssrlib import sCType

BASE = 250*604800
D2R = rCST.D2R
SYS = [(uGNSS.GPS, 64), (uGNSS.QZS, 9), (uGNSS.GLO, 36), (uGNSS.GAL, 36),
       (uGNSS.BDS, 36)]
INIT = {0: (8630, 5244), 1: (7654, 5148), 3: (7316, 5110), 5: (7280, 4282),
        6: (6942, 4008), 7: (6870, 3490), 8: (6720, 3046), 9: (6110, 3188),
        10: (5684, 2938), 11: (5230, 2538), 12: (4946, 2070),
        13: (4874, 1826), 14: (5418, 5438)}
REAL = [*range(1, 33), *range(65, 106), *range(110, 182)]


def message(e, rng):
    b = Bits()
    op = e["op"]
    mt = dict(mask=48, iod=49, corr=50, loc=47, svh=51, null=63)[op]
    b.u(rng.choice([0x53, 0x9a, 0xc6]), 8).u(mt, 6)
    if op == "mask":
        b.u(e["iodp"], 2).mask(e["slots"], 181, 1)
    elif op == "iod":
        b.u(e["iodi"], 2).mask(e["places"], 23, 1)
        for v in e["v"]:
            b.u(v, 8)
        while b.n < 223:
            b.u(rng.randrange(2), 1)
        b.u(e["iodp"], 2)
    elif op == "corr":
        b.u(e["iodp"], 2).u(e["iodi"], 2).u(e["code"], 6).u(e["h"], 1)
        b.mask(e["places"], 23, 1)
        for v in e["v"]:
            b.s(v, 12)
    elif op == "loc":
        for c, la, lo, h in e["rows"]:
            b.u(c, 6).s(la, 15).s(lo, 15).u(h, 6)
    elif op == "svh":
        b.mask(e["slots"], 181, 1)
    assert b.n <= 226, op
    while b.n < 250:
        b.u(rng.randrange(2) if b.n >= 226 or op == "null" else 0, 1)
    return b.tobytes(32)


def rows(lc, sats):
    out = []
    for s in sats:
        if lc.iode.get(s, -1) < 0:
            continue
        t = {gn.t2i(lc.t0[s][c]) for c in (sCType.CLOCK, sCType.ORBIT)}
        zero = bool(np.all(np.asarray(lc.dorb[s]) == 0))
        out.append([gn.unsat(s), toint(lc.iode[s]), lsb(lc.dclk[s], .04),
                    t.pop() if len(t) == 1 and zero else INEXACT])
    return out


def view(d):
    net, pos, svh = [], [], []
    for k, lc in enumerate(d.lc):
        if k > 0 and lc.sat_n:
            net += [[k-1]+r for r in rows(lc, lc.sat_n)]
    for c in range(len(d.posr)):
        la, lo, h = d.posr[c]
        if la or lo or h:
            pos.append([c, lsb(la/D2R, .005), lsb(lo/D2R-115, .005),
                        lsb(h+100, 50)])
    o = 0
    for s, n in SYS:
        v = d.svh.get(s, 0)
        svh += [o+k+1 for k in range(n) if v >> (n-1-k) & 1]
        if v >> n:
            svh = [INEXACT]
            break
        o += n
    return dict(iodp=toint(d.iodp), iodi=toint(d.iodi), svh=svh,
                sats=sorted({gn.unsat(s) for s in d.sat if s > 0}),
                pos=gn.uset(pos), net=gn.uset(net))


def use(d, e):
    r = pos2ecef(np.array([e["lat"]*.005, 115+e["lon"]*.005, e["hgt"]]),
                 isdeg=True)
    b = d.set_dgps_corr(r)
    d.check_validity(gn.i2t(e["t"]))
    # the rule of satellite positioning
    i = d.iodssr_c[sCType.ORBIT]
    assert i == d.iodssr_c[sCType.CLOCK]
    ok = []
    if d.iodssr >= 0 and i == d.iodssr:
        ok = d.sat_n
    elif d.iodssr_p >= 0 and i == d.iodssr_p:
        ok = [s for s in d.sat_n_p if s in d.sat_n or s in d.lc[0].iode]
    code = -1
    if d.iodp >= 0:
        code = d.inet-1
        p = d.posr[code]
        s = math.hypot(p[0]-e["lat"]*.005*D2R,
                       (p[1]-(115+e["lon"]*.005)*D2R)*math.cos(
                           e["lat"]*.005*D2R))*rCST.RE_WGS84*1e-3
        if not abs(b-s) < 1e-3*s+.5:
            code = INEXACT
    elif b != -1:
        code = INEXACT
    return dict(code=code, use=gn.uset(rows(d.lc[0], ok)))


class Dut:
    def __init__(self, run):
        from cssrlib.dgps import dgpsDec
        self.run = run
        self.d = dgpsDec(year=2024)
        self.d.monlevel = 0

    def do(self, e):
        run, d = self.run, self.d
        if e["op"] == "use":
            out, exc = run.call(use, d, dict({"hgt": 50}, **e))
        else:
            d.time = gn.i2t(e["t"])
            _, exc = run.call(d.decode_cssr, message(e, run.rng), 0)
            out = {}
            if not exc:
                out, x = run.call(view, d)
                exc = "view:"+x if x else ""
        if exc:
            out = {}
        a = {k: v for k, v in e.items() if k not in ("op", "out", "exc")}
        run.ev(e["op"], out=out, exc=exc, **a)


class Gen:
    def __init__(self, rng):
        self.rng = rng
        self.t = BASE+rng.randrange(7*86400)
        self.pos = dict(INIT)
        self.masks = {}
        for i in rng.sample(range(4), 3):
            n = rng.choice([1, 5, 12, 20, 23])
            m = rng.sample(REAL, n)
            if rng.random() < .3:
                m[0] = rng.choice([33, 64, 106, 109, 40])
            self.masks[i] = sorted(m)
        self.iodp = rng.choice(list(self.masks))
        self.iodi = rng.randrange(4)
        self.codes = rng.sample(list(INIT), 2) + [rng.choice(
            [2, 15, 31, 32, 33, 61, 62])]

    def places(self, n, full):
        rng = self.rng
        k = len(self.masks[self.iodp])
        p = list(range(1, k+1))
        if not full:
            p = sorted(rng.sample(p, rng.randint(0, k)))
        if len(p) > n:
            p = sorted(rng.sample(p, n))
        return p

    def near(self, la, lo):
        """unique nearest station, in the plane and on the sphere"""
        a = math.radians(la*.005)
        d1, d2 = [], []
        for c, (x, y) in self.pos.items():
            dl = math.radians((y-lo)*.005)
            b = math.radians(x*.005)
            d1.append((math.hypot(b-a, dl*math.cos(a)), c))
            h = math.sin((b-a)/2)**2 + \
                math.cos(a)*math.cos(b)*math.sin(dl/2)**2
            d2.append((2*math.asin(math.sqrt(h)), c))
        d1.sort()
        d2.sort()
        if d1[0][1] != d2[0][1] or d1[0][0]*1.03+.001 > d1[1][0]:
            return None
        return d1[0][1]

    def event(self, op=None):
        rng = self.rng
        self.t += rng.choice([0, 1, 1, 5, 15, 40])
        op = op or rng.choice(["mask"] + ["iod"]*2 + ["corr"]*5 + ["use"]*4 +
                              ["loc", "svh", "null"])
        iodp = self.iodp if rng.random() < .9 else rng.randrange(4)
        e = dict(op=op, t=self.t)
        if op == "mask":
            if rng.random() < .6:
                self.iodp = rng.choice(list(self.masks))
            e.update(iodp=self.iodp, slots=self.masks[self.iodp])
        elif op == "iod":
            if rng.random() < .5:
                self.iodi = rng.randrange(4)
            p = self.places(23, rng.random() < .7)
            e.update(iodp=iodp, iodi=self.iodi, places=p,
                     v=[rng.choice([0, 255, rng.randrange(256)]) for _ in p])
        elif op == "corr":
            p = self.places(14, rng.random() < .4)
            e.update(iodp=iodp, code=rng.choice(self.codes), places=p,
                     iodi=self.iodi if rng.random() < .9 else rng.randrange(4),
                     h=int(rng.random() < .12),
                     v=[rng.choice([-2047, 2046, 0, -1, 1,
                                    rng.randrange(-2000, 2000),
                                    rng.randrange(-200, 200)]) for _ in p])
        elif op == "loc":
            rw = []
            for _ in range(5):
                c = rng.choice(self.codes+[63, rng.randrange(63)])
                la, lo = rng.randint(4000, 9200), rng.randint(1400, 7800)
                if rng.random() < .1:
                    la = rng.choice([1, 16383])
                if rng.random() < .1:
                    lo = rng.choice([-16000, 0, 12000])
                rw.append([c, la, lo, rng.randrange(64)])
                if c != 63:
                    self.pos[c] = (la, lo)
            e["rows"] = rw
        elif op == "svh":
            e["slots"] = sorted(rng.sample(range(1, 182), rng.choice(
                [0, 1, 5, 60, 181])))
        elif op == "use":
            self.t += rng.choice([0, 0, 0, 10, 60, 100])
            e["t"] = self.t
            while True:
                c = rng.choice([x for x in self.codes if x in self.pos])
                w = rng.choice([5, 50, 300, 2000])
                la = self.pos[c][0]+rng.randint(-w, w)
                lo = self.pos[c][1]+rng.randint(-w, w)
                if 4000 <= la <= 9200 and 1000 <= lo <= 8000 and \
                        self.near(la, lo) is not None:
                    break
                if not 4000 <= self.pos[c][0] <= 9200 or \
                        not 1000 <= self.pos[c][1] <= 8000:
                    la, lo = rng.randint(4000, 9200), rng.randint(1400, 7800)
                    if self.near(la, lo) is not None:
                        break
            e.update(lat=la, lon=lo, hgt=rng.choice([0, 50, 3000]),
                     cosl=round(1000*math.cos(math.radians(la*.005))))
        return e


def main(run):
    rng = run.rng
    ewstab.install(run.tmp)
    run.assumptions += [
        "the time of reception is given by the caller",
        "at most 23 set slots in a mask and 14 corrections in a message",
        "the nearest station is unique by a margin of 3 %",
        "the pattern -2048 of a correction is not transmitted"]
    run.model_check("Slas_MC")
    edges = run.model_check("Slas_MC", emit=True)
    for cfg, evs in run.paths(edges, maxlen=40,
                              budget=60 if run.quick else 1500):
        run.hist(**cfg)
        d = Dut(run)
        for e in evs:
            d.do(dict(e, t=e["t"]+BASE))
    run.validate("Slas_Trace", label="model")
    for h in range(250 if run.quick else 4000):
        run.hist(x=0)
        d = Dut(run)
        g = Gen(rng)
        if rng.random() < .9:
            d.do(g.event("mask"))
        if rng.random() < .9:
            d.do(g.event("iod"))
        for _ in range(rng.randint(5, 25)):
            d.do(g.event())
    run.validate("Slas_Trace")
