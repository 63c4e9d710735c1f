"""P13: DFMC SBAS (L5, QZSS TVS) and PVS corrections."""
import math
import numpy as np
import gn
from vlib import Bits, lsb, toint, INEXACT, BADTYPE
from cssrlib.gnss import rCST, uGNSS, gtime_t
from cssrlib.cssrlib import sCType
from cssrlib.sbas import sbasDec
from cssrlib.cssr_pvs import cssr_pvs, decode_sinca_line
from chk_P12 import scale

BASE = 250*604800
C = rCST.CLIGHT
PI = rCST.SC2RAD
SYS6 = [uGNSS.GPS, uGNSS.GLO, uGNSS.GAL, uGNSS.BDS, uGNSS.SBS, uGNSS.QZS]
P1 = [(PI*2.**-19*1e-4, 0), (PI*2.**-19*1e-4, 0), (7/6*PI*2.**-21*1e-6, 0),
      (PI*2.**-33, 1), (PI*2.**-33, 1), (PI*2.**-33, 1), (.02/C, 0),
      (4e-5/C, 0)]
N1 = [19, 19, 22, 34, 34, 34, 25, 16]
P2 = [(PI*2.**-33, 1), (2.**-30, 1), (.02, 1)]
N2 = [33, 30, 31]
TVS = {34: 0, 32: 2, 63: 3, 31: (1, 0x53), 37: (1, 0x9a), 47: (1, 0xc6)}


def big(x, q):
    try:
        v = float(x)/q
        r = round(v)
        if math.isnan(v) or abs(v-r) > 1e-3:
            return [INEXACT, 0]
        return [r >> 17, r & 0x1ffff]
    except Exception:
        return [BADTYPE, 0]


def vals(xs, P):
    out = []
    for x, (q, b) in zip(xs, P):
        out += big(x, q) if b else [lsb(x, q, 1e-4)]
    return out


def pairs(v, P):
    """inverse of vals on the recorded integers"""
    out, k = [], 0
    for _, b in P:
        out.append((v[k] << 17) + v[k+1] if b else v[k])
        k += 2 if b else 1
    return out


def cov(b, e):
    b.u(e["scale"], 3)
    for k in range(10):
        if k < 4:
            b.u(e["e"][k], 9)
        else:
            b.s(e["e"][k], 10)
    b.u(e["dfrei"], 4).u(e["rc"], 4)


def message(e, rng, tvs=False):
    b = Bits()
    op = e["op"]
    mt = dict(mask=31, corr=32, int34=34, obad=37, eph1=39, eph2=40,
              alm=47).get(op, e.get("mt"))
    if tvs:
        c = TVS[mt]
        if isinstance(c, tuple):
            b.u(c[1], 8).u(c[0], 2)
        else:
            b.u(rng.choice([0x53, 0x9a, 0xc6]), 8).u(c, 2)
    else:
        b.u(rng.choice([5, 12, 9]), 4).u(mt, 6)
    if op == "mask":
        b.mask(e["slots"], 214, 1).u(e["iodm"], 2)
    elif op == "corr":
        v = e["v"]
        b.u(e["slot"], 8).u(e["iodn"], 10).s(v[0], 11).s(v[1], 11)
        b.s(v[2], 11).s(v[3], 12).s(v[4], 8).s(v[5], 8).s(v[6], 8)
        b.s(v[7], 9).u(e["t0"], 13)
        cov(b, e)
    elif op == "int34":
        for v in e["ci"]:
            b.u(v, 2)
        for v in e["di"]:
            b.u(v, 4)
        b.u(rng.randrange(4), 2).u(e["iodm"], 2)
    elif op == "int35":
        for v in e["d"]:
            b.u(v, 4)
        b.pad(224).u(e["iodm"], 2)
    elif op == "obad":
        for v, n in zip(e["h"], (6, 6, 6, 7)):
            b.u(v, n)
        for k, v in enumerate(e["r"]):
            b.u(v, 8 if k % 3 else 5)
        for v in e["tb"]:
            b.u(v, 4)
        b.u(e["tid"], 3)
    elif op == "eph1":
        b.u(e["sd"], 6).u(e["iodg"], 2).u(rng.randrange(32), 5)
        for v, n in zip(pairs(e["v"], P1), N1):
            b.s(v, n)
    elif op == "eph2":
        b.u(e["iodg"], 2)
        for v, n in zip(pairs(e["v"], P2), N2):
            b.u(v, n)
        b.u(e["te"], 13)
        cov(b, e)
    elif op == "alm":
        for r in e["rows"]:
            b.u(r[0], 6).u(rng.randrange(32), 5).u(0, 1)
            b.u(r[1], 16).u(r[2], 8).u(r[3], 13).s(r[4], 14).s(r[5], 14)
            b.s(r[6], 8).s(r[7], 15).u(r[8], 6)
    assert b.n <= 226, (op, b.n)
    while b.n < 250:
        b.u(rng.randrange(2) if b.n >= 226 else 0, 1)
    return b.tobytes(32)


def view(d, k):
    lc = d.lc[0]
    rows = []
    for s in lc.iode:
        if lc.iode[s] < 0:
            continue
        t = {gn.t2i(lc.t0[s][c]) for c in (sCType.CLOCK, sCType.ORBIT)}
        rows.append([gn.unsat(s), toint(lc.iode[s])] +
                    [lsb(v, .0625) for v in lc.dorb[s]] +
                    [lsb(lc.dclk[s], .03125)] +
                    [lsb(v, 2.**-11) for v in lc.dvel[s]] +
                    [lsb(lc.ddft[s], 2.**-12)] +
                    [t.pop() if len(t) == 1 else INEXACT])
    c = [toint(d.iodssr_c[x]) for x in (sCType.CLOCK, sCType.ORBIT)]
    out = dict(iod=toint(d.iodssr), sats=sorted({gn.unsat(s) for s in d.sat_n}),
               iodc=c[0] if c[0] == c[1] else INEXACT, corr=gn.uset(rows))
    if k == "PVS":
        return out
    o = d.obad
    cv = []
    for s, m in o.cov.items():
        f = o.scl[s]
        cv.append([gn.unsat(s), lsb(o.dRcorr[s], 1/15), scale(f)
                   if np.array_equal(m, m.T) else INEXACT] +
                  [lsb(m[i, j], f*f) for i in range(4) for j in range(i, 4)])
    eph, eph2 = [], []
    q = d.Eph
    if q is not None:
        eph = [gn.unsat(q.sat)] + vals(
            [q.cuc, q.cus, q.idot, q.omg, q.OMG0, q.M0, q.af0, q.af1], P1)
        if isinstance(q.toe, gtime_t) and q.toe.time != 0:
            t = gn.t2i(q.toe)
            eph2 = vals([q.i0, q.e, q.A], P2) + \
                [t if gn.t2i(q.toc) == t else INEXACT]
    ob = []
    if o.Icorr:
        ob = [lsb(o.dt_mt32, 6), lsb(o.dt_mt39, 6), lsb(o.Cer, .5),
              lsb(o.Ccov, .1)]
        for s in SYS6:
            ob += [lsb(o.Icorr[s], 6), lsb(o.Ccorr[s], .01),
                   lsb(o.Rcorr[s], .2)]
        ob += [lsb(v, 1/16) for v in o.dfrei_tbl[:15]] + [toint(o.tid)]
    out.update(
        piod=toint(d.iodssr_p), psats=sorted({gn.unsat(s)
                                              for s in d.sat_n_p}),
        dfrei=gn.uset([[gn.unsat(s), toint(v)] for s, v in o.dfrei.items()]),
        cov=gn.uset(cv), eph=eph, eph2=eph2, obad=ob,
        alm=gn.uset([[gn.unsat(s), gn.t2i(a.toa), lsb(a.A, 650),
                      lsb(a.e, 2.**-8), lsb(a.i0, PI*2.**-13),
                      lsb(a.omg, PI*2.**-13), lsb(a.OMG0, PI*2.**-13),
                      lsb(a.OMGd, 1e-9), lsb(a.M0, PI*2.**-14)]
                     for s, a in d.Alm.items()]))
    return out


class Dut:
    def __init__(self, run, k, tvs=False):
        self.run, self.k, self.tvs = run, k, tvs
        self.d = cssr_pvs() if k == "PVS" else sbasDec(nf=2)

    def do(self, e):
        run, d = self.run, self.d
        out = {}
        if e["op"] == "sinca":
            r, exc = run.call(decode_sinca_line, e["line"])
            if not exc:
                out = dict(txt=[int(c, 16) for c in r[1].hex()],
                           T=gn.t2i(r[0]))
        else:
            if e["op"] == "chk":
                _, exc = run.call(d.check_validity, gn.i2t(e["t"]))
            elif self.k == "PVS":
                d.set_time(gn.i2t(e["t"]))
                _, exc = run.call(d.decode_cssr, message(e, run.rng))
            else:
                d.time = gn.i2t(e["t"])
                _, exc = run.call(d.decode_cssr,
                                  message(e, run.rng, self.tvs), 0, 1,
                                  185 if self.tvs else 130)
            if not exc:
                out, x = run.call(view, d, self.k)
                if x:
                    out, exc = {}, "view:"+x
        a = {k: v for k, v in e.items() if k not in ("op", "out", "exc")}
        run.ev(e["op"], out=out, exc=exc, **a)


def sv(rng, n):
    """without the patterns at the ends of the range"""
    if rng.random() < .15:
        return rng.choice([1-2**(n-1), 2**(n-1)-2, -1, 0, 1])
    return rng.randrange(1-2**(n-1), 2**(n-1)-1)


class Gen:
    def __init__(self, rng, k, tvs):
        self.rng, self.k, self.tvs = rng, k, tvs
        self.t = BASE+rng.randrange(7)*86400+rng.choice(
            [5, 86390, rng.randrange(86400), rng.randrange(86400)])
        u = [*range(1, 33), *range(38, 70), *range(75, 111), *range(120, 159),
             *range(159, 196), *range(197, 206)]
        n = rng.choice([2, 10, 53, 60, 92])
        self.masks = {i: sorted(rng.sample(u, n))
                      for i in rng.sample(range(4), 3)}
        self.iodm = rng.choice(list(self.masks))
        self.iodg = rng.randrange(4)
        self.ops = ["mask", "corr", "corr", "corr", "int34", "int34"]
        if not tvs:
            self.ops += ["int35", "eph1", "eph2", "other", "chk"]
        self.ops += ["obad", "alm"]
        if k == "PVS":
            self.ops = ["corr", "corr", "corr", "chk", "other", "sinca"]

    def cov(self):
        rng = self.rng
        return dict(scale=rng.randrange(8), dfrei=rng.choice(
                    [15, 14, rng.randrange(16)]), rc=rng.randrange(16),
                    e=[rng.randrange(512) for _ in range(4)] +
                    [rng.randrange(-512, 512) for _ in range(6)])

    def event(self, what=None):
        rng = self.rng
        self.t += rng.choice([0, 1, 1, 6, 30, 100])
        t = self.t
        op = what or rng.choice(self.ops)
        iodm = self.iodm if rng.random() < .85 else rng.randrange(4)
        e = dict(op=op, t=t)
        if op == "mask":
            if rng.random() < .6:
                self.iodm = rng.choice(list(self.masks))
            e.update(iodm=self.iodm, slots=self.masks[self.iodm])
        elif op == "corr":
            t0 = rng.choice([(t % 86400)//16, (t % 86400+40)//16 % 5400,
                             (t % 86400-40)//16 % 5400, rng.randrange(5400),
                             0, 5399])
            if self.k == "PVS" and rng.random() < .8:
                t0 |= 1
            slot = rng.choice(self.masks[self.iodm]) if rng.random() < .8 \
                else rng.choice([0, 33, 37, 70, 74, 111, 119, 196, 206, 255,
                                 rng.randrange(256)])
            e.update(slot=slot, iodn=rng.randrange(1024), t0=t0,
                     v=[sv(rng, n) for n in (11, 11, 11, 12, 8, 8, 8, 9)],
                     **self.cov())
        elif op == "int34":
            w = rng.choice([[0, 1, 2, 3], [0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 2, 3],
                            [0, 2, 2]])
            e.update(iodm=iodm, ci=[rng.choice(w) for _ in range(92)],
                     di=[rng.randrange(16) for _ in range(7)])
        elif op == "int35":
            mt = rng.choice([35, 36])
            e.update(mt=mt, iodm=iodm, d=[rng.choice([0, 14, 15,
                                                      rng.randrange(16)])
                                          for _ in range(53 if mt == 35
                                                         else 39)])
        elif op == "obad":
            e.update(h=[rng.randrange(2**n) for n in (6, 6, 6, 7)],
                     r=[rng.randrange(256 if k % 3 else 32)
                        for k in range(18)],
                     tb=[rng.randrange(16) for _ in range(15)],
                     tid=rng.randrange(8))
        elif op == "eph1":
            if rng.random() < .5:
                self.iodg = rng.randrange(4)
            v = []
            for n, (_, b) in zip(N1, P1):
                x = sv(rng, n)
                v += [x >> 17, x & 0x1ffff] if b else [x]
            e.update(sd=rng.randint(1, 39), iodg=self.iodg, v=v)
        elif op == "eph2":
            v = []
            for n in N2:
                x = rng.choice([0, 2**n-1, rng.randrange(2**n),
                                rng.randrange(2**n)])
                v += [x >> 17, x & 0x1ffff]
            e.update(iodg=self.iodg if rng.random() < .8 else rng.randrange(4),
                     v=v, te=rng.randrange(5400), **self.cov())
        elif op == "alm":
            e.update(rows=[[rng.choice([0, rng.randint(1, 39)]),
                            rng.randrange(65536), rng.randrange(256),
                            rng.randrange(8192), rng.randrange(-8192, 8192),
                            rng.randrange(-8192, 8192),
                            rng.randrange(-128, 128),
                            rng.randrange(-16384, 16384), rng.randrange(48)]
                           for _ in range(2)])
        elif op == "chk":
            self.t += rng.choice([0, 60, 121, 300])
            e["t"] = self.t
        elif op == "other":
            e["mt"] = rng.choice([42, 62, 63])
        elif op == "sinca":
            it, n = [], 0
            while n < 64:
                c = rng.choice([0, 15, rng.randrange(16)])
                m = rng.choice([1, 1, 1, 3, 4, rng.randint(2, 15),
                                rng.randint(16, 30)])
                m = min(m, 64-n)
                it.append([c, m])
                n += m
            w, s = divmod(t+gn.W2000-gn.GPS0, 604800)
            tx = ""
            for c, m in it:
                h = "%X" % c
                tx += h*m if m < 3 else f"{h}|{m:X}" if m < 16 \
                    else f"{h}/{m:02X}"
            e.update(items=it, line=f"*MSG,{w},{s},{tx}*" +
                     "%04X" % rng.randrange(65536))
        return e


def main(run):
    rng = run.rng
    run.assume = run.assumptions.append
    run.assume("the time of reception is given by the caller")
    run.assume("reserved slots of the mask are not set")
    run.assume("the bit patterns at both ends of a signed field (one of them "
               "marks a missing value) are not transmitted")
    run.assume("parameters of types 37 and 47: fields as in the code's reading "
               "of the interface (no offset of validity intervals)")
    run.model_check("Dfmc_MC")
    edges = run.model_check("Dfmc_MC", emit=True)
    for cfg, evs in run.paths(edges, maxlen=40,
                              budget=60 if run.quick else 1500):
        run.hist(**cfg)
        d = Dut(run, cfg["k"])
        for e in evs:
            d.do(dict(e, t=e["t"]+BASE))
    run.validate("Dfmc_Trace", label="model")
    for h in range(160 if run.quick else 3500):
        k = rng.choice(["L5", "L5", "L5", "PVS"])
        tvs = k == "L5" and rng.random() < .2
        run.hist(k=k)
        d = Dut(run, k, tvs)
        g = Gen(rng, k, tvs)
        if k == "L5" and rng.random() < .85:
            d.do(g.event("mask"))
        for _ in range(rng.randint(5, 25)):
            d.do(g.event())
    run.validate("Dfmc_Trace")
