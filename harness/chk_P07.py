"""P07: orbit/clock corrections applied to satellite positions."""
import numpy as np
import ewstab
import gn
from vlib import lsb, toint, NAN
from cssrlib.gnss import (Nav, Obs, Eph, Geph, gtime_t, rCST, rSigRnx, uGNSS,
                          timediff, ecef2pos)
from cssrlib.cssrlib import cssr, sCType, sCSSRTYPE
from cssrlib.cssr_has import cssr_has
from cssrlib.cssr_bds import cssr_bds
from cssrlib.cssr_pvs import cssr_pvs
from cssrlib.sbas import sbasDec
from cssrlib.dgps import dgpsDec
from cssrlib.ephemeris import satpos, satposs
from cssrlib.peph import peph

BASE = gn.W2000 + 250*604800
C = rCST.CLIGHT
KIND = dict(CSSR=cssr, HAS=cssr_has, BDS=cssr_bds, PVS=cssr_pvs,
            SBAS1=lambda: sbasDec(nf=1), SBAS5=lambda: sbasDec(nf=2),
            DGPS=dgpsDec)
SYSK = dict(CSSR="GRECJ", HAS="GE", BDS="GEC", PVS="GE", SBAS1="G",
            SBAS5="GE", DGPS="GEJ")
TTRV = 0.072


def t2g(v):
    return gtime_t(BASE+int(v), 0.0)


def mkeph(r, par):
    sat = gn.sat(r["sat"])
    if r["sat"]//1000 == 2:
        e = Geph(sat)
        e.pos = np.array(par["pos"])
        e.vel = np.array(par["vel"])
        e.taun = par["af0"]
        e.frq = par["frq"]
    else:
        e = Eph(sat)
        e.A = par["A"]
        e.e, e.i0, e.M0, e.OMG0, e.omg = par["k"]
        e.cuc = 0.0
        e.af0 = par["af0"]
        e.toc = t2g(r["toe"])
        e.toes = (BASE+r["toe"]-gn.GPS0) % 604800
        e.tgd = r["tgd"]*1e-3/C
    e.iode = r["iode"]
    e.svh = r["h"]
    e.toe = t2g(r["toe"])
    e.mode = r["mode"]
    return e


def params(rng):
    th, ph = rng.uniform(0, 2*np.pi), rng.uniform(-1, 1)
    r = 25.5e6
    pos = [r*np.cos(th)*np.cos(ph), r*np.sin(th)*np.cos(ph), r*np.sin(ph)]
    vel = [-3000*np.sin(th), 3000*np.cos(th), rng.uniform(-800, 800)]
    return dict(A=rng.uniform(26e6, 30e6), af0=rng.uniform(-3e-4, 3e-4),
                k=[rng.uniform(1e-4, 1e-2), rng.uniform(.9, 1.1),
                   rng.uniform(0, 6), rng.uniform(0, 6), rng.uniform(0, 6)],
                pos=pos, vel=vel, frq=rng.randint(-7, 6))


class Rx:
    def __init__(self, kind):
        self.kind = kind
        self.cs = KIND[kind]()
        lc = self.cs.lc[0]
        lc.iode, lc.dorb, lc.dvel, lc.dclk, lc.ddft, lc.hclk = \
            {}, {}, {}, {}, {}, {}
        lc.iodc, lc.iodc_c, lc.iodc_c_p, lc.dclk_p, lc.t0 = {}, {}, {}, {}, {}
        lc.cstat = 0
        self.cs.sat_n, self.cs.sat_n_p = [], []
        self.cs.iodssr = self.cs.iodssr_p = -1
        self.cs.mask_id = self.cs.mask_id_clk = -1
        self.nav = Nav(nf=2)
        self.nav.x = np.zeros(10)
        self.nav.x[0:3] = [-3957e3, 3310e3, 3737e3]
        self.nav.time_p = t2g(-500000)
        self.nav.sis = np.zeros(uGNSS.MAXSAT+1)
        self.nav.dsis = np.zeros(uGNSS.MAXSAT+1)
        self.nav.dorb = np.zeros(uGNSS.MAXSAT+1)
        self.nav.dclk = np.zeros(uGNSS.MAXSAT+1)
        self.nav.glo_ch = {}
        self.recs = []

    def apply(self, e):
        cs, lc, op = self.cs, self.cs.lc[0], e["op"]
        f = (lambda v: np.nan if v == NAN else v*1e-3)
        if op == "mask":
            cs.iodssr_p, cs.sat_n_p = cs.iodssr, cs.sat_n
            cs.iodssr = cs.mask_id = e["iod"]
            cs.sat_n = [gn.sat(s) for s in e["sats"]]
        elif op == "orb":
            cs.iodssr_c[sCType.ORBIT] = e["iod"]
            for s, iode, iodc, *d in e["rows"]:
                n = gn.sat(s)
                lc.iode[n], lc.iodc[n] = iode, iodc
                lc.dorb[n] = np.array([f(x) for x in d[:3]])
                lc.dvel[n] = np.array([f(x) for x in d[3:]])
                lc.t0.setdefault(n, {})[sCType.ORBIT] = t2g(e["t"])
        elif op == "clk":
            cs.iodssr_c[sCType.CLOCK] = cs.mask_id_clk = e["iod"]
            for s, iodc, v, r in e["rows"]:
                n = gn.sat(s)
                if n in lc.iodc_c and iodc != lc.iodc_c[n]:
                    lc.iodc_c_p[n] = lc.iodc_c[n]
                    lc.dclk_p[n] = lc.dclk[n]
                lc.iodc_c[n], lc.dclk[n], lc.ddft[n] = iodc, f(v), f(r)
                lc.t0.setdefault(n, {})[sCType.CLOCK] = t2g(e["t"])
        elif op == "hclk":
            lc.cstat = (1 << sCType.HCLOCK) if e["on"] else 0
            for s, v in e["rows"]:
                lc.hclk[gn.sat(s)] = f(v)

    def obs(self, sats, t):
        o = Obs()
        o.t = t2g(t)
        o.sat = np.array([gn.sat(s) for s in sats])
        o.P = np.ones((len(sats), 1))*TTRV*C
        o.sig = {gn.SYS[gn.LET[s//1000]]: {} for s in sats}
        return o

    def store(self):
        lc = self.cs.lc[0]
        rows = []
        for n, d in lc.dorb.items():
            rows.append((gn.unsat(n), "orb", toint(lc.iode[n]),
                         *[lsb(x, 1e-3, 1e-3) for x in d]))
        for n, d in lc.dclk.items():
            rows.append((gn.unsat(n), "clk", lsb(d, 1e-3, 1e-3), 0, 0, 0))
        return [list(r) for r in rows]

    def base(self, s, t, multi):
        """uncorrected position by every stored record of the satellite"""
        res = []
        for r, par in self.recs:
            if r["sat"] != s:
                continue
            nav = Nav(nf=2)
            nav.glo_ch = {}
            e = mkeph(dict(r, mode=0), par)
            (nav.geph if s//1000 == 2 else nav.eph).append(e)
            if multi:
                rs, vs, dts, _, n = satposs(self.obs([s], t), nav)
                if n == 0:
                    continue
            else:
                rs, vs, dts, _ = satpos(gn.sat(s), t2g(t), nav)
                if np.isnan(rs[0, 0]):
                    continue
            res.append((r["id"], rs[0], vs[0], dts[0]))
        return res

    def project(self, s, t, rs, dts, svh, multi):
        ok = np.all(np.isfinite(rs)) and np.any(rs != 0)
        o = dict(use=int(ok), id=0, h=toint(svh), d=[0, 0, 0], c=0)
        if not ok:
            return o
        best = None
        for i, r0, v0, d0 in self.base(s, t, multi):
            k = np.linalg.norm(rs-r0)
            if best is None or k < best[0]:
                best = (k, i, r0, v0, d0)
        if best is None:
            o["id"] = -1
            return o
        k, o["id"], r0, v0, d0 = best
        d = r0-rs
        if self.kind not in ("PVS", "SBAS1", "SBAS5"):
            c = np.cross(r0, v0)
            ec = c/np.linalg.norm(c)
            if self.kind == "BDS":
                er = r0/np.linalg.norm(r0)
                ea = np.cross(ec, er)
            else:
                ea = v0/np.linalg.norm(v0)
                er = np.cross(ea, ec)
            d = np.array([er@d, ea@d, ec@d])
        o["d"] = [lsb(x, 1e-3, 1e-2) for x in d]
        o["c"] = lsb((dts-d0)*C, 1e-3, 1e-2)
        return o

    def pos(self, run, sats, t, multi):
        if multi:
            r, exc = run.call(satposs, self.obs(sats, t), self.nav, self.cs)
            rows = [] if exc else [(r[0][k], r[2][k], r[3][k])
                                   for k in range(len(sats))]
        else:
            rows, exc = [], ""
            for s in sats:
                r, exc = run.call(satpos, gn.sat(s), t2g(t), self.nav,
                                  self.cs)
                if exc:
                    break
                rows.append((r[0][0], r[2][0], r[3][0]))
        out = {}
        if not exc:
            out = dict(r=[self.project(s, t, *x, multi)
                          for s, x in zip(sats, rows)], store=self.store())
        run.ev("pos", out=out, exc=exc, sats=sats, t=t, multi=int(multi))

    def do(self, run, e):
        if e["op"] == "add":
            par = params(run.rng)
            self.recs.append((e["r"], par))
            (self.nav.geph if e["r"]["sat"]//1000 == 2
             else self.nav.eph).append(mkeph(e["r"], par))
        else:
            self.apply(e)
        a = {k: v for k, v in e.items() if k not in ("op", "exc", "out")}
        run.ev(e["op"], out=dict(x=0), **a)


def history(run):
    rng = run.rng
    kind = rng.choice(list(KIND))
    run.hist(kind=kind)
    rx = Rx(kind)
    sats = []
    for _ in range(rng.randint(2, 5)):
        s = rng.choice(SYSK[kind])
        a, b = gn.RANGE[s]
        x = gn.sid(s, rng.randint(a, min(b, a+30)))
        if x not in sats:
            sats.append(x)
    iods = [rng.randrange(128) for _ in range(3)]
    t = rng.randrange(80000)
    t0 = t
    k = 0
    for s in sats:
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            k += 1
            m = int(rng.random() < .3)
            if rng.random() < .6:
                sy = s//1000
                m = 1 if (sy == 4 and kind in ("CSSR", "HAS", "BDS")) or \
                    (sy == 3 and kind in ("PVS", "SBAS1", "SBAS5", "DGPS")) \
                    else 0
            rx.do(run, dict(op="add", r=dict(
                id=k, sat=s, iode=rng.choice([5, 5, 5, 6, 0]), mode=m,
                toe=t0//900*900+rng.choice([0, 0, 900, 3600, -3600, 7200,
                                            -7200, 20000]),
                h=rng.choice([0, 0, 0, 1, 63]),
                tgd=rng.choice([0, rng.randint(-9000, 9000)]))))
    issue, cur = -1, []
    v = (lambda: rng.choice([0, NAN]) if rng.random() < .12
         else rng.randint(-30000, 30000))
    have = (lambda: rng.sample(sats, rng.randint(0, len(sats)))
            if rng.random() < .3 else sats)

    def mask():
        nonlocal issue, cur
        issue = rng.choice([i for i in iods if i != issue] or iods)
        cur = sorted(rng.sample(sats, rng.randint(1, len(sats)))) \
            if rng.random() < .5 else list(sats)
        rx.do(run, dict(op="mask", iod=issue, sats=cur))
    if rng.random() < .9:
        mask()
    for _ in range(rng.randint(6, 22)):
        x = rng.random()
        t += rng.choice([0, 1, 5, 30])
        if x < .09 or issue < 0:
            mask()
        elif x < .3:
            rows = [[s, rng.choice([5, 5, 5, 6, 0]), rng.choice([2, 2, 3]),
                     v(), v(), v(), *[rng.randint(-9, 9) for _ in "xyz"]]
                    for s in have() if s in cur]
            rx.do(run, dict(op="orb", iod=issue, t=t, rows=rows))
        elif x < .5:
            rows = [[s, rng.choice([2, 2, 3]), v(), rng.randint(-9, 9)]
                    for s in have() if s in cur]
            rx.do(run, dict(op="clk", iod=issue, t=t, rows=rows))
        elif x < .55 and kind not in ("BDS",):
            rx.do(run, dict(op="hclk", on=rng.randrange(2),
                            rows=[[s, v()] for s in have()]))
        else:
            tt = t+rng.choice([0, 0, 3, 60])
            q = rng.sample(sats, rng.randint(1, len(sats)))
            far = all(abs(abs(tt-r["toe"])-lim) > 2 for r, _ in rx.recs
                      for lim in (7201, 1800, 14400))
            if not far:
                tt += 7
            for _ in range(rng.choice([1, 1, 2])):
                rx.pos(run, q, tt, rng.random() < .65)


def main(run):
    rng = run.rng
    ewstab.install(run.tmp)
    run.model_check("Eph_MC")
    for cfg, evs in run.paths(run.model_check("Eph_MC", emit=True),
                              maxlen=40, budget=60 if run.quick else None):
        run.hist(**cfg)
        rx = Rx("CSSR")
        for k, s in enumerate((1003, 3007)):
            rx.do(run, dict(op="add", r=dict(id=k+1, sat=s, iode=0, mode=0,
                                             toe=0, h=0, tgd=0)))
        for e in evs:
            if e["op"] == "pos":
                rx.pos(run, e["sats"], e["t"], rng.random() < .5)
            else:
                rx.do(run, e)
    run.validate("EphA_Trace", label="mc")
    for _ in range(120 if run.quick else 2000):
        history(run)
    run.validate("EphA_Trace")
