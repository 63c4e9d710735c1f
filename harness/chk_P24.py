"""P24: ambiguity states of the PPP and RTK filters."""
import copy
import numpy as np
import gn
from vlib import lsb, toint
from cssrlib import pppssr, rtk
from cssrlib.gnss import (Nav, Obs, rSigRnx, uGNSS, uTYP, default_config,
                          gpst2time, timeadd)
from cssrlib.cssrlib import cssr, sCType, sCSSRTYPE

C = 299792458.0
POS = np.array([-3962108.673, 3381309.574, 3668678.638])
BASE = POS+np.array([900., -700., 1200.])
# signals (code, phase) and frequencies [Hz] of each system
SIG = dict(G=[("1C", 1575.42e6), ("2W", 1227.60e6), ("5Q", 1176.45e6)],
           R=[("1C", 1602e6), ("2C", 1246e6), ("3Q", 1202.025e6)],
           E=[("1C", 1575.42e6), ("5Q", 1176.45e6), ("7Q", 1207.14e6)],
           J=[("1C", 1575.42e6), ("5Q", 1176.45e6), ("2X", 1227.60e6)],
           C=[("2I", 1561.098e6), ("6I", 1268.52e6), ("7I", 1207.14e6)])
RATIO = dict(G=(77, 60), R=(9, 7), E=(154, 115), J=(154, 115), C=(763, 620))


def chan(sid):
    return sid % 1000 % 14-7


def freqs(sid, nf):
    s = gn.LET[sid//1000]
    f = [x[1] for x in SIG[s]][:nf]
    if s == "R":
        f = [v+d*chan(sid) for v, d in zip(f, (562500., 437500., 0.))]
    return np.array(f)


def azel2xyz(rr, az, el):
    lat = np.arctan2(rr[2], np.hypot(rr[0], rr[1])*(1-1/298.257)**2)
    lon = np.arctan2(rr[1], rr[0])
    e = np.array([-np.sin(lon), np.cos(lon), 0])
    u = np.array([np.cos(lat)*np.cos(lon), np.cos(lat)*np.sin(lon),
                  np.sin(lat)])
    n = np.cross(u, e)
    d = np.cos(el)*(np.sin(az)*e+np.cos(az)*n)+np.sin(el)*u
    return rr+2.4e7*d


def satposs(obs, nav, cs=None, orb=None):
    n = len(obs.sat)
    rs, vs = np.zeros((n, 3)), np.zeros((n, 3))
    for i, x in enumerate(obs.rec):
        if x["eph"]:
            rs[i] = azel2xyz(POS, np.deg2rad(x["sat"]*37 % 360),
                             np.deg2rad(x["el"]+.5))
    return (rs, vs, np.zeros(n), np.array([x["svh"] for x in obs.rec],
            dtype=int), sum(x["eph"] for x in obs.rec))


pppssr.satposs = satposs
rtk.satposs = satposs


class Dut:
    def __init__(self, run, cfg):
        self.run, self.cfg = run, cfg
        nf = cfg["nf"]
        conf = copy.deepcopy(default_config)
        conf["nav"].update(
            elmin=cfg["elmin"], elmaskar=cfg["elar"], armode=cfg["armode"],
            parmode=cfg["par"], eratio=[50.]*nf, trop_opt=1,
            iono_opt=cfg["niono"])
        nav = Nav(nf)
        nav.pmode = cfg["pmode"]
        nav.rb = BASE.copy()
        self.t = nav.t = gpst2time(2300, 345600)
        self.p = rtk.rtkpos(nav, POS, config=conf) if cfg["rtk"] else \
            pppssr.pppos(nav, POS, config=conf)
        nav.err = [0, 1e12, 1e12]      # the filter does not learn
        nav.armode = cfg["armode"]
        nav.maxout = cfg["maxout"]
        nav.monlevel = 0
        nav.excl_sat = [gn.sat(s) for s in cfg["excl"]]
        for prn in range(1, 28):
            nav.glo_ch[gn.sat(2000+prn)] = chan(2000+prn)
        self.nav = nav
        self.cs = cssr()
        self.cs.cssrmode = sCSSRTYPE.QZS_CLAS
        self.cs.lc[0].cstat |= 1 << sCType.CBIAS

    def obs(self, recs, dr):
        nf = self.cfg["nf"]
        o = Obs()
        o.t = self.t
        o.rec = recs
        n = len(recs)
        o.sat = np.array([gn.sat(x["sat"]) for x in recs], dtype=int)
        o.P, o.L, o.S, o.D = (np.zeros((n, nf)) for _ in range(4))
        o.lli = np.zeros((n, nf), dtype=int)
        for s in self.cfg["sys"]:
            o.sig[gn.SYS[s]] = {
                k: tuple(rSigRnx(s+c+x[0]) for x in SIG[s][:nf])
                for k, c in ((uTYP.C, "C"), (uTYP.L, "L"), (uTYP.S, "S"))}
        for j, x in enumerate(recs):
            fr = freqs(x["sat"], nf)
            di = x["ion"]*1e-3*(fr[0]/fr)**2
            rho = 2.4e7+x["sat"]*100.+dr
            for f, g in enumerate(x["sig"]):
                if g[0]:
                    o.P[j, f] = rho+di[f]
                if g[1]:
                    o.L[j, f] = (rho-di[f])*fr[f]/C+g[4]
                o.lli[j, f], o.S[j, f] = g[2], g[3]
        return o

    def do(self, e):
        run, nav, cfg = self.run, self.nav, self.cfg
        self.t = timeadd(self.t, e["dt"])
        o = self.obs(e["sats"], 0.)
        ob = self.obs(e["base"], -1.5e5) if cfg["rtk"] else None
        cb = {}
        for x in e["sats"]:
            if x["nb"]:
                s = gn.LET[x["sat"]//1000]
                cb[gn.sat(x["sat"])] = {rSigRnx(s+"C"+SIG[s][0][0]): np.nan}
        self.cs.lc[0].cbias = cb
        t0 = nav.t
        _, exc = run.call(self.p.process, o, None if cfg["rtk"] else self.cs,
                          None, None, ob)
        out = {}
        if not exc:
            out, x = run.call(self.view)
            if x:
                out, exc = {}, "view:"+x
            elif cfg["armode"] > 0 and nav.t is not t0:
                out["fixed"] = self.fixed()
        run.ev("epoch", out=out, exc=exc, dt=e["dt"], sats=e["sats"],
               base=e["base"])

    def view(self):
        nav, M = self.nav, uGNSS.MAXSAT
        na = nav.na
        a = nav.x[na:].reshape(nav.nf, M)
        amb = [[gn.unsat(s+1), f+1, lsb(a[f, s], 1., 1e-4)]
               for f, s in zip(*np.nonzero(a))]
        ion = []
        if nav.niono and nav.nf > 1:
            v = nav.x[na-M:na]
            ion = [[gn.unsat(s+1), lsb(v[s], 1e-3, 1e-2)]
                   for s in np.nonzero(v)[0]]
        return dict(amb=gn.uset(amb), ion=gn.uset(ion),
                    smode=toint(nav.smode))

    def fixed(self):
        """satellites whose ambiguity differences are fixed"""
        g = {}
        for s, f in zip(*np.nonzero(self.nav.fix >= 2)):
            i = gn.unsat(s+1)
            g.setdefault((i//1000, f), []).append([i, int(f)+1])
        return gn.uset([r for v in g.values() if len(v) > 1 for r in v])


class Gen:
    """satellites in view of a rover (and a base)"""

    def __init__(self, rng, cfg, calm):
        self.rng, self.cfg, self.calm = rng, cfg, calm
        pool = [gn.sid(s, p) for s in cfg["sys"] for p in (
            range(193, 198) if s == "J" else range(1, 28))]
        self.sats = rng.sample(pool, min(len(pool), rng.randint(7, 14)))
        self.el = {s: rng.choice([cfg["elar"]+rng.randint(0, 40),
                                  cfg["elar"]+rng.randint(0, 40),
                                  cfg["elmin"]+rng.randint(0, 10)])
                   for s in self.sats}
        # (a state of exactly 0 stands for "not initialised")
        self.r = {s: self.new(s, 60000) for s in self.sats}
        self.b = {s: self.new(s, 0) for s in self.sats}
        self.away = {}

    def new(self, s, o):
        rng = self.rng
        ion = rng.randint(100, 20000) if self.cfg["niono"] and \
            self.cfg["nf"] > 1 else 0
        return dict(N=[o+rng.randrange(-20000, 20000) for _ in range(3)],
                    ion=ion)

    def step(self, s, q):
        """observation of a satellite at one receiver"""
        rng, cfg = self.rng, self.cfg
        nf = cfg["nf"]
        a, b = RATIO[gn.LET[s//1000]]
        k = rng.choice([-3, -2, -1, 1, 2, 3])
        q["N"] = [q["N"][0]+k*a, q["N"][1]+k*b, q["N"][2]+5*k]
        if q["ion"]:
            q["ion"] += rng.randint(-2, 2)
        sig = [[1, 1, 0, rng.choice([0, 40, 45]), 0] for _ in range(nf)]
        z = rng.random()
        p = .06 if self.calm else .2
        f = rng.randrange(nf)
        if z < p*.25:          # slip reported by the receiver
            sig[f][2] = rng.choice([1, 1, 3, 5, 7])
            if rng.random() < .7 and f < 2:
                q["N"][f] += rng.choice([-4, -1, 1, 2, 30])
        elif z < p*.4:         # silent slip
            q["N"][rng.randrange(2)] += rng.choice([-5, -1, 1, 3, 100])
        elif z < p*.5 and q["ion"]:
            q["ion"] += rng.choice([700, 1500])
        elif z < p*.6:
            sig[f][0] = 0
        elif z < p*.7:
            sig[f][1] = 0
        elif z < p*.85:
            sig[f][3] = rng.choice([5, 14, 15, 16, 24, 25])
        elif z < p*.95:
            sig[f][2] = rng.choice([2, 4, 6])
        for f in range(nf):
            sig[f][4] = q["N"][f]
        return sig

    def rec(self, s, q, base=0):
        rng, cfg = self.rng, self.cfg
        x = dict(sat=s, eph=1, svh=0, el=self.el[s], nb=0, sig=self.step(s, q))
        x["ion"] = q["ion"]
        p = .02 if self.calm else .08
        if rng.random() < p:
            x["eph"] = 0
        elif rng.random() < p:
            x["svh"] = rng.choice([1, 2, 63])
        if not base and not cfg["rtk"] and rng.random() < self.nbp:
            x["nb"] = 1
        return x

    def epoch(self, few=False):
        rng, cfg = self.rng, self.cfg
        for s in self.sats:
            if rng.random() < .15:
                self.el[s] = max(1, min(89, self.el[s]+rng.choice(
                    [-12, -3, -1, 1, 3, 12])))
            if self.away.get(s, 0) > 0:
                self.away[s] -= 1
            elif rng.random() < (.03 if self.calm else .08):
                self.away[s] = rng.choice([1, 1, 2, 4])
        self.nbp = rng.choice([0, 0, .3])
        if hasattr(self, "nbs"):      # long loss of the biases
            if rng.random() < .15:
                del self.nbs
        elif not cfg["rtk"] and rng.random() < .35:
            self.nbs = rng.sample(self.sats, 2)
        here = [s for s in self.sats if not self.away.get(s, 0)]
        rng.shuffle(here)
        if few:
            here = here[:rng.randint(0, 6)]
        e = dict(op="epoch", dt=rng.choice([1, 1, 30]),
                 sats=[self.rec(s, self.r[s]) for s in here], base=[])
        for x in e["sats"]:
            if x["sat"] in getattr(self, "nbs", []):
                x["nb"] = 1
        if cfg["rtk"]:
            hb = [s for s in self.sats if rng.random() < .95]
            rng.shuffle(hb)
            e["base"] = [self.rec(s, self.b[s], 1) for s in hb]
        return e


def config(rng):
    nf = rng.choice([1, 2, 2, 2, 3])
    isr = rng.random() < .3
    sys = sorted(rng.sample("GRECJ", rng.randint(1, 3)))
    if sys == ["J"]:
        sys = ["G", "J"]
    return dict(nf=nf, rtk=int(isr), niono=0 if isr else int(rng.random() < .6),
                elmin=10, elar=rng.choice([10, 20, 25]),
                armode=rng.choice([0, 1, 1, 3]), par=rng.choice([1, 1, 2]),
                maxout=rng.choice([2, 2, 5]), pmode=rng.randrange(2),
                excl=[], sys=sys)


def main(run):
    rng = run.rng
    run.assumptions.append(
        "measurement noise is set so high that the filter does not change "
        "the states; satellite positions are given (satposs replaced)")
    run.model_check("Amb_MC")
    edges = run.model_check("Amb_MC", emit=True)
    for cfg, evs in run.paths(edges, maxlen=12,
                              budget=12 if run.quick else 400):
        run.hist(**cfg)
        d = Dut(run, cfg)
        for e in evs:
            d.do(e)
    run.validate("Amb_Trace", label="model")
    for h in range(110 if run.quick else 900):
        cfg = config(rng)
        g = Gen(rng, cfg, rng.random() < .6)
        if rng.random() < .3:
            cfg["excl"] = rng.sample(g.sats, 1)
        run.hist(**cfg)
        d = Dut(run, cfg)
        for _ in range(rng.randint(4, 14)):
            d.do(g.epoch(rng.random() < .08))
    run.validate("Amb_Trace")
