"""P30: standalone and differential positioning."""
import numpy as np
import gn
from chk_P29 import (C, SIG, U, Orbit, cap, chan, enu, freq, geom, llh,
                     mapping, place, unit, xyz, zenith)
from vlib import toint
from cssrlib import pntpos
from cssrlib.cssrlib import sCSSRTYPE as sc
from cssrlib.ephemeris import satposs
from cssrlib.gnss import (Eph, Geph, Nav, Obs, rSigRnx, uGNSS, uIonoModel,
                          uTropoModel, uTYP, gpst2time, timeadd)
import datetime

MM = 1e-3


class Orb(Orbit):
    svh = {}

    def __call__(self, obs, nav, cs=None, orb=None):
        rs, vs, dts, h, n = super().__call__(obs, nav, cs, orb)
        for i, s in enumerate(obs.sat):
            h[i] = self.svh.get(int(s), 0)
        return rs, vs, dts, h, n


orbit = Orb()


def azel(rs, rr):
    _, d = geom(rs, rr)
    d = -unit(rr-rs)
    e, n, u = enu(llh(rr))
    return np.arctan2(d@e, d@n), np.arcsin(d@u)


def klob(tow, pos, az, el, ion):
    """broadcast model of the ionosphere, delay at L1"""
    E, A = el/np.pi, az
    psi = .0137/(E+.11)-.022
    ph = pos[0]/np.pi+psi*np.cos(A)
    ph = min(max(ph, -.416), .416)
    la = pos[1]/np.pi+psi*np.sin(A)/np.cos(ph*np.pi)
    pm = ph+.064*np.cos((la-1.617)*np.pi)
    lt = (43200*la+tow) % 86400
    F = 1+16*(.53-E)**3
    a = max(sum(c*pm**k for k, c in enumerate(ion[0])), 0)
    p = max(sum(c*pm**k for k, c in enumerate(ion[1])), 72000)
    x = 2*np.pi*(lt-50400)/p
    v = 5e-9+(a*(1-x*x/2+x**4/24) if abs(x) < 1.57 else 0)
    return C*F*v, abs(abs(x)-1.57) < 1e-6


class Ref:
    """corrections of a reference station"""
    cssrmode = sc.DGPS
    iodi = -1

    def __init__(self, posr, inet):
        self.posr, self.inet = posr, inet

    def set_dgps_corr(self, pos):
        return 20.


class Sbas:
    cssrmode = sc.STDPOS
    iodi = 0


class Dut:
    def __init__(self, run, rng, cfg):
        self.run, self.rng, self.cfg = run, rng, cfg
        nav = self.nav = Nav(cfg["nf"])
        nav.pmode = cfg["pmode"]
        nav.ephopt = 2
        self.rr = xyz(np.deg2rad(cfg["lat"]), np.deg2rad(cfg["lon"]),
                      cfg["hgt"])
        self.t0 = nav.t = gpst2time(cfg["week"], cfg["tow"])
        st = self.rr+(np.array([7., -5., 6.]) if cfg["start"] else 0.)
        self.p = pntpos.stdpos(nav, st, trop_opt=cfg["trop"],
                               iono_opt=cfg["iono"], csmooth=bool(
                                   cfg["smooth"]), rmode=cfg["rmode"])
        nav.trpModel = dict(SAAST=uTropoModel.SAAST, SBAS=uTropoModel.SBAS,
                            HOPF=uTropoModel.HOPF)[cfg["model"]]
        if cfg["ionm"]:
            nav.ionoModel = uIonoModel.SBAS
        nav.ion = np.array(self.ion())
        for s in range(2001, 2028):
            nav.glo_ch[gn.sat(s)] = chan(s)
        self.cs = None
        if cfg["dg"]:
            k = rng.randint(1, 3)
            self.posr = np.array([np.deg2rad(cfg["lat"]+rng.uniform(-1, 1)),
                                  np.deg2rad(cfg["lon"]+rng.uniform(-1, 1)),
                                  cfg["hgt"]+rng.uniform(-40, 900)])
            q = np.array([self.posr+[i-k, 0, 0] for i in range(1, 5)])
            self.cs = Ref(q, k)
        pntpos.satposs = orbit
        pntpos.ionoSBAS = self.grid
        self.ms = 0

    def ion(self):
        r = self.rng
        return [[r.uniform(-1, 2)*1e-8, r.uniform(-2, 2)*1e-8,
                 r.uniform(-6, 6)*1e-8, r.uniform(-6, 6)*1e-8],
                [r.uniform(.8, 1.5)*1e5, r.uniform(-1, 1)*1e5,
                 r.uniform(-1, 1)*1e5, r.uniform(-1, 1)*1e5]]

    def grid(self, t, pos, az, el, cs):
        """stands for the grid of SBAS"""
        return self.g[round(el*1e5)], .1

    def doy(self):
        t = datetime.datetime(1980, 1, 6)+datetime.timedelta(
            days=7*self.cfg["week"], seconds=self.cfg["tow"]+self.ms*1e-3)
        return (t-datetime.datetime(t.year, 1, 1)).total_seconds()/86400+1

    def delays(self, s, rr):
        """elevation, tropospheric delays here and there, ionospheric"""
        cfg = self.cfg
        rs = orbit.rs[gn.sat(s)][0]
        pos, doy = llh(rr), self.doy()
        az, el = azel(rs, rr)
        z, m = zenith(cfg["model"], doy, pos), mapping(cfg["model"], doy, pos,
                                                       el)
        trop, trb = np.dot(z, m), 0.
        if cfg["dg"]:
            b = self.posr
            _, eb = azel(rs, xyz(*b))
            trb = np.dot(zenith(cfg["model"], doy, b),
                         mapping(cfg["model"], doy, b, eb))
        tow = cfg["tow"]+self.ms*1e-3
        io, near = klob(tow, pos, az, el, self.nav.ion)
        if cfg["ionm"] == 2:
            v = self.g.setdefault(round(el*1e5), self.rng.choice(
                [0., self.rng.uniform(.5, 20)]))
            io = v or io
        return el, trop, trb, io, near

    def obs(self, rows, rr, clk):
        cfg = self.cfg
        o = Obs()
        o.t = timeadd(self.t0, self.ms*1e-3)
        o.sat = np.array([gn.sat(a["sat"]) for a in rows], dtype=int)
        n, nf = len(o.sat), cfg["nf"]
        o.P, o.L, o.S, o.D = (np.zeros((n, nf)) for _ in range(4))
        o.S[:] = 45.
        o.lli = np.zeros((n, nf), dtype=int)
        for y in cfg["sys"]:
            o.sig[gn.SYS[y]] = {
                k: tuple(rSigRnx(y+c+x) for x in cfg["sigs"][y])
                for k, c in ((uTYP.C, "C"), (uTYP.L, "L"), (uTYP.S, "S"))}
        for i, a in enumerate(rows):
            rs, vs, dts = orbit.rs[int(o.sat[i])]
            d = rs-rr
            r = np.sqrt(d@d)+7.2921151467e-5/C*(rs[0]*rr[1]-rs[1]*rr[0]) \
                - C*dts+clk
            y = gn.LET[a["sat"]//1000]
            for f in range(nf):
                o.P[i, f] = r+a["p%d" % (f+1)]*MM
                o.L[i, f] = (r+a["l%d" % (f+1)]*MM)/C*freq(
                    a["sat"], cfg["sigs"][y][f][0])
        return o

    def sight(self, sky):
        orbit.rs, orbit.svh, self.g = {}, {}, {}
        for s, (az, el) in sky.items():
            for _ in range(40):
                rs = place(self.rr, az, el, 4.2164e7 if s//1000 == 5
                           else 2.6e7)
                a, e = azel(rs, self.rr)
                if abs(np.rad2deg(e)-10) > .02 and not klob(
                        self.cfg["tow"]+self.ms*1e-3, llh(self.rr), a, e,
                        self.nav.ion)[1]:
                    break
                el += 1e-3
            orbit.rs[gn.sat(s)] = (rs, unit(np.cross([.3, .5, 1.], rs))*3e3,
                                   self.rng.uniform(-1e-3, 1e-3))

    # ---------------------------------------------------------------- events
    def zd(self, e, sky):
        run, nav = self.run, self.nav
        self.ms = e["t"]
        self.sight(sky)
        clk = self.rng.uniform(-3e5, 3e5)
        for a in e["sats"]:
            el, tr, trb, io, _ = self.delays(a["sat"], self.rr)
            a.update(el=int(np.floor(np.rad2deg(el)*10)),
                     trop=int(round(tr/MM)), tropb=int(round(trb/MM)),
                     io=int(round(io/MM)))
        nav.edt[:] = 0
        for a in e["sats"]:
            if a["edt"]:
                nav.edt[gn.sat(a["sat"])-1, self.rng.randrange(
                    nav.edt.shape[1])] = 1
        o = self.obs(e["sats"], self.rr, clk)
        q = [np.array([orbit.rs[int(s)][k] for s in o.sat]) for k in range(3)]
        x = np.zeros(nav.nx)
        x[:3] = self.rr
        x[6 if nav.pmode else 3] = clk
        cs = self.cs
        if self.cfg["ionm"]:
            cs = Sbas()
            cs.iodi = 0 if self.cfg["ionm"] == 2 else -1
        r, exc = run.call(self.p.zdres, o, cs, None, q[0], q[1], q[2], x)
        out = {}
        if not exc:
            y = r[0]
            out = dict(y=[[a["sat"], toint(round(y[i, 0]*1e5))]
                          for i, a in enumerate(e["sats"])
                          if np.any(y[i] != 0)])
        run.ev("zd", **e, out=out, exc=exc[:200])

    def sm(self, e):
        o = Obs()
        o.t = timeadd(self.t0, e["t"]*1e-3)
        k = {} if e["ns"] == 100 and self.rng.random() < .5 else \
            dict(ns=e["ns"])
        r, exc = self.run.call(self.p.csmooth, o, gn.sat(e["sat"]),
                               e["p"]*MM, e["l"]*MM, **k)
        self.run.ev("sm", **e, exc=exc[:200],
                    out={} if exc else dict(v=toint(round(r*1e5))))

    def lin(self, sats, sky):
        run, nav, rng = self.run, self.nav, self.rng
        self.sight(sky)
        nav.edt[:] = 0
        rows = [dict(sat=s, **{k+str(f): rng.randint(100000, 150000)
                               for k in "pl" for f in (1, 2)}) for s in sats]
        x = nav.x.copy()
        x[:3] = self.rr+[rng.uniform(-.1, .1) for _ in range(3)]
        o = self.obs(rows, self.rr, 3.)
        q = [np.array([orbit.rs[int(s)][k] for s in o.sat]) for k in range(3)]
        for s, _ in sky.items():
            self.delays(s, x[:3])
        nav.baseline = 20.
        nav.smode = 2 if self.cfg["dg"] else 1

        def model(x):
            y, e, az, el = self.p.zdres(o, self.cs, None, q[0], q[1], q[2], x)
            return self.p.sdres(o, x, y, e, o.sat, el)+(el,)
        r, exc = run.call(model, x)
        out = {}
        if not exc:
            v, H, R, el = r
            d = np.array([rng.uniform(-.1, .1) for _ in x])
            bad = np.max(np.abs(model(x+d)[0]-v+H@d), initial=0)
            want = []
            for s in sats:
                t = azel(orbit.rs[gn.sat(s)][0], x[:3])[1]
                if nav.smode == 1:
                    want.append((.5**2+(.25/np.sin(t))**2))
                else:
                    h = llh(nav.x[:3])[2]
                    dg = np.rad2deg(t)
                    f = 1/np.sqrt(1-(6378137.*np.cos(t)/(6378137.+h))**2)
                    want.append((.16+1.07*np.exp(-dg/15.5))**2+.08**2+.11**2
                                + (.13+.53*np.exp(-dg/10))**2
                                + (f*.004*(20+14.))**2)
            ok = R.shape == (len(sats),)*2 and np.allclose(
                R, np.diag(np.diag(R))) and np.allclose(
                    sorted(np.diag(R)), sorted(want), rtol=1e-5)
            out = dict(lin=cap(bad)//10, rows=len(v), cov=int(ok))
        run.ev("lin", list=list(sats), out=out, exc=exc[:200])

    def epo(self, sats, sky, low, sick, clk, pos):
        """sats usable; low, sick not"""
        run, nav, rng = self.run, self.nav, self.rng
        rr0, self.rr = self.rr, pos
        self.sight(sky)
        rows = []
        for s in sats+low+sick:
            el, tr, trb, io, _ = self.delays(s, pos)
            tr = tr if self.cfg["trop"] == 0 else tr-trb \
                if self.cfg["dg"] else 0.
            a = dict(sat=s)
            for f in range(self.cfg["nf"]):
                b = self.cfg["sigs"][gn.LET[s//1000]][f][0]
                g = (1575.42e6/freq(s, b))**2*io if self.cfg["iono"] == 0 \
                    or self.cfg["rmode"] else 0.
                w = 0. if s in sats else rng.choice([-1, 1])*1e6
                a["p%d" % (f+1)] = (tr+g)/MM+w
                a["l%d" % (f+1)] = (tr-g)/MM+w+7000*f
            rows.append(a)
        orbit.svh = {gn.sat(s): rng.choice([1, 2, 32]) for s in sick}
        rng.shuffle(rows)
        o = self.obs(rows, pos, clk)
        self.rr = rr0
        x0 = nav.x.copy()
        self.p.dop = None
        _, exc = run.call(self.p.process, o, self.cs)
        out = {}
        if not exc:
            dop = 0
            if len(sats) > 3:
                H = []
                for s in sats:
                    az, el = azel(orbit.rs[gn.sat(s)][0], pos)
                    H.append([np.sin(az)*np.cos(el), np.cos(az)*np.cos(el),
                              np.sin(el), 1.])
                H = np.array(H)
                Q = np.diag(np.linalg.inv(H.T@H))
                w = np.sqrt([Q.sum(), Q[:3].sum(), Q[:2].sum(), Q[2]])
                dop = 999999 if self.p.dop is None else toint(round(
                    1e3*np.max(np.abs(np.array(self.p.dop)-w)/w)))
            out = dict(smode=toint(nav.smode),
                       pe=cap(np.linalg.norm(nav.x[:3]-pos)),
                       ce=cap(abs(nav.x[6 if nav.pmode else 3]-clk)),
                       dop=dop, moved=int(np.any(nav.x[:3] != x0[:3])))
        run.ev("epo", nv=len(sats), out=out, exc=exc[:200])

    def ud(self):
        """ propagation of the states """
        run, nav, rng = self.run, self.nav, self.rng
        n = 8 if nav.pmode else 4
        x = [rng.randint(-500, 500) for _ in range(n)]
        A = [[0]*n for _ in range(n)]
        for i in range(n):
            for j in range(i, n):
                A[i][j] = A[j][i] = rng.randint(20, 40) if i == j \
                    else rng.randint(-9, 9)
        dt = rng.choice([0, 1, 1, 2, 3])
        nav.x[:n] = x
        nav.P[:n, :n] = A
        q = [toint(round(1e6*(v or 0)**2)) for v in
             (nav.sig_qp, nav.sig_qv, nav.sig_qcb, nav.sig_qcd)]
        o = self.obs([], self.rr, 0.)
        o.t = timeadd(nav.t, dt)
        _, exc = run.call(self.p.udstate, o)
        out = {}
        if not exc:
            out = dict(x=[toint(v) for v in nav.x[:n]],
                       P=[[toint(round(1e6*v)) for v in r]
                          for r in nav.P[:n, :n]])
        run.ev("ud", dt=dt, x=x, P=A, q=q, out=out, exc=exc[:200])

    def tgd(self, sats, how):
        run, nav, rng = self.run, self.nav, self.rng
        rows, nav.eph, nav.geph = [], [], []
        o = self.obs([], self.rr, 0.)
        for s in sats:
            g = rng.randint(-250, 250) or 1
            rows.append([s, g])
            if s//1000 == 2:
                e = Geph(gn.sat(s))
                e.pos = place(self.rr, rng.uniform(0, 6), rng.uniform(.3, 1.5),
                              2.55e7)
                e.vel = unit(np.cross([.3, .5, 1.], e.pos))*3e3
                e.taun = rng.uniform(-3e-4, 3e-4)
                e.frq = chan(s)
                nav.geph.append(e)
            else:
                e = Eph(gn.sat(s))
                e.cuc = 0.0
                e.A = rng.uniform(26e6, 30e6)
                e.e, e.i0, e.M0, e.OMG0, e.omg = [
                    rng.uniform(.001, 1) if k else rng.uniform(.001, .01)
                    for k in range(5)]
                e.af0 = rng.uniform(-3e-4, 3e-4)
                e.toc = o.t
                e.toes = self.cfg["tow"]
                e.tgd = g*1e-10
                nav.eph.append(e)
            e.iode, e.svh, e.toe, e.mode = 5, 0, o.t, 0
        for s in sats:
            orbit.rs[gn.sat(s)] = (place(self.rr, 1., 1., 2.6e7), 0., 0.)
        o = self.obs([dict(sat=s, p1=0, p2=0, l1=0, l2=0) for s in sats],
                     self.rr, 0.)
        got = []

        def record(*a, **k):
            r = satposs(*a, **k)
            got[:] = [r[2].copy()]
            return r
        old = nav.smode
        nav.smode = 0
        base = satposs(o, nav)[2]
        nav.smode = old
        if how == "direct":
            nav.smode = 1
            r, exc = run.call(record, o, nav)
        else:
            pntpos.satposs = record
            if how == "later":          # as left by other epochs
                nav.smode = rng.choice([0, 1, 2, 5])
            r, exc = run.call(self.p.process, o)
            pntpos.satposs = orbit
        out = {}
        if not exc:
            out = dict(rows=[[s, toint(round(1e10*(got[0][i]-base[i])))]
                             for i, s in enumerate(sats)] if got else [])
        run.ev("tgd", rows=rows, out=out, exc=exc[:200])


def dop(q):
    H = np.array([[np.sin(a)*np.cos(e), np.cos(a)*np.cos(e), np.sin(e), 1.]
                  for a, e in q])
    return np.sqrt(np.trace(np.linalg.inv(H.T@H)))


def config(rng, **kw):
    rmode = kw.get("rmode", rng.choice([0, 0, 1, 2]))
    pool = {0: "GRECJ", 1: "GJ", 2: "GJE"}[rmode]
    sys = sorted(rng.sample(pool, rng.randint(1, len(pool))))
    sigs = {}
    nf = 2 if rmode else rng.choice([1, 1, 2])
    for y in sys:
        b = ["1", "25"[rmode-1]] if rmode else None
        g = [[x for x in SIG[y] if x[0][0] == k][0] for k in b] if b \
            else rng.sample(SIG[y], nf)
        sigs[y] = [rng.choice(x) for x in g]
    dg = int(rmode == 0 and rng.random() < .25)
    c = dict(rmode=rmode, nf=nf, sys=sys, sigs=sigs, smooth=rng.choice([0, 1]),
             trop=rng.choice([0, 0, 1]), iono=rng.choice([0, 0, 1]), dg=dg,
             ionm=0 if dg else rng.choice([0, 0, 1, 2]), start=0,
             pmode=rng.randrange(2), model=rng.choice(
                 ["SBAS"]*3+["SAAST", "HOPF"]),
             lat=rng.choice([-70, -35, -5, 8, 33, 47, 62, 80])+rng.random(),
             lon=rng.uniform(-180, 180), hgt=rng.uniform(-50, 3000),
             week=rng.choice([2200, 2300, 2310, 2325]),
             tow=rng.randrange(604000))
    c.update(kw)
    return c


def band(cfg, s):
    return int(cfg["sigs"][gn.LET[s//1000]][0][0])


def pick(rng, cfg, n):
    pool = [gn.sid(s, p) for s in cfg["sys"] for p in (
        range(193, 200) if s == "J" else range(1, 28))]
    return rng.sample(pool, min(n, len(pool)))


def heaven(rng, sats, lo=22):
    return {s: (rng.random()*6.28, np.deg2rad(rng.uniform(lo, 85)))
            for s in sats}


def main(run):
    rng = run.rng
    edges = run.model_check("Std_MC", emit=True)
    for cfg, evs in run.paths(edges, maxlen=8, budget=40 if run.quick
                              else 600):
        c = config(rng, rmode=0, dg=0, ionm=0, smooth=1)
        run.hist(**c)
        d = Dut(run, rng, c)
        t = geo = 0
        geo = ph = 5000
        new = True
        for e in evs:
            t += e["dt"]
            if e["dl"] == -1:
                d.sm(dict(sat=1001, t=t, p=0, l=0, ns=4))
                continue
            if e["dl"] != 20000 and not new:
                geo += e["dl"]
            new = False
            ph += e["dl"]
            d.sm(dict(sat=1001, t=t, p=geo+e["dev"], l=ph, ns=4))
    for h in range(12 if run.quick else 150):
        c = config(rng, smooth=1)
        run.hist(**c)
        d = Dut(run, rng, c)
        m = [dict(sat=s, t=0, l=rng.randint(40000, 90000), p=60000)
             for s in pick(rng, c, 3)]
        ns = rng.choice([100, 100, 5, 20])
        for k in range(rng.randint(20, 260 if ns == 100 else 60)):
            q = rng.choice(m)
            q["t"] += rng.choice([250, 500, 1000, 1000, 1000, 1000]
                                 if rng.random() < .98 else [1250, 1500, 30000])
            g = rng.randint(-900, 900) if 30000 < q["p"] < 150000 else (
                -500 if q["p"] > 90000 else 500)
            q["p"] += g
            q["l"] += g
            if rng.random() < .01:
                q["l"] = rng.randint(40000, 90000)
            e = dict(sat=q["sat"], t=q["t"], ns=ns, l=q["l"],
                     p=q["p"]+rng.randint(-3000, 3000))
            if rng.random() < .01:
                e[rng.choice("pl")] = 0
            d.sm(e)
    for h in range(100 if run.quick else 1500):
        c = config(rng)
        run.hist(**c)
        d = Dut(run, rng, c)
        sats = pick(rng, c, rng.randint(3, 9))
        sky = heaven(rng, sats, 6)
        L = {s: [rng.randint(3000, 50000) for _ in (1, 2)] for s in sats}
        t = 0
        for k in range(rng.randint(2, 7)):
            t += rng.choice([1000, 1000, 1000, 500, 2000])
            rows = []
            for s in rng.sample(sats, rng.randint(1, len(sats))):
                L[s] = [v+rng.choice([0, 50, 300]) for v in L[s]]
                rows.append(dict(
                    sat=s, edt=int(rng.random() < .07), b=band(c, s),
                    p1=rng.randint(1000, 60000), p2=rng.randint(1000, 60000),
                    l1=L[s][0], l2=L[s][1]))
                if rng.random() < .7:      # code close to the phase
                    for f in (0, 1):
                        rows[-1]["p%d" % (f+1)] = max(
                            L[s][f]+rng.randint(-900, 900), 1)
            for s in sats:
                sky[s] = (sky[s][0]+1e-4, sky[s][1])
            d.zd(dict(t=t, sats=rows), sky)
    for h in range(60 if run.quick else 800):
        c = config(rng, smooth=0, ionm=0)
        run.hist(**c)
        d = Dut(run, rng, c)
        q = pick(rng, c, rng.randint(2, 10))
        d.lin(q, heaven(rng, q))
    for h in range(20 if run.quick else 300):
        c = config(rng, smooth=0, ionm=0)
        run.hist(**c)
        d = Dut(run, rng, c)
        for _ in range(3):
            d.ud()
    for h in range(50 if run.quick else 600):
        c = config(rng, rmode=0, smooth=0, ionm=0, dg=0)
        c["nf"] = 1
        run.hist(**c)
        d = Dut(run, rng, c)
        for how in rng.sample(["direct", "process", "later"], 2):
            d.tgd(pick(rng, c, rng.randint(1, 8)), how)
    for h in range(80 if run.quick else 1000):
        c = config(rng, ionm=0, smooth=rng.randrange(2),
                   start=rng.randrange(2))
        if c["smooth"]:
            c["iono"] = 1      # code and phase agree
        c["sys"] = [y for y in c["sys"] if y != "J"] or ["G"]
        c["sigs"].setdefault("G", ["1C", "5Q" if c["rmode"] == 2 else "2W"])
        run.hist(**c)
        d = Dut(run, rng, c)
        all_ = pick(rng, c, rng.randint(7, 12))
        sky = heaven(rng, all_)
        low, sick = all_[:1], all_[1:2]
        sky[low[0]] = (1., np.deg2rad(rng.uniform(2, 8)))
        clk = rng.choice([0., rng.uniform(-60, 60), rng.uniform(-3e5, 3e5)]) \
            if c["start"] else 0.
        vel = np.array([rng.uniform(-20, 20) for _ in range(3)])*c["pmode"]
        if c["pmode"] and not c["start"]:
            d.nav.x[3:6] = vel
        elif c["start"]:
            vel = vel*.02
        pos = d.rr.copy()
        for k in range(rng.randint(3, 8)):
            if k:
                dt = rng.choice([500, 1000, 1000, 5000])
                d.ms += dt
                pos = pos+vel*dt*1e-3
                if rng.random() < .3:
                    clk += rng.choice([-1, 1])*rng.uniform(200, 2.9e5)
            n = rng.choice([len(all_)-2]*5+[rng.randint(0, 5)])
            if n > 3 and c["start"] and dop(
                    [sky[s] for s in all_[2:][:n]]) > 8:
                n = rng.randint(0, 3)
            d.epo(all_[2:][:n], sky, rng.choice([[], low]),
                  rng.choice([[], sick]), clk, pos)
            sky = {s: (a+1e-4, e) for s, (a, e) in sky.items()}
    run.validate("Std_Trace")
