"""P35: coordinates, directions and models of the atmosphere."""
import numpy as np
from vlib import BADTYPE
from cssrlib.gnss import (epoch2time, timeadd, gpst2time, pos2ecef, ecef2pos,
                          xyz2enu, enu2xyz, satazel, geodist, ionppp, dops, kfupdate,
                          tropmodel, tropmapf, uTropoModel, uIonoModel, Nav)
from cssrlib.pntpos import ionKlobuchar, ionmodel
from cssrlib.sbas import sbasDec

LAT = [[10000, 0], [8000, 6000], [8000, -6000], [6000, 8000], [6000, -8000],
       [0, 10000], [0, -10000], [2800, 9600], [9600, 2800], [9600, -2800],
       [2800, -9600]]
LON = [[10000, 0], [0, 10000], [-10000, 0], [0, -10000], [6000, 8000],
       [-6000, 8000], [2800, -9600], [-9600, -2800], [-8000, -6000]]
EL = [[8000, 6000], [6000, 8000], [0, 10000], [9600, 2800], [10000, 0],
      [2800, 9600]]
DIFF = [((2, 3, 6), 7), ((-1, 2, 2), 3), ((4, -4, 7), 9), ((6, 6, -7), 11),
        ((-3, -4, 12), 13), ((2, -10, -11), 15), ((0, 3, -4), 5),
        ((0, 0, 1), 1), ((8, 9, 12), 17)]


def i32(x, q=1.):
    v = float(x)*q
    return round(v) if np.isfinite(v) and abs(v) < 2.1e9 else BADTYPE


def ang(d):
    return float(np.arctan2(d[1], d[0]))


def cs(a, q):
    return [i32(np.cos(a), q), i32(np.sin(a), q)]


def vec(v, q=1.):
    return [i32(x, q) for x in np.array(v, dtype=float).flatten()]


def ecef(lat, lon, h):
    return pos2ecef(np.array([ang(lat), ang(lon), h]))


class Keep:
    """arguments that have to stay as they are"""

    def __init__(self):
        self.a = []

    def __call__(self, x, dtype=float):
        x = np.array(x, dtype=dtype)
        self.a.append((x, x.copy()))
        return x

    def kept(self):
        return all(np.array_equal(x, y) for x, y in self.a)


class Dut:
    def __init__(self, run):
        self.run = run
        run.hist(x=0)

    def do(self, e):
        out, exc = self.run.call(lambda: getattr(self, e["op"])(e, Keep()))
        self.run.ev(out=out, exc=exc, **e)

    def pos(self, e, k):
        p = k([ang(e["lat"]), ang(e["lon"]), e["h"]*.01])
        x = k(pos2ecef(p))
        d = k([np.rad2deg(p[0]), np.rad2deg(p[1]), p[2]])
        y = pos2ecef(d, True)
        z = ecef2pos(x)
        return dict(xyz=vec(x, 100), deg=vec(y, 100),
                    enu=vec(xyz2enu(p), 1e8), xyzt=vec(enu2xyz(p), 1e8),
                    lat=cs(z[0], 1e9), lon=cs(z[1], 1e9), h=i32(z[2], 100),
                    kept=k.kept())

    def azel(self, e, k):
        p = k([ang(e["lat"]), ang(e["lon"]), 0.])
        a, h = ang(e["az"]), ang(e["el"])
        u = np.array([np.cos(h)*np.sin(a), np.cos(h)*np.cos(a), np.sin(h)])
        los = xyz2enu(p).T@u
        r = ecef(e["lat"], e["lon"], e.get("rho", 0)*1e-4)
        los = k(geodist(r+(2e7+e.get("rho", 0))*los, r)[1])
        az, el = satazel(p, los)
        return dict(az=cs(az, 1e8), el=cs(el, 1e8), kept=k.kept())

    def dist(self, e, k):
        r = k(np.array(e["r"])*1e3)
        s = k(r+np.array(e["d"])*1e3)
        x, u = geodist(s, r)
        return dict(w=i32(x-e["l"]*1e3, 1e3), e=vec(u, 1e7), kept=k.kept())

    def ipp(self, e, k):
        p = k([ang(e["lat"]), ang(e["lon"]), 0.])
        re = 6378.1363
        z = e["zi"][1]/1e4
        c = e["el"][0]/1e4
        hion = re*c/z-re if z > 0 else 350.
        sf, q = ionppp(p, ang(e["az"]), ang(e["el"]), re, hion)
        return dict(sf=i32(sf, 1e7), kept=k.kept(),
                    x=vec([np.cos(q[0])*np.cos(q[1]),
                           np.cos(q[0])*np.sin(q[1]), np.sin(q[0])], 1e4))

    def dop(self, e, k):
        n, m, w = e["n"], e["m"], e["low"]
        a0 = e["az"]*.3
        az = [a0+2*np.pi*j/n for j in range(n)]+[.7*j for j in range(m)] \
            + [1.1*j for j in range(w)]
        h = ang(e["el"])
        el = [h]*n+[np.pi/2]*m+[h-.05-.01*j for j in range(w)]
        o = list(range(len(az)))
        self.run.rng.shuffle(o)
        r = dops(k(np.array(az)[o]), k(np.array(el)[o]), h-.02)
        return dict(dop=[] if r is None else
                    [i32(r[j]**2, 1e7) for j in (0, 1, 2, 3)],
                    kept=k.kept())

    def trop(self, e, k):
        p = k([np.deg2rad(e["lat"]), .3, e["h"]])
        t = timeadd(epoch2time([e.get("yr", 2023), 1, 1, 0, 0, 0]),
                    (e["q"]/4-1)*86400)
        el = float(np.arcsin(e["s"]/1e4))
        U = uTropoModel
        none = list(tropmodel(t, p, el, model=U.NONE)[:2]) \
            + list(tropmapf(t, p, el, model=U.NONE))
        hd, hw = {}, {}
        for d in (0, 20, 36, 60):
            a, b = tropmapf(t, p, np.deg2rad(d*.1), model=U.HOPF)
            hd[f"e{d}"], hw[f"e{d}"] = i32(a, 1e7), i32(b, 1e7)
        return dict(
            none=vec(none), hd=hd, hw=hw,
            nmf=vec(tropmapf(t, p, el, model=U.SAAST), 1e7),
            saast=vec(tropmodel(t, p, humi=e["hum"]/100,
                                model=U.SAAST)[:2], 1e7),
            mops=vec(tropmodel(t, p, model=U.SBAS)[:2], 1e7),
            mmap=vec(tropmapf(t, p, el, model=U.SBAS), 1e7),
            hopf=vec(tropmodel(t, p, model=U.HOPF)[:2], 1e7),
            kept=k.kept())

    def kf(self, e, k):
        x, P = np.array(e["x"], dtype=float), np.array(e["P"], dtype=float)
        x, P, S = kfupdate(x, P, k(e["H"]), k(e["v"]), k(e["R"]))
        return dict(x=vec(x, 1e7), P=[vec(r, 1e7) for r in P],
                    S=[vec(r, 1e4) for r in S], kept=k.kept())

    def klob(self, e, k):
        p = k([e["lat"]*1e-7*np.pi, e["lon"]*1e-7*np.pi, 0.])
        ion = k([np.array(e["a"])*1e-12, e["b"]])
        t = gpst2time(2300+e["tow"] % 7, e["tow"])
        d = ionKlobuchar(t, p, ang(e["az"]), e["el"]*1e-7*np.pi, ion)
        # without corrections of the service the broadcast model remains
        nav = Nav()
        nav.ion = ion
        cs = sbasDec()
        o = []
        for j, m in ((None, uIonoModel.KLOBUCHAR), (None, uIonoModel.SBAS),
                     (-1, uIonoModel.SBAS), (0, uIonoModel.SBAS),
                     (None, uIonoModel.NONE)):
            if j is not None:
                cs.iodi = j
            x = ionmodel(t, p, ang(e["az"]), e["el"]*1e-7*np.pi, nav, m,
                         None if j is None else cs)
            o.append(i32(x, 1e4))
        return dict(d=i32(d, 1e4), m=o, kept=k.kept())


def gen(rng):
    o = rng.choice(("kf", "pos", "azel", "dist", "ipp", "dop", "trop", "klob"))
    e = dict(op=o, lat=rng.choice(LAT), lon=rng.choice(LON))
    if o == "pos":
        e.update(h=rng.choice([0, rng.randint(-50000, 900000),
                               rng.randint(0, 202000000)]))
    elif o == "azel":
        e.update(az=rng.choice(LON), rho=rng.randint(0, 5000000),
                 el=rng.choice(EL+[[0, 10000]]*4
                               + [[x[0], -x[1]] for x in EL]))
    elif o == "dist":
        d, n = rng.choice(DIFF)
        s = rng.randint(21000, 26000)//n
        e = dict(op=o, r=[rng.randint(-6400, 6400) for _ in range(3)],
                 d=[x*s for x in d], l=n*s)
    elif o == "ipp":
        e["lat"] = rng.choice([x for x in LAT if x[0]])
        e.update(az=rng.choice(LON), el=rng.choice(EL))
        # the layer is less than 22 deg of central angle away
        z = [x for x in EL if 0 < x[1] < e["el"][0] and
             x[0]*e["el"][1]+x[1]*e["el"][0] > 9300*10**4]
        e["zi"] = rng.choice(z) if z else [10000, 0]
        if not z:
            e["el"] = [0, 10000]
    elif o == "dop":
        e = dict(op=o, n=rng.randint(3, 9), m=rng.randint(0, 4),
                 az=rng.randint(0, 5), low=rng.randint(0, 3),
                 el=rng.choice([[8000, 6000], [9600, 2800], [10000, 0],
                                [6000, 8000]]))
        if e["m"] == 0 and e["n"] > 3:
            e["m"] = 1
    elif o == "trop":
        e = dict(op=o, lat=rng.randint(-90, 90),
                 h=rng.choice([0, rng.randint(-500, 3000)]),
                 q=rng.randint(4, 1463), hum=rng.randint(0, 100),
                 s=rng.choice([0, -500, 872, 10000, rng.randint(872, 10000)]),
                 yr=rng.choice((2020, 2021, 2023, 2024)))
    elif o == "kf":
        n, m = rng.randint(1, 5), rng.randint(1, 2)
        L = np.array([[rng.randint(-2, 2) if j < i else
                       rng.choice([0, 1, 2, 3]) if j == i else 0
                       for j in range(n)] for i in range(n)])
        for i in range(n):
            if L[i, i] == 0:
                L[i, :] = L[:, i] = 0
        c = rng.randint(-1, 1) if m == 2 else 0
        e = dict(op=o, x=[rng.randint(-50, 50) for _ in range(n)],
                 P=(L@L.T).tolist(), v=[rng.randint(-9, 9) for _ in range(m)],
                 H=[[rng.randint(-2, 2) for _ in range(n)] for _ in range(m)],
                 R=[[rng.randint(2, 5) if i == j else c for j in range(m)]
                    for i in range(m)])
    else:
        q = rng.choice([[10000, 0], [0, 10000], [-10000, 0], [0, -10000]])
        e = dict(op=o, lat=rng.randint(-4990000, 4990000),
                 lon=rng.randint(-10000000, 10000000),
                 az=[q[0]//10000, q[1]//10000],
                 el=rng.randint(280000, 5000000),
                 tow=rng.choice([0, 604799, rng.randint(0, 604799)]),
                 a=[rng.randint(-5000, 40000), rng.randint(-60000, 60000),
                    rng.randint(-200000, 200000),
                    rng.randint(-400000, 400000)],
                 b=[rng.randint(60000, 150000), rng.randint(-200000, 200000),
                    rng.randint(-300000, 300000),
                    rng.randint(-500000, 500000)])
    return e


def main(run):
    rng = run.rng
    run.nudge = 200000
    run.assumptions += [
        "positions within 30 cm / E-7, zenith delays within 0.03 mm, mapping "
        "functions within 7e-5 from 5 deg of elevation up, ionospheric delay "
        "within 4 mm (the arithmetic of the specification)",
        "heights of -1000 to 3000 m for tropospheric models"]
    edges = run.model_check("Geo_MC", emit=True)
    for cfg, evs in run.paths(edges, maxlen=1,
                              budget=900 if run.quick else 6000):
        d = Dut(run)
        for e in evs:
            d.do(e)
    for h in range(150 if run.quick else 4000):
        d = Dut(run)
        for k in range(10):
            d.do(gen(rng))
    run.validate("Geo_Trace")
