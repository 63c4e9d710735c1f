"""P32: wide-area ionospheric corrections of MADOCA-PPP."""
import numpy as np
import gn
from vlib import Bits, toint, NAN, BADTYPE
from cssrlib.cssr_mdc import cssr_mdc

SZ = [14, 12, 12, 10, 8, 8]
TERMS = [1, 3, 4, 6]
LSB = [.05, .02, .02, .02, .005, .005]


def q(v, lsb):
    """decoded value -> units"""
    if np.isnan(v):
        return NAN
    r = round(float(v)/lsb)
    return toint(r) if abs(float(v)/lsb-r) < 1e-6 else BADTYPE


def cl(lat):
    return int(round(1000*np.cos(np.deg2rad(lat*.01))))


class Dut:
    def __init__(self, run):
        self.run, self.rng = run, run.rng
        run.hist(x=0)
        self.d = cssr_mdc()
        self.d.week = 2300
        self.d.tow0 = 0        # known from Compact SSR
        self.keys = set()
        self.found = None

    def head(self, b, mt):
        return b.u(mt, 12).u(0, 4)

    def area(self, b, e):
        rng = self.rng
        self.head(b, 1).u(e["tow"], 20).u(rng.randrange(16), 4)
        b.u(rng.randrange(2), 1).u(rng.randrange(16), 4)
        b.u(e["reg"], 8).u(0, 1).u(rng.randrange(65536), 16)
        b.u(len(e["areas"]), 5)
        for a, sh, lat, lon, p1, p2 in e["areas"]:
            b.u(a, 5).u(sh, 1)
            if sh == 0:
                b.s(lat//10, 11).u(lon//10, 12).u(p1//10, 8).u(p2//10, 8)
            else:
                b.s(lat, 15).u(lon, 16).u(p1//10, 8)

    def corr(self, b, e):
        rng = self.rng
        self.head(b, 2).u(e["dtow"], 12).u(rng.randrange(16), 4)
        b.u(rng.randrange(2), 1).u(e["iod"], 4)
        b.u(e["reg"], 8).u(e["area"], 5).u(e["stype"], 2)
        for s in (1, 2, 3, 4, 5):
            b.u(sum(r[0]//1000 == s for r in e["rows"]), 5)
        for s, c in e["rows"]:
            b.u(s % 1000-(192 if s//1000 == 5 else 0), 6)
            b.u(rng.randrange(64), 6)
            for k in range(TERMS[e["stype"]]):
                b.s(c[k], SZ[k])

    def areas(self):
        o = []
        for r, w in self.d.pnt.items():
            for a, p in w.items():
                v = [q(p.latr, .01), q(p.lonr, .01)]
                v += [q(p.lats, .01), q(p.lons, .01)] if p.sid == 0 else \
                    [q(p.rng, 1.), cl(v[0])]
                o.append([r, a, p.sid]+v)
        return dict(areas=gn.uset(o))

    def corrs(self):
        o = []
        for r, a in self.keys:
            lc = self.d.lc[self.d.get_inet(r, a)]
            if lc.nsat_n != len(lc.sat_n) or set(lc.ci) != set(lc.sat_n):
                raise ValueError("satellites")
            t = lc.t0[0][gn_stec]
            t = t.time-gn.GPS0-2300*604800
            h = [r, a, lc.inet_ref, toint(t)]
            o += [h+[0]]+[h+[gn.unsat(s)]+[q(x, y) for x, y in
                                           zip(lc.ci[s], LSB)]
                          for s in lc.sat_n]
        return dict(corr=gn.uset(o))

    def frame(self, evs):
        """messages of one frame"""
        b = Bits()
        for e in evs:
            getattr(self, e["op"])(b, e)
        m = b.tobytes()+bytes(40)

        def f():
            self.d.decode_cssr(m)
            for e in evs:
                if e["op"] == "corr":
                    self.keys.add((e["reg"], e["area"]))
            return dict(**self.areas(), **self.corrs())
        out, exc = self.run.call(f)
        self.run.ev("frame", out=out, exc=exc, m=evs)

    def find(self, lat, lon):
        def f():
            d = self.d
            d.inet = d.find_grid_index(self.pos(lat, lon))
            r = [toint(d.reg), toint(d.area)]
            self.found = None if r == [-1, -1] else r
            if (d.inet == -1) != (self.found is None):
                raise ValueError("inet")
            return dict(r=r)
        self.found = None
        out, exc = self.run.call(f)
        self.run.ev("find", out=out, exc=exc, lat=lat, lon=lon)

    def pos(self, lat, lon):
        return np.array([np.deg2rad(lat*.01), np.deg2rad(lon*.01), 50.])

    def get(self, lat, lon):
        if self.found is None:
            return

        def f():
            d = self.d
            x, y = d.get_dpos(self.pos(lat, lon))
            v = d.get_stec(x, y)
            sats = d.lc[d.inet].sat_n
            if len(v) != len(sats):
                raise ValueError("length")
            return dict(d=[q(x, .01), q(y, .01)], stec=gn.uset(
                [gn.unsat(s), NAN if np.isnan(z) else toint(round(z*1e4))]
                for s, z in zip(sats, v)))
        out, exc = self.run.call(f)
        self.run.ev("get", out=out, exc=exc, lat=lat, lon=lon)


gn_stec = __import__("cssrlib.cssrlib", fromlist=["sCType"]).sCType.STEC


def wrap(x):
    return (x+18000) % 36000-18000


class Gen:
    def __init__(self, rng):
        self.rng = rng
        self.regs = rng.sample([1, 2, 3, 4, 5], rng.randint(1, 3))
        if rng.random() < .3:
            self.regs.append(rng.choice([0, 6, 7, 255]))
        self.c = (rng.randrange(-550, 551)*10, rng.randrange(0, 3600)*10)
        self.known = {}

    def area(self):
        rng = self.rng
        reg = rng.choice(self.regs)
        q = []
        for a in rng.sample(range(0 if rng.random() < .2 else 1, 10),
                            rng.randint(1, 5)):
            if rng.random() < .1:
                a = rng.randrange(10, 32)
            if any(a == x[0] for x in q):
                continue
            lat = self.c[0]+rng.randrange(-90, 91)*10
            lon = (self.c[1]+rng.randrange(-150, 151)*10) % 36000
            if rng.random() < .1:
                lon = rng.choice([0, 17990, 18000, 18010, 35990])
            if rng.random() < .6:
                q.append([a, 0, lat, lon, rng.randint(1, 120)*10,
                          rng.randint(1, 200)*10])
            else:
                lat, lon = lat+rng.randrange(10), lon+rng.randrange(10)
                q.append([a, 1, lat, lon, rng.randint(5, 80)*10, cl(lat)])
            self.known[reg, a] = q[-1]
        return dict(op="area", tow=rng.randrange(0, 604800), reg=reg, areas=q)

    def corr(self):
        rng = self.rng
        ks = list(self.known)
        k = rng.choice(ks) if ks and rng.random() < .8 else (
            rng.choice(self.regs), rng.randint(1, 9))
        st = rng.randrange(4)
        rows = []
        for s, let in enumerate("GRECJ", 1):
            a, b = gn.RANGE[let]
            b = min(b, a+61 if let != "J" else 199)
            for p in sorted(rng.sample(range(a, b+1), rng.choice(
                    [0, 0, 1, 2, 4]))):
                c = []
                for n in SZ:
                    x = rng.random()
                    h = 1 << (n-1)
                    c.append(-h if x < .03 else rng.choice([-h+1, h-1])
                             if x < .1 else rng.randrange(-h+1, h))
                rows.append([s*1000+p, c])
        return dict(op="corr", dtow=rng.randrange(3600), reg=k[0], area=k[1],
                    stype=st, iod=rng.randrange(16), rows=rows)

    def pos(self):
        rng = self.rng
        if self.known and rng.random() < .85:
            a = rng.choice(list(self.known.values()))
            if a[1] == 0:
                f = 1.15
                lat = a[2]+int(rng.uniform(-f, f)*a[4])
                lon = a[3]+int(rng.uniform(-f, f)*a[5])
            else:
                r, t = rng.uniform(0, 1.4)*a[4]/1.113, rng.uniform(0, 6.28)
                lat = a[2]+int(r*np.cos(t))
                lon = a[3]+int(r*np.sin(t)*1000/a[5])
        else:
            lat, lon = rng.randrange(-8500, 8500), rng.randrange(36000)
        lat, lon = max(-8900, min(8900, lat)), wrap(lon)
        return lat+(lat % 10 == 0), lon+(lon % 10 == 0)


def main(run):
    rng = run.rng
    run.assumptions += [
        "coverage messages only add or replace areas (withdrawal of a "
        "region by the alert flag is not judged)",
        "distances to circles within 3 % + 3 km of the radius not judged"]
    edges = run.model_check("Mdc_MC", emit=True)
    for cfg, evs in run.paths(edges, maxlen=12,
                              budget=300 if run.quick else 8000):
        d = Dut(run)
        for e in evs:
            if e["op"] in ("find", "get"):
                getattr(d, e["op"])(e["lat"], e["lon"])
            else:
                d.frame([e])
    for h in range(200 if run.quick else 4000):
        d, g = Dut(run), Gen(rng)
        d.frame([g.area()])
        for k in range(rng.randint(5, 25)):
            x = rng.random()
            if x < .45:
                d.frame([g.area() if rng.random() < .3 else g.corr()
                         for _ in range(rng.choice([1, 1, 2, 3]))])
            elif x < .75:
                d.find(*g.pos())
            elif d.found:
                a = g.known.get(tuple(d.found))
                if a:
                    d.get(a[2]+rng.randint(-700, 700),
                          wrap(a[3]+rng.randint(-900, 900)))
    run.validate("Mdc_Trace")
