"""P33: satellite positions, velocities and clocks."""
import numpy as np
import gn
from vlib import toint, BADTYPE
from cssrlib import ephemeris as ep
from cssrlib.gnss import Eph, Geph, Alm, uGNSS, timeadd, gpst2time, \
    bdt2time, time2gpst, time2bdt, time2epoch, timeget

# constants of the interface documents
MU = {"G": 3.986005e14, "J": 3.986005e14, "E": 3.986004418e14,
      "C": 3.986004418e14}
OMGE = {"G": 7.2921151467e-5, "J": 7.2921151467e-5, "E": 7.2921151467e-5,
        "C": 7.292115e-5}
ROT = [[10000, 0], [2800, 9600], [9600, 2800], [9600, -2800], [-2800, 9600],
       [0, 10000], [2800, -9600]]
CIRC = [[a*x, b*y] for x, y in ((10000, 0), (0, 10000), (2800, 9600),
                                (9600, 2800), (6000, 8000))
        for a in (1, -1) for b in (1, -1)]


def i32(x, q):
    v = float(x)*q
    if not np.isfinite(v) or abs(v) > 2e9:
        return BADTYPE
    return round(v)


def split(p):
    """metres -> [whole, 0.1 mm]"""
    o = []
    for x in p:
        v = round(float(x)*1e4)
        o.append([v//10000, v % 10000])
    return o


def v3(p, q):
    return [i32(x, q) for x in p]


class Dut:
    def __init__(self, run):
        self.run = run
        run.hist(x=0)
        self.alm = []

    # -- Keplerian
    def elements(self, o, e, y, t0, dt):
        """fill in orbital elements so that anomaly, node are as asked"""
        mu, om = MU[y], OMGE[y]
        o.sat = gn.sat(e["sat"])
        o.A = float(e["sqa"])**2
        o.e = e["ecc"]/100
        E = e["k"]*np.pi/2
        n = np.sqrt(mu/o.A**3)
        if e["op"] == "kep":
            n += e["deln"]*1e-10
            if e["mode"]:
                n += .5*dt*e["delnd"]*1e-15
        M = E-o.e*np.sin(E)-n*dt
        o.M0 = (M+np.pi) % (2*np.pi)-np.pi
        o.omg = e["w"]*np.pi/2
        o.i0 = np.arctan2(e["inc"][1], e["inc"][0])
        o.OMGd = e["odot"]*1e-12
        O = np.arctan2(e["node"][1], e["node"][0])
        O += om*t0-o.OMGd*dt+(0 if e["geo"] else om*dt)
        o.OMG0 = (O+np.pi) % (2*np.pi)-np.pi

    def kep(self, e):
        e = dict(e)
        y = gn.name(e["sat"])[0]
        dt = e["dt"]
        if e["geo"]:
            dt = np.arctan2(e["rot"][1], e["rot"][0])/OMGE[y]
            e["dt"] = round(dt)
        eph = Eph()
        e["toe"] %= 604800
        self.elements(eph, e, y, e["toe"], dt)
        eph.mode = e["mode"]
        eph.toes = float(e["toe"])
        eph.week = 2300
        toe = (bdt2time if y == "C" else gpst2time)(
            2300-1356*(y == "C"), e["toe"])
        t = timeadd(toe, dt)
        eph.toe = toe
        eph.toc = timeadd(t, -100*e["q"])
        eph.Adot = e["adot"]*1e-4
        eph.deln, eph.delnd = e["deln"]*1e-10, e["delnd"]*1e-15
        eph.crc, eph.crs = e["crc"]*.1, e["crs"]*.1
        for k in ("cuc", "cus", "cic", "cis"):
            setattr(eph, k, e[k]*1e-9)
        eph.idot = e["idot"]*1e-12
        eph.af0, eph.af1, eph.af2 = (e["af0"]*1e-12, e["af1"]*1e-12,
                                     e["af2"]*1e-16)

        def f():
            rs, vs, dts = ep.eph2pos(t, eph, True)
            r2, d2 = ep.eph2pos(t, eph)
            b = ep.eph2pos(timeadd(t, -1.), eph)[0]
            a = ep.eph2pos(timeadd(t, 1.), eph)[0]
            return dict(pos=v3(rs, 10), v=v3(vs, 1e4), before=split(b),
                        after=split(a), clk=i32(dts, 1e12),
                        same=bool(np.array_equal(rs, r2) and d2 == dts),
                        rel=i32(ep.eph2rel(t, eph), 1e12),
                        clk2=i32(ep.eph2clk(t, eph), 1e12))
        out, exc = self.run.call(f)
        self.run.ev(out=out, exc=exc, **e)

    def almpos(self, e):
        y = gn.name(e["sat"])[0]
        a = Alm()
        e["toe"] %= 604800
        self.elements(a, e, y, e["toe"], e["dt"])
        a.toas = float(e["toe"])
        a.toa = (bdt2time if y == "C" else gpst2time)(
            2300-1356*(y == "C"), e["toe"])
        a.af0, a.af1 = e["af0"]*1e-12, e["af1"]*1e-12
        e["q"] = e["dt"]//100

        def f():
            rs, dts = ep.alm2pos(timeadd(a.toa, e["dt"]), a)
            return dict(pos=v3(rs, 10), clk=i32(dts, 1e12))
        out, exc = self.run.call(f)
        self.run.ev(out=out, exc=exc, **e)

    # -- GLONASS
    def glo(self, e, rng):
        g = Geph()
        g.sat = gn.sat(e["sat"])
        g.toe = timeadd(gpst2time(2300, 86400), 0.)
        g.pos = np.array([e["R"]*x/10. for x in e["n"]])
        g.vel = np.array([float(x) for x in e["v"]])
        g.acc = np.array([x*1e-8 for x in e["ls"]])
        g.taun, g.gamn = -e["af0"]*1e-12, e["af1"]*1e-12
        dt = 100*e["q"]
        u = e["cut"]/1000

        def st(t, h=g):
            r, v, d = ep.geph2pos(timeadd(g.toe, t), h, True)
            return np.array(r), np.array(v), d

        def f():
            r, v, _ = st(0.)
            p, n = st(1.), st(-1.)
            rt, vt, dts = st(dt)
            r2, d2 = ep.geph2pos(timeadd(g.toe, dt), g)
            h = Geph()
            h.sat, h.acc, h.toe = g.sat, g.acc, timeadd(g.toe, u)
            h.pos, h.vel, _ = st(u)
            c = st(dt, h)
            return dict(at=[v3(r, 10), v3(v, 1)],
                        acc=v3((p[1]-n[1])/2, 1e8),
                        v=v3(vt, 1e4), before=split(st(dt-1.)[0]),
                        after=split(st(dt+1.)[0]),
                        same=bool(np.array_equal(rt, r2) and d2 == dts),
                        comp=i32(np.linalg.norm(c[0]-rt)
                                 + np.linalg.norm(c[1]-vt)*1e3, 1e4),
                        clk=i32(dts, 1e12),
                        clk2=i32(ep.geph2clk(timeadd(g.toe, dt), g), 1e12))
        out, exc = self.run.call(f)
        self.run.ev("glo", out=out, exc=exc, **e)

    # -- files of almanacs
    def load(self, kind, recs):
        fn = self.run.tmp+"/alm"
        sys = {"yuma": uGNSS.GPS, "yumab": uGNSS.BDS, "yumaq": uGNSS.QZS,
               "xml": uGNSS.GAL}[kind]
        if kind == "xml":
            now, iss = self.issue
            mod = 4
            with open(fn, "w") as fh:
                fh.write(xml(recs, iss))
        else:
            t = timeget()
            now = (time2bdt if kind == "yumab" else time2gpst)(t)[0]
            mod = 1024
            with open(fn, "w") as fh:
                for r in recs:
                    fh.write(yuma(r))

        def f():
            a = ep.loadXmlAlmanac(fn) if kind == "xml" else \
                ep.loadyuma(fn, sys)
            o = []
            for x in a:
                w, tw = (time2bdt if kind == "yumab" else time2gpst)(x.toa)
                fl = [x.e*1e6, x.sqa if hasattr(x, "sqa") else
                      np.sqrt(x.A)*1e4, x.i0*1e6, x.OMG0*1e6, x.omg*1e6,
                      x.M0*1e6, x.OMGd*1e12, x.af0*1e9, x.af1*1e12, x.svh]
                o.append(dict(sat=gn.unsat(x.sat), week=toint(
                    w-1024*(kind == "xml")), toa=round(tw),
                    f=[i32(v, 1) for v in fl]))
                if x.toas != tw:
                    raise ValueError("toas")
            self.alm, self.bdt = a, kind == "yumab"
            self.gal = kind == "xml"
            return dict(recs=o)
        out, exc = self.run.call(f)
        self.run.ev("load", out=out, exc=exc, recs=recs, now=now, mod=mod)
        return out

    def find(self, sat, w, tow, tmax):
        def f():
            t = bdt2time(w, tow) if self.bdt else gpst2time(
                w+1024*self.gal, tow)
            a = ep.findalm(self.alm, t, gn.sat(sat),
                           np.inf if tmax < 0 else tmax)
            return dict(k=0 if a is None else
                        [x is a for x in self.alm].index(True)+1)
        out, exc = self.run.call(f)
        self.run.ev("find", out=out, exc=exc, sat=sat, week=w, tow=tow,
                    tmax=tmax)


def yuma(r):
    f = r["f"]
    return ("******** Week %d almanac for PRN-%02d ********\n"
            "ID:                         %02d\n"
            "Health:                     %03d\n"
            "Eccentricity:               %.10E\n"
            "Time of Applicability(s):  %.4f\n"
            "Orbital Inclination(rad):   %.10f\n"
            "Rate of Right Ascen(r/s):  %.10E\n"
            "SQRT(A)  (m 1/2):           %.6f\n"
            "Right Ascen at Week(rad):   %.10E\n"
            "Argument of Perigee(rad):   %.9f\n"
            "Mean Anom(rad):            %.10E\n"
            "Af0(s):                    %.10E\n"
            "Af1(s/s):                  %.10E\n"
            "week:                        %d\n\n") % (
                r["week"], r["sat"] % 1000, r["sat"] % 1000, f[9], f[0]*1e-6,
                r["toa"], f[2]*1e-6, f[6]*1e-12, f[1]*1e-4, f[3]*1e-6,
                f[4]*1e-6, f[5]*1e-6, f[7]*1e-9, f[8]*1e-12, r["week"])


def xml(recs, iss):
    s = ("<signalData><header><GAL-header><issueDate>%s</issueDate>"
         "</GAL-header></header><body><Almanacs>" % iss)
    for r in recs:
        f = r["f"]
        s += ("<svAlmanac><SVID>%d</SVID><almanac>"
              "<aSqRoot>%.9f</aSqRoot><ecc>%.9f</ecc><deltai>%.12f</deltai>"
              "<omega0>%.12f</omega0><omegaDot>%.9e</omegaDot><w>%.12f</w>"
              "<m0>%.12f</m0><af0>%.12e</af0><af1>%.12e</af1>"
              "<iod>%d</iod><t0a>%d</t0a><wna>%d</wna></almanac>"
              "<svFNavSignalStatus><statusE5a>%d</statusE5a>"
              "</svFNavSignalStatus><svINavSignalStatus><statusE5b>%d"
              "</statusE5b><statusE1B>%d</statusE1B></svINavSignalStatus>"
              "</svAlmanac>") % (
                  r["sat"] % 1000, f[1]*1e-4-29600e3**.5, f[0]*1e-6,
                  (f[2]*1e-6-np.deg2rad(56))/np.pi, f[3]*1e-6/np.pi,
                  f[6]*1e-12/np.pi, f[4]*1e-6/np.pi, f[5]*1e-6/np.pi,
                  f[7]*1e-9, f[8]*1e-12, 5, r["toa"], r["week"],
                  f[9] >> 4, f[9] >> 2 & 3, f[9] & 3)
    return s+"</Almanacs></body></signalData>"


def sym(rng, h):
    return rng.choice([0, h, -h, rng.randint(-h, h), rng.randint(-h, h)])


def kepler(rng, op):
    y = rng.choice("GGEEJCCC")
    prn = rng.randint(*gn.RANGE[y])
    if y == "C" and rng.random() < .5:
        prn = rng.choice([1, 2, 3, 4, 5, 6, 58, 59, 60, 61, 62, 63])
    geo = op == "kep" and y == "C" and (prn <= 5 or prn >= 59)
    mode = rng.choice([0, 0, 1])
    e = dict(op=op, sat=gn.sid(y, prn), ecc=rng.choice([0, 28]),
             sqa=rng.choice([5150, 5440, 5280, 6490, 6500]),
             k=rng.randrange(4), w=rng.randrange(4), mode=mode,
             inc=rng.choice(ROT), node=rng.choice(CIRC), geo=geo,
             rot=[10000, 0], dt=rng.choice([0, sym(rng, 7200)]),
             toe=rng.choice([0, 604784, rng.randrange(604800)]),
             odot=sym(rng, 9000), adot=sym(rng, 100), deln=sym(rng, 60),
             delnd=sym(rng, 100), idot=sym(rng, 1500), af1=sym(rng, 9000),
             af2=sym(rng, 90), q=sym(rng, 140))
    for k in ("crc", "crs"):
        e[k] = sym(rng, 9000)
    for k in ("cuc", "cus", "cic", "cis"):
        e[k] = sym(rng, 9000)
    e["af0"] = sym(rng, 900000000)
    if geo:
        e["rot"] = rng.choice([[10000, 0], [9600, 2800], [9600, -2800]])
    if op == "alm":
        for k in ("adot", "idot", "crc", "crs", "cuc", "cus", "cic", "cis",
                  "af2"):
            e[k] = 0
        e["dt"] = 100*rng.choice([0, sym(rng, 864), sym(rng, 6048),
                                  sym(rng, 4*6048)])
        e["af1"] = sym(rng, 400)
    return e


def glonass(rng):
    R = rng.choice([25500, 19100])
    z = rng.choice([[6000, 8000], [8000, 6000], [10000, 0], [0, 10000],
                    [6000, -8000]])
    c = rng.choice(CIRC)
    n = [c[0]*z[0]//10000, c[1]*z[0]//10000, z[1]]
    v = [rng.choice([0, sym(rng, 2300)]) for _ in range(3)]
    q = sym(rng, 9)
    return dict(sat=gn.sid("R", rng.randint(1, 24)), R=R, n=n, v=v,
                ls=[sym(rng, 600) for _ in range(3)], q=q,
                cut=rng.randrange(-900000, 900001), af2=0,
                af0=sym(rng, 900000000), af1=sym(rng, 9000))


def almanac(rng, d, kind):
    y = {"yuma": "G", "yumab": "C", "yumaq": "J", "xml": "E"}[kind]
    if kind == "xml":
        w = rng.randint(1200, 1400)
        tt = rng.randrange(604800)
        t = time2epoch(gpst2time(w+1024, tt))
        d.issue = (w, "%04d-%02d-%02dT%02d:%02d:%02dZ" % tuple(
            int(x) for x in t[:6]))
        now = w
    else:
        now = (time2bdt if y == "C" else time2gpst)(timeget())[0]
    recs = []
    for p in sorted(rng.sample(range(gn.RANGE[y][0], min(
            gn.RANGE[y][1], gn.RANGE[y][0]+(31 if y != "J" else 6))+1),
            rng.randint(1, 6))):
        f = [rng.randrange(30000), rng.choice([51536123, 54406000, 64931234]),
             rng.randrange(900000, 1000000), sym(rng, 3141592),
             sym(rng, 3141592), sym(rng, 3141592), sym(rng, 9000),
             sym(rng, 900000), sym(rng, 300),
             rng.choice([0, 0, 63, rng.randrange(64)])]
        w = now+rng.choice([0, 0, 0, -1, 1])
        recs.append(dict(sat=gn.sid(y, p), week=w % 4 if kind == "xml" else
                         w if kind == "yumab" else w % 1024,
                         toa=rng.choice([0, 4096*rng.randrange(147),
                                         503808]), f=f))
    if rng.random() < .5:      # several almanacs of a satellite
        recs += [dict(r, toa=4096*rng.randrange(147),
                      week=(r["week"]+rng.choice([0, 0, 1])) %
                      (4 if kind == "xml" else 8192))
                 for r in rng.sample(recs, rng.randint(1, len(recs)))
                 if r["week"] != (now+1) % (4 if kind == "xml" else
                                            8192 if y == "C" else 1024)]
        rng.shuffle(recs)
    return now, recs


def main(run):
    rng = run.rng
    run.nudge = 1000
    run.assumptions += [
        "positions within 0.6 m, velocities within 1 mm/s, clocks within "
        "6 ps; eccentricities 0 and 0.28",
        "weeks of almanacs are those nearest to the present (10 bits of GPS "
        "and QZSS, 2 bits of Galileo)"]
    edges = run.model_check("Orb_MC", emit=True)
    for cfg, evs in run.paths(edges, maxlen=1,
                              budget=800 if run.quick else 8000):
        d = Dut(run)
        for e in evs:
            d.kep(e)
    for h in range(150 if run.quick else 3000):
        d = Dut(run)
        for k in range(10):
            d.kep(kepler(rng, "kep"))
        for k in range(4):
            d.almpos(kepler(rng, "alm"))
        if h % 3 == 0:
            d.glo(glonass(rng), rng)
        kind = rng.choice(["yuma", "yumab", "yumaq", "xml"])
        now, recs = almanac(rng, d, kind)
        if d.load(kind, recs):
            for k in range(6):
                s = rng.choice(recs)["sat"]+rng.choice([0, 0, 0, 1])
                top = gn.RANGE[gn.name(s-1)[0]][1]
                d.find(s if s % 1000 <= top else s-1, now+rng.randint(-2, 2),
                       rng.randrange(604800),
                       rng.choice([-1, -1, 3600*rng.randrange(400)]))
    run.validate("Orb_Trace")
