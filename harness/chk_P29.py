"""P29: measurement model and filter of PPP, PPP-RTK and RTK."""
import copy
import datetime
import numpy as np
import gn
from vlib import NAN, lsb, toint
from cssrlib import ppprtk, pppssr, rtk
from cssrlib.cssrlib import cssr, sCType, sCSSRTYPE as sc
from cssrlib.gnss import (Nav, Obs, rSigRnx, uGNSS, uTYP, uTideModel,
                          uTropoModel, default_config, gpst2time, timeadd)
from cssrlib.peph import pcv_t

C, OMGE, GME = 299792458.0, 7.2921151467e-5, 3.986004415e+14
RE, FE = 6378137.0, 1/298.257223563
U = 1e-4                      # 0.1 mm
# codes (code, phase), bands
SIG = dict(G=[["1C", "1W"], ["2W", "2L", "2X"], ["5Q", "5X"]],
           R=[["1C", "1P"], ["2C", "2P"]],
           E=[["1C", "1X"], ["5Q", "5X"], ["7Q", "7X"]],
           J=[["1C", "1L", "1X"], ["5Q", "5X"], ["2L", "2X"]],
           C=[["2I", "2X"], ["6I", "6X"], ["7I", "7X"]])
ATT = "XABCDILMPQSWYZ"
SVC = dict(CLAS=(sc.QZS_CLAS, "GEJ"), MADOCA=(sc.QZS_MADOCA, "GREJ"),
           HAS=(sc.GAL_HAS_SIS, "GE"), HASI=(sc.GAL_HAS_IDD, "GE"),
           IGS=(sc.IGS_SSR, "GRECJ"), RTCM=(sc.RTCM3_SSR, "GRECJ"),
           BDS=(sc.BDS_PPP, "GC"), PVS=(sc.PVS_PPP, "GE"),
           BSX=(None, "GRECJ"), NONE=(None, "GRECJ"))


def code(c):
    """2W -> 205 etc. (X is 0, P 204, W 205)"""
    a = c[1]
    k = dict(X=0, P=4, W=5).get(a, 10+ATT.index(a))
    return int(c[0])*100+k


NAME = {code(b+a): b+a for b in "125678" for a in ATT}


def chan(s):
    return s % 1000 % 14-7


FRQ = dict(G={"1": 1575.42e6, "2": 1227.6e6, "5": 1176.45e6},
           E={"1": 1575.42e6, "5": 1176.45e6, "7": 1207.14e6},
           C={"2": 1561.098e6, "6": 1268.52e6, "7": 1207.14e6})
FRQ["J"] = FRQ["G"]


def freq(s, band):
    y = gn.LET[s//1000]
    if y == "R":
        return 1602e6+562500.*chan(s) if band == "1" else \
            1246e6+437500.*chan(s)
    return FRQ[y][band]


# ------------------------------------------------------------ geometry
def llh(r):
    e2 = FE*(2-FE)
    p = np.hypot(r[0], r[1])
    z = r[2]
    for _ in range(12):
        s = z/np.hypot(p, z)
        n = RE/np.sqrt(1-e2*s*s)
        z = r[2]+e2*n*s
    return np.array([np.arctan2(z, p), np.arctan2(r[1], r[0]),
                     np.hypot(p, z)-n])


def xyz(la, lo, h):
    e2 = FE*(2-FE)
    n = RE/np.sqrt(1-e2*np.sin(la)**2)
    return np.array([(n+h)*np.cos(la)*np.cos(lo), (n+h)*np.cos(la)*np.sin(lo),
                     (n*(1-e2)+h)*np.sin(la)])


def enu(pos):
    la, lo = pos[:2]
    e = np.array([-np.sin(lo), np.cos(lo), 0])
    u = np.array([np.cos(la)*np.cos(lo), np.cos(la)*np.sin(lo), np.sin(la)])
    return e, np.cross(u, e), u


def place(rr, az, el, R):
    """a satellite of orbital radius R in a direction"""
    e, n, u = enu(llh(rr))
    d = np.cos(el)*(np.sin(az)*e+np.cos(az)*n)+np.sin(el)*u
    b = rr@d
    return rr+(np.sqrt(b*b-rr@rr+R*R)-b)*d


def geom(rs, rr):
    """range with Earth rotation and relativistic delay, direction"""
    d = rs-rr
    r = np.sqrt(d@d)
    a, b = np.sqrt(rs@rs), np.sqrt(rr@rr)
    return (r+OMGE/C*(rs[0]*rr[1]-rs[1]*rr[0])
            + 2*GME/C**2*np.log((a+b+r)/(a+b-r)), d/r)


# --------------------------------------------------------- troposphere
NMF = [[1.2769934e-3, 2.9153695e-3, 62.610505e-3, 0., 0., 0.,
        5.8021897e-4, 1.4275268e-3, 4.3472961e-2],
       [1.2683230e-3, 2.9152299e-3, 62.837393e-3, 1.2709626e-5,
        2.1414979e-5, 9.0128400e-5, 5.6794847e-4, 1.5138625e-3, 4.6729510e-2],
       [1.2465397e-3, 2.9288445e-3, 63.721774e-3, 2.6523662e-5,
        3.0160779e-5, 4.3497037e-5, 5.8118019e-4, 1.4572752e-3, 4.3908931e-2],
       [1.2196049e-3, 2.9022565e-3, 63.824265e-3, 3.4000452e-5,
        7.2562722e-5, 84.795348e-5, 5.9727542e-4, 1.5007428e-3, 4.4626982e-2],
       [1.2045996e-3, 2.9024912e-3, 64.258455e-3, 4.1202191e-5,
        11.723375e-5, 170.37206e-5, 6.1641693e-4, 1.7599082e-3, 5.4736038e-2]]


def herring(s, a, b, c):
    return (1+a/(1+b/(1+c)))/(s+a/(s+b/(s+c)))


def interp(tab, lat):
    """rows at 15, 30, .. 75 degrees"""
    x = min(max(lat/15-1, 0), 4)
    i = min(int(x), 3)
    return np.array(tab[i])*(1-x+i)+np.array(tab[i+1])*(x-i)


def niell(doy, pos, el):
    k = interp(NMF, abs(np.rad2deg(pos[0])))
    y = np.cos(2*np.pi*((doy-28)/365.25+(.5 if pos[0] < 0 else 0)))
    s = np.sin(el)
    h = herring(s, *(k[0:3]-k[3:6]*y))
    h += (1/s-herring(s, 2.53e-5, 5.49e-3, 1.14e-3))*pos[2]*1e-3
    return h, herring(s, *k[6:9])


def saast(pos):
    p = 1013.25*(1-2.2557e-5*pos[2])**5.2568
    t = 288.16-6.5e-3*pos[2]
    e = .7*6.108*np.exp((17.15*t-4684.)/(t-38.45))
    return (.0022768*p/(1-.00266*np.cos(2*pos[0])-.28e-6*pos[2]),
            .002277*(1255/t+.05)*e)


MET = [[1013.25, 299.65, 26.31, 6.30e-3, 2.77, 0, 0, 0, 0, 0],
       [1017.25, 294.15, 21.79, 6.05e-3, 3.15, -3.75, 7., 8.85, .25e-3, .33],
       [1015.75, 283.15, 11.66, 5.58e-3, 2.57, -2.25, 11., 7.24, .32e-3, .46],
       [1011.75, 272.15, 6.78, 5.39e-3, 1.81, -1.75, 15., 5.36, .81e-3, .74],
       [1013.00, 263.65, 4.11, 4.53e-3, 1.55, -.5, 14.5, 3.39, .62e-3, .3]]


def mops(doy, pos):
    """zenith delays of the SBAS standard"""
    la = np.rad2deg(pos[0])
    k = interp(MET, abs(la))
    y = np.cos(2*np.pi*(doy-(28 if la >= 0 else 211))/365.25)
    p, t, e, b, m = k[:5]-k[5:]*y
    zh = 1e-6*77.604*287.054*p/9.784
    zw = 1e-6*382000*287.054/(9.784*(m+1)-b*287.054)*e/t
    q = 1-b*pos[2]/t
    g = 9.80665/287.054/b
    return zh*q**g, zw*q**((m+1)*g-1)


def zenith(model, doy, pos):
    if model == "SAAST":
        return saast(pos)
    if model == "SBAS":
        return mops(doy, pos)
    if model == "HOPF":
        k = 77.6e-6/5
        return (k*(148.98-613.3768/291.1)*1010.,
                k*11000*4810*10.4/291.1**2)
    return 0., 0.


def mapping(model, doy, pos, el):
    if model == "SAAST":
        return niell(doy, pos, el)
    if model == "SBAS":
        m = 1.001/np.sqrt(.002001+np.sin(el)**2)
        return m, m
    if model == "HOPF":
        d = np.rad2deg(el)
        return (1/np.sin(np.deg2rad(np.sqrt(d*d+6.25))),
                1/np.sin(np.deg2rad(np.sqrt(d*d+2.25))))
    return 0., 0.


# -------------------------------------------------------------- wind-up
def unit(v):
    return v/np.sqrt(v@v)


def windup(prev, rs, vs, rr, sun, full):
    k = unit(rr-rs)
    z = unit(-rs)
    s = unit(sun-rs) if full else unit(
        vs+np.array([-OMGE*rs[1], OMGE*rs[0], 0]))
    y = unit(np.cross(z, s))
    x = np.cross(y, z)
    e, n, _ = enu(llh(rr))
    # receiver axes as x east / y north, turned by the dipole definition
    d = x-k*(k@x)-np.cross(k, y)
    D = e-k*(k@e)+np.cross(k, n)
    c = max(-1., min(1., d@D/np.sqrt((d@d)*(D@D))))
    f = np.arccos(c)/(2*np.pi)
    if k@np.cross(d, D) < 0:
        f = -f
    return f+round(prev-f)


class Net(cssr):
    """corrections whose network part is given"""

    def setup(self, *g):     # network, dry, wet, contents
        self.g = g

    def find_grid_index(self, pos):
        return self.g[0]

    def get_dpos(self, pos):
        return 0., 0.

    def get_trop(self, dlat=0., dlon=0.):
        return self.g[1], self.g[2]

    def get_stec(self, dlat=0., dlon=0.):
        return self.g[3]


class Bsx:
    def __init__(self):
        self.v = {}

    def getosb(self, sat, t, sig):
        return self.v.get((sat, str(sig)), np.nan)


class Orbit:
    """stands for satposs"""
    rs = {}

    def __call__(self, obs, nav, cs=None, orb=None):
        n = len(obs.sat)
        rs, vs, dts = np.zeros((n, 3)), np.zeros((n, 3)), np.zeros(n)
        for i, s in enumerate(obs.sat):
            rs[i], vs[i], dts[i] = self.rs[int(s)]
        return rs, vs, dts, np.zeros(n, dtype=int), n


orbit = Orbit()
pppssr.satposs = orbit
rtk.satposs = orbit


REF = dict(MADOCA=dict(G="12", R="12", E="15", J="15"),
           HAS=dict(G="12", E="17"), BDS=dict(G="12", C="6"),
           PVS=dict(G="15", E="15"), CLAS={}, NONE={}, BSX={})
for _k in ("HASI", "IGS", "RTCM"):
    REF[_k] = dict(G="1", R="1", E="1", C="2", J="1")


def tx(s, b):
    return 40*(s//1000)+17*b+s % 1000 % 7


class Dut:
    def __init__(self, run, rng, cfg):
        self.run, self.rng, self.cfg = run, rng, cfg
        nf = cfg["nf"]
        conf = copy.deepcopy(default_config)
        conf["nav"].update(
            ephopt=4 if cfg["svc"] == "BSX" else 2, elmin=cfg["elmin"],
            trop_opt=cfg["trop"], iono_opt=cfg["iono"], phw_opt=cfg["phw"],
            trop_model=cfg["model"] if cfg["model"] != "NONE" else "",
            armode=cfg["armode"], parmode=cfg["par"], eratio=[50.]*nf,
            elmaskar=cfg["elar"], **{k: v*1e-3 for k, v in zip(
                ("sig_qp", "sig_qv", "sig_qztd", "sig_qion"), cfg["sg"])})
        nav = Nav(nf)
        nav.pmode = cfg["pmode"]
        self.rr = xyz(np.deg2rad(cfg["lat"]), np.deg2rad(cfg["lon"]),
                      cfg["hgt"])
        self.rb = self.rr+np.array([900., -700., 400.])
        nav.rb = self.rb.copy()
        self.t = nav.t = gpst2time(cfg["week"], cfg["tow"])
        st = self.rr+(np.array([7., -5., 6.]) if cfg["start"] else 0.)
        cls = rtk.rtkpos if cfg["rtk"] else ppprtk.ppprtkpos \
            if cfg["net"] else pppssr.pppos
        self.p = cls(nav, st, config=conf)
        nav.tidecorr = uTideModel.NONE
        nav.armode = cfg["armode"]
        nav.monlevel = 0
        for s in range(2001, 2028):
            nav.glo_ch[gn.sat(s)] = chan(s)
        self.nav = nav
        if cfg["rtk"]:
            nav.trop_opt = nav.iono_opt = nav.phw_opt = 0
            cfg = self.cfg = dict(cfg, trop=0, iono=0, phw=0)
        if cfg["rant"]:
            nav.rcv_ant, nav.rcv_ant_b = self.rx(0), self.rx(1)
        self.cs = None
        self.bsx = None
        if SVC[cfg["svc"]][0] is not None:
            self.cs = Net()
            self.cs.cssrmode = SVC[cfg["svc"]][0]
        if cfg["svc"] == "BSX":
            self.bsx = Bsx()
        self.wu = {}
        self.dt = 0

    def rx(self, base):
        a = pcv_t()
        a.zen = [0., 90., 5.]
        for y in "GRECJ":
            for g in SIG[y]:
                b = int(g[0][0])
                k = rSigRnx(y+"L"+g[0]).toAtt()
                a.off[k] = np.array([0., 0., 50+9*gn.SIDX[y]+5*b+11*base])
                a.var[k] = np.zeros(19)
        return a

    def tx(self, sats):
        q = []
        for s in sats:
            y = gn.LET[s//1000]
            a = pcv_t()
            a.sat = gn.sat(s)
            a.zen = [0., 17., 1.]
            for g in SIG[y]:
                k = rSigRnx(y+"L"+g[0]).toAtt()
                a.off[k] = np.array([0., 0., float(tx(s, int(g[0][0])))])
                a.var[k] = np.zeros(18)
            q.append(a)
        self.nav.sat_ant = q

    def obs(self, e, rr):
        """observations that exceed the geometric range by the given amounts"""
        cfg, nf = self.cfg, self.cfg["nf"]
        o = Obs()
        o.t = self.t
        o.sat = np.array([gn.sat(a["sat"]) for a in e["sats"]], dtype=int)
        n = len(o.sat)
        o.P, o.L, o.S, o.D = (np.zeros((n, nf)) for _ in range(4))
        o.S[:] = 45.
        o.lli = np.zeros((n, nf), dtype=int)
        for y in cfg["sys"]:
            o.sig[gn.SYS[y]] = {
                k: tuple(rSigRnx(y+c+x) for x in cfg["sigs"][y])
                for k, c in ((uTYP.C, "C"), (uTYP.L, "L"), (uTYP.S, "S"))}
        for i, a in enumerate(e["sats"]):
            rs, vs, dts = orbit.rs[int(o.sat[i])]
            r = geom(rs, rr)[0]-C*dts
            y = gn.LET[a["sat"]//1000]
            for f, g in enumerate(a["sig"]):
                o.P[i, f] = r+g["p"]*U
                o.L[i, f] = (r+g["v"]*U)/C*freq(a["sat"], cfg["sigs"][y][f][0])
        return o

    # ---------------------------------------------------------- scene
    def doy(self):
        t = datetime.datetime(1980, 1, 6)+datetime.timedelta(
            days=7*self.cfg["week"], seconds=self.cfg["tow"]+self.dt)
        return (t-datetime.datetime(t.year, 1, 1)).total_seconds()/86400+1

    def look(self, s, rr, dirs):
        """place a satellite; elevation, direction of the observer"""
        y = gn.LET[s//1000]
        rs = place(rr, dirs[0], dirs[1], 4.2164e7 if y == "J" else 2.6e7)
        _, d = geom(rs, rr)
        return rs, d, np.arcsin(d@enu(llh(rr))[2])

    def zd(self, e, dirs):
        """residuals of arbitrary observations at a given position"""
        run, nav, cfg = self.run, self.nav, self.cfg
        rr = self.rb if e["base"] else self.rr
        nav.rsun = sun = np.array(e.pop("sun"))
        pos, doy = llh(rr), self.doy()
        hs, wt = zenith(cfg["model"], doy, pos)
        dry, wet = e.pop("dry"), e.pop("wet")
        if cfg["trop"] == 2:
            h0, w0 = zenith(cfg["model"], doy, [pos[0], pos[1], 0.])
            hs, wt = dry*hs/h0, wet*wt/w0
        orbit.rs = {}
        new = {}
        for a in e["sats"]:
            s = a["sat"]
            for _ in range(50):
                rs, d, el = self.look(s, rr, dirs[s])
                w = unit(np.cross([.3, .5, 1.], rs))*3000.
                f = windup(self.wu.get(s, 0.), rs, w, rr, sun,
                           cfg["phw"] == 1)-self.wu.get(s, 0.)
                if abs(abs(f)-.5) > .02 and abs(
                        np.rad2deg(el)-cfg["elmin"]) > .05:
                    break
                dirs[s][0] += .05
            wu = self.wu.get(s, 0.)+(f if cfg["phw"] else 0.)
            new[s] = wu
            orbit.rs[gn.sat(s)] = rs, w, a.pop("dts")
            mh, mw = mapping(cfg["model"], doy, pos, el)
            a.update(el=int(np.floor(np.rad2deg(el)*10)),
                     trop=int(round((mh*hs+mw*wt)/U)),
                     sinel=int(round(1e4*np.sin(el))),
                     cosn=int(round(1e4*(unit(rs)@d))),
                     wu=int(round(1e4*wu)))
        self.tx([a["sat"] for a in e["sats"]])
        if self.cs is not None:
            self.load(e, dry, wet)
        if self.bsx is not None:
            self.bsx.v = {}
            for c in "CL":
                for x, n, v in e["cb" if c == "C" else "pb"]:
                    if v != NAN:
                        s = rSigRnx(gn.LET[x//1000]+c+self.name(x, n))
                        self.bsx.v[(gn.sat(x), str(s))] = v*U/(C*1e-9)
        nav.edt[:] = 0
        for a in e["sats"]:
            if a["edt"]:
                nav.edt[gn.sat(a["sat"])-1, self.rng.randrange(cfg["nf"])] = 1
        o = self.obs(e, rr)
        n = len(o.sat)
        q = [np.array([orbit.rs[int(s)][k] for s in o.sat]) for k in range(3)]
        st = rr.copy()
        r, exc = run.call(self.p.zdres, o, self.cs, self.bsx, q[0], q[1], q[2],
                          st, 0 if e["base"] else 1)
        out = {}
        if not exc:
            nf = cfg["nf"]
            out = dict(y=[[e["sats"][i]["sat"], f+1, cap(r[0][i, nf+f]),
                           cap(r[0][i, f])] for i in range(n)
                          for f in range(nf) if np.any(r[0][i])])
            # wind-up is followed while a satellite is used
            self.wu.update({y[0]: new[y[0]] for y in out["y"]})
        elif exc:
            exc = exc[:200]
        run.ev("zd", out=out, exc=exc, **e)

    # ------------------------------------------------------------- truth
    def world(self, sats):
        """satellites of a consistent world"""
        rng, cfg = self.rng, self.cfg
        nf = cfg["nf"]
        self.sky = {s: [rng.random()*360, rng.uniform(22, 85),
                        rng.uniform(-.2, .2), rng.uniform(-.1, .1)]
                    for s in sats}
        self.amb = [{s: [k*1000+rng.randint(1, 900) for _ in range(nf)]
                     for s in sats} for k in (2, -1)]
        self.ion = {s: rng.randint(5, 150) for s in sats}
        self.zw = rng.choice([0., rng.uniform(-.08, .08)]) \
            if cfg["trop"] == 1 else 0.
        self.g = Gen(rng, cfg)
        self.g.sats = list(sats)
        self.fl = [int(rng.random() < .9) for _ in range(4)]
        self.bias = {k: [r[:2]+[r[2]//6] for r in self.g.biases(k[0] == "p", 0)
                         if r[2] != NAN] for k in ("cb", "pb", "cbn", "pbn")}
        self.k = 0
        self.vel = rng.uniform(-1, 1)*np.array([.03, -.02, .01]) \
            if cfg["pmode"] else np.zeros(3)
        self.wu = {}
        if cfg["start"]:
            self.zw *= .2
            return
        # start at the truth
        nav = self.nav
        if cfg["trop"] == 1:
            nav.x[6 if cfg["pmode"] else 3] = self.zw
        for s in sats:
            i = gn.sat(s)-1
            y = gn.LET[s//1000]
            f0 = freq(s, cfg["sigs"][y][0][0])
            if cfg["iono"] == 1:
                self.p.initx(40.3e16/f0**2*self.ion[s]*.1, 100.,
                             nav.na-233+i)
            for f in range(nf):
                self.p.initx(float(self.amb[0][s][f]-(
                    self.amb[1][s][f] if cfg["rtk"] else 0)), 900.,
                    nav.na+233*f+i)

    def pick(self, rows, x, n):
        """bias of a signal: itself, alias, combined"""
        q = {r[1]: r[2] for r in rows if r[0] == x}
        if self.cfg["svc"] in ("HAS", "HASI") and n == 205 and x < 2000 \
                and 204 in q:
            n = 204
        return q.get(n, q.get(n//100*100, 0))*U

    def truth(self, sats, rr, base, clk, dry, wet, inet):
        """error-free observations"""
        cfg = self.cfg
        pos, doy = llh(rr), self.doy()
        hs, wt = zenith(cfg["model"], doy, pos)
        if cfg["trop"] == 2:
            h0, w0 = zenith(cfg["model"], doy, [pos[0], pos[1], 0.])
            hs, wt = dry*hs/h0, wet*wt/w0
        sgn = -1. if cfg["svc"] in ("CLAS", "BDS", "PVS", "BSX") else 1.
        q = []
        for s in sats:
            rs, w, _ = orbit.rs[gn.sat(s)]
            _, d = geom(rs, rr)
            el = np.arcsin(d@enu(pos)[2])
            mh, mw = mapping(cfg["model"], doy, pos, el)
            trop = mh*hs+mw*(wt+self.zw)
            wu = 0.
            if cfg["phw"]:
                wu = self.wu[s] = windup(self.wu.get(s, 0.), rs, w, rr,
                                         self.nav.rsun, cfg["phw"] == 1)
            y = gn.LET[s//1000]
            sig = []
            for f, g in enumerate(cfg["sigs"][y]):
                fr = freq(s, g[0])
                io = 40.3e16/fr**2*self.ion[s]*.1 \
                    if cfg["iono"] or cfg["rtk"] else 0.
                if cfg["iono"] == 2 and inet == 0:
                    io = 0.
                n = code(g)
                cb = pb = 0.
                if self.cs is not None:
                    if self.fl[0]:
                        cb += self.pick(self.bias["cb"], s, n)
                    if self.fl[1]:
                        pb += self.pick(self.bias["pb"], s, n)
                    if cfg["net"] and inet > 0:
                        cb += self.fl[2]*self.pick(self.bias["cbn"], s, n)
                        pb += self.fl[3]*self.pick(self.bias["pbn"], s, n)
                ant = 0.
                b = int(g[0])
                if cfg["rant"]:
                    ant -= (50+9*gn.SIDX[y]+5*b+11*base)*1e-3*np.sin(el)
                if cfg["svc"] not in ("NONE", "CLAS"):
                    ant -= (tx(s, b)*1e-3-self.txref(s))*(unit(rs)@d)
                sig.append(dict(
                    p=(trop+io-sgn*cb+ant+clk)/U,
                    v=(trop-io-sgn*pb+ant+clk+(
                        wu+self.amb[base][s][f])*C/fr)/U))
            q.append(dict(sat=s, sig=sig))
        return dict(sats=q)

    def txref(self, s):
        r = REF[self.cfg["svc"]].get(gn.LET[s//1000], "")
        v = [tx(s, int(b))*1e-3 for b in r]
        if len(v) < 2:
            return v[0] if v else 0.
        f = [9. if s//1000 == 2 and b == "1" else 7. if s//1000 == 2
             else freq(s, b) for b in r]
        return (f[0]**2*v[0]-f[1]**2*v[1])/(f[0]**2-f[1]**2)

    def sight(self, sats):
        orbit.rs = {}
        for s in sats:
            az, el, da, de = self.sky[s]
            rs = place(self.pos0, np.deg2rad(az+da*self.k),
                       np.deg2rad(el+de*self.k),
                       4.2164e7 if s > 5000 else 2.6e7)
            orbit.rs[gn.sat(s)] = (rs, unit(np.cross([.3, .5, 1.], rs))*3e3,
                                   1e-5*(s % 100))

    def advance(self, sats, dt=30):
        """observations of the next epoch"""
        cfg, rng = self.cfg, self.rng
        self.dt += dt
        self.k += 1
        self.t = timeadd(self.t, float(dt))
        self.pos0 = self.rr
        self.now = self.rr+self.vel*self.dt
        self.sight(sats)
        dry, wet = rng.uniform(2, 2.4), rng.uniform(.05, .3)
        inet = 5 if cfg["net"] else 0
        self.nav.rsun = np.array([1e11, 5e10, 2e10])
        self.nav.t_rsun = self.t
        if self.cs is not None:
            e = dict(inet=inet, fl=self.fl, sats=[
                dict(sat=s, net=1, stec=self.ion[s]) for s in sats],
                **self.bias)
            self.load(e, dry, wet)
        self.tx(sats)
        e = self.truth(sats, self.now, 0, rng.uniform(-3e4, 3e4), dry, wet,
                       inet)
        o = self.obs(e, self.now)
        ob = None
        if cfg["rtk"]:
            e = self.truth(sats, self.rb, 1, rng.uniform(-3e4, 3e4), dry,
                           wet, inet)
            ob = self.obs(e, self.rb)
        return o, ob

    def epo(self, sats):
        run, nav, cfg = self.run, self.nav, self.cfg
        o, ob = self.advance(sats)
        got = []
        old = self.p.resamb_lambda.__func__

        def capture(*a, **k):
            r = old(self.p, *a, **k)
            got[:] = [r]
            return r
        self.p.resamb_lambda = capture
        x0 = nav.x.copy()
        _, exc = run.call(self.p.process, o, self.cs, None, self.bsx, ob)
        del self.p.resamb_lambda
        out = {}
        if not exc:
            M, x = 233, nav.x
            err, wrong = [], 0
            N = {(s, f): self.amb[0][s][f]-(
                self.amb[1][s][f] if cfg["rtk"] else 0)
                for s in sats for f in range(cfg["nf"])}
            for y in cfg["sys"]:
                for f in range(cfg["nf"]):
                    g = [s for s in sats if gn.LET[s//1000] == y]
                    j = [nav.na+M*f+gn.sat(s)-1 for s in g]
                    v = [x[i]-N[s, f] for i, s in zip(j, g)]
                    err += [a-v[0] for a in v]
                    if got and nav.smode == 4:
                        v = [got[0][1][i]-N[s, f] for i, s in zip(j, g)
                             if nav.fix[gn.sat(s)-1, f] >= 2]
                        wrong += sum(abs(a-v[0]) > .5 for a in v)
            z = x[6 if cfg["pmode"] else 3]-self.zw if cfg["trop"] == 1 else 0
            out = dict(smode=toint(nav.smode),
                       pe=cap(np.linalg.norm(x[:3]-self.now)),
                       fe=cap(np.linalg.norm(nav.xa[:3]-self.now)),
                       ze=cap(abs(z)), ae=cap(max(map(abs, err), default=0)*.1),
                       wrong=int(wrong), moved=int(np.any(x[:3] != x0[:3])))
        run.ev("epo", nv=len(sats), list=list(sats), out=out, exc=exc[:200])
        return out

    def lin(self, sats):
        """design matrix against differences"""
        run, nav, cfg, rng = self.run, self.nav, self.cfg, self.rng
        o, ob = self.advance(sats)
        nav.edt[:] = 0
        n, nf = len(sats), cfg["nf"]
        x = nav.x.copy()
        x[:3] = self.now+np.array([rng.uniform(-.1, .1) for _ in range(3)])
        x[3:] = [rng.uniform(-1, 1) for _ in x[3:]]
        q = [np.array([orbit.rs[int(s)][k] for s in o.sat]) for k in range(3)]

        def model(x):
            y, e, el = self.p.zdres(o, self.cs, None, q[0], q[1], q[2],
                                    x[:3], 1)
            if ob is not None:
                yb, eb, _ = self.p.zdres(ob, None, None, q[0], q[1], q[2],
                                         self.rb, 0)
                y, e = np.vstack([y, yb]), np.vstack([e, eb])
            return self.p.sdres(o, x, y, e, o.sat, el)+(el,)
        r, exc = run.call(model, x)
        out = {}
        if not exc:
            v, H, R, el = r
            d = np.array([rng.uniform(-.1, .1) for _ in x])
            bad = np.max(np.abs(model(x+d)[0]-v+H@d), initial=0)
            out = dict(lin=cap(bad)//4, rows=len(v), cov=self.cov(R, sats, el))
        run.ev("lin", nf=nf, list=list(sats), out=out, exc=exc[:200])

    def cov(self, R, sats, el):
        nav, nf = self.nav, self.cfg["nf"]
        dia, off = [], []
        a, b = nav.err[1], nav.err[2]
        for y in self.cfg["sys"]:
            k = [i for i, s in enumerate(sats) if gn.LET[s//1000] == y]
            if not k:
                continue
            k.sort(key=lambda i: -el[i])
            for f in range(2*nf):
                w = 50. if f >= nf else 1.
                va = [w*w*(a*a+(b/np.sin(el[i]))**2) for i in k]
                dia += [va[0]+x for x in va[1:]]
                off += [va[0]]*((len(k)-1)*(len(k)-2))
        m = R-np.diag(np.diag(R))
        off = np.array(sorted(off))
        got = np.sort(m[m != 0])
        return int(R.shape[0] == len(dia) and np.allclose(R, R.T)
                   and np.allclose(np.sort(np.diag(R)), sorted(dia))
                   and len(off) == len(got) and np.allclose(off, got))

    def pred(self, sats, dt):
        """time propagation"""
        run, nav, cfg, rng = self.run, self.nav, self.cfg, self.rng
        o, ob = self.advance(sats, dt)
        nav.t = timeadd(self.t, -float(dt))
        nav.edt[:] = 0
        na, M = nav.na, 233
        k = na-(M if cfg["iono"] == 1 else 0)
        A = np.array([[rng.gauss(0, 1) for _ in range(k)] for _ in range(k)])
        nav.P[:] = 0
        nav.P[:k, :k] = A@A.T
        x = nav.x
        x[3:6] = [rng.uniform(-1, 1) for _ in range(3)]
        for s in sats:
            for i in [k+gn.sat(s)-1]*(cfg["iono"] == 1) + [
                    na+M*f+gn.sat(s)-1 for f in range(cfg["nf"])]:
                x[i] = 5.
                nav.P[i, i] = 2.
        F = np.eye(nav.nx)
        if cfg["pmode"]:
            F[:3, 3:6] = np.eye(3)*dt
        want = np.diag(F@nav.P@F.T).copy()
        pos = (F@x)[:3]
        _, exc = run.call(self.p.udstate, o)
        d = np.diag(nav.P)-want
        n = 6 if cfg["pmode"] else 3
        idx = [(i, 1+i//3) for i in range(n)]
        idx += [(n, 3)]*(cfg["trop"] == 1)
        if cfg["iono"] == 1:
            idx += [(k+gn.sat(s)-1, 4) for s in sats]
        run.ev("pred", dt=dt, sg=cfg["sg"], list=list(sats), exc=exc[:200],
               out=dict(rows=[[c, int(round(d[i]*1e6))] for i, c in idx],
                        pos=cap(np.max(np.abs(nav.x[:3]-pos)))))

    def fix(self, sats):
        """resolution of ambiguities that are close to their integers"""
        run, nav, cfg, rng = self.run, self.nav, self.cfg, self.rng
        nf, na, M = cfg["nf"], nav.na, 233
        x = nav.x
        x[:] = 0
        nav.vsat[:] = 0
        nav.el[:] = 0
        rows, idx = [], []
        seen = [s for s in sats if rng.random() < .9]
        for s in sats:
            i = gn.sat(s)-1
            hi = rng.random() < .8
            nav.el[i] = nav.elmaskar+(1 if hi else -1)*rng.uniform(.001, .3)
            for f in range(nf):
                v = rng.random() < .9
                nav.vsat[i, f] = v
                rows.append([s, f+1, 0, rng.randint(-2000, 2000),
                             int(hi and v and s in seen)])
                idx.append(na+M*f+i)
        n = len(idx)
        # errors of the pair differences are small, of the rest anything
        grp = [(r[0]//1000, r[1]) for r in rows]
        off = {g: rng.randint(-9000, 9000) for g in set(grp)}
        for r, g in zip(rows, grp):
            r[2] = 1000*r[3]+off[g]+rng.randint(-30, 30)
            r[2] += r[2] == 0
        x[idx] = [r[2]*1e-3 for r in rows]
        p0 = np.array([rng.uniform(-1, 1) for _ in range(3)])
        x[:3] = p0
        B = np.array([[rng.gauss(0, 1) for _ in range(n)]
                      for _ in range(n)])*.01/np.sqrt(n)
        Q = B@B.T+np.eye(n)*4e-4
        for g in off:            # common part of the group
            c = np.array([float(a == g) for a in grp])
            Q += 100.*np.outer(c, c)
        T = np.array([[rng.gauss(0, 1) for _ in range(n)] for _ in range(3)])
        Qx = T@Q
        nav.P[:] = 0
        nav.P[np.ix_(idx, idx)] = Q
        nav.P[np.ix_(range(3), idx)] = Qx
        nav.P[np.ix_(idx, range(3))] = Qx.T
        nav.P[:3, :3] = T@Q@T.T+np.eye(3)
        lst = np.array([gn.sat(s) for s in seen], dtype=int)
        rng.shuffle(lst)
        r, exc = run.call(self.p.resamb_lambda, lst, cfg["par"], .99)
        out = {}
        if not exc:
            D = []
            for g in off:
                k = [i for i in range(n) if grp[i] == g and rows[i][4]]
                D += [np.eye(n)[k[0]]-np.eye(n)[j] for j in k[1:]]
            out = dict(nb=toint(r[0]), x=[], pos=0)
            if D and r[0] > 0:
                D = np.array(D)
                w = D@np.array([a[2]*1e-3-a[3] for a in rows])
                xp = p0-Qx@D.T@np.linalg.solve(D@Q@D.T, w)
                out.update(x=[int(round(r[1][i]*1e3)) for i in idx],
                           pos=cap(np.max(np.abs(r[1][:3]-xp))))
        run.ev("fix", rows=rows, out=out, exc=exc[:200])

    def name(self, s, n):
        return NAME[n]

    def load(self, e, dry, wet):
        cs = self.cs
        cs.setup(e["inet"], dry, wet, np.array(
            [a["stec"]*.1 for a in e["sats"] if a["net"]]))
        for i, (k, fc, fp) in enumerate((("b", 0, 1), ("bn", 2, 3))):
            lc = cs.lc[0 if i == 0 else max(e["inet"], 1)]
            lc.cstat = (e["fl"][fc] << sCType.CBIAS) \
                | (e["fl"][fp] << sCType.PBIAS)
            for c, w in (("C", "cbias"), ("L", "pbias")):
                d = {}
                for x, n, v in e[c.lower().replace("l", "p")+k]:
                    g = rSigRnx(gn.LET[x//1000]+c+NAME[n])
                    if self.cfg["svc"] in ("HASI", "IGS", "RTCM"):
                        g = g.str()     # as of RTCM messages
                    d.setdefault(gn.sat(x), {})[g] = \
                        np.nan if v == NAN else v*U
                setattr(lc, w, d or self.rng.choice([None, {}]))
        if e["inet"] > 0:
            cs.lc[e["inet"]].sat_n = [gn.sat(a["sat"]) for a in e["sats"]
                                      if a["net"]]


def cap(v):
    v = float(v)
    return NAN if np.isnan(v) else int(np.clip(round(v/U), -2e9, 2e9))


class Gen:
    def __init__(self, rng, cfg):
        self.rng, self.cfg = rng, cfg
        pool = [gn.sid(s, p) for s in cfg["sys"] for p in (
            range(193, 200) if s == "J" else range(1, 28))]
        self.sats = rng.sample(pool, min(len(pool), rng.randint(3, 12)))
        self.dirs = {s: [rng.random()*6.28, np.deg2rad(
            rng.choice([rng.uniform(3, 89), cfg["elmin"]+rng.uniform(-1, 1)]))]
            for s in self.sats}

    def biases(self, ph, net):
        rng, cfg = self.rng, self.cfg
        rows = []
        for s in self.sats:
            if rng.random() < .1 and cfg["svc"] != "BSX":
                continue
            y = gn.LET[s//1000]
            done = set()
            for g in cfg["sigs"][y]:
                b = g[0]
                for n in {g, b+"X", b+rng.choice("CPQIW")}:
                    if cfg["svc"] == "BSX" and rng.random() < .97:
                        n = g
                    if rng.random() < .75 or cfg["svc"] == "BSX":
                        if not valid(y+"L"+n) or n in done:
                            continue
                        done.add(n)
                        rows.append([s, code(n), rng.choice(
                            [rng.randint(-20000, 20000)]*24+[NAN])])
        rng.shuffle(rows)
        return rows

    def zd(self, base=0):
        rng, cfg = self.rng, self.cfg
        sats = [s for s in self.sats if rng.random() < .9] or self.sats[:1]
        rng.shuffle(sats)
        inet = rng.choice([0, 2, 5, 5]) if cfg["net"] else 0
        for d in self.dirs.values():
            d[0] += 1e-3
        e = dict(base=base, inet=inet, sun=[
            rng.uniform(-1e11, 1e11), rng.choice([-1, 1])*1e11,
            rng.uniform(-4e10, 4e10)], dry=rng.uniform(1.8, 2.4),
            wet=rng.uniform(.02, .4),
            fl=[int(rng.random() < .9) for _ in range(4)],
            sats=[dict(sat=s, edt=int(rng.random() < .06),
                       net=int(rng.random() < .85), stec=rng.randint(-50, 300),
                       dts=rng.uniform(-1e-3, 1e-3), sig=[
                           dict(c=code(g), l=code(g),
                                p=rng.randint(500000, 1500000),
                                v=rng.randint(500000, 1500000))
                           for g in cfg["sigs"][gn.LET[s//1000]]])
                  for s in sats])
        for k, net in (("b", 0), ("bn", 1)):
            for c in "cp":
                e[c+k] = self.biases(c == "p", net)
        return e


def valid(c):
    try:
        return str(rSigRnx(c)) == c
    except Exception:
        return False


def config(rng, **kw):
    svc = kw.get("svc") or rng.choice(["CLAS"]*3+list(SVC))
    sys = sorted(rng.sample(SVC[svc][1], rng.randint(1, len(SVC[svc][1]))))
    nf = rng.choice([1, 2, 2, 3])
    if "R" in sys and nf == 3:
        nf = 2
    net = int(svc == "CLAS" and rng.random() < .8)
    if rng.random() < .2 and svc == "NONE":
        model = "NONE"
    else:
        model = rng.choice(["SAAST"]*3+["SBAS", "HOPF"])
    sigs = {}
    for y in sys:
        g = SIG[y][:]
        if rng.random() < .3 and y != "R":
            rng.shuffle(g)
        q = []
        for k in g[:nf]:
            q.append(rng.choice(k))
        sigs[y] = q
    c = dict(svc=svc, sys=sys, nf=nf, net=net, model=model, sigs=sigs,
             trop=2 if net and rng.random() < .7 else rng.choice([0, 1]),
             iono=2 if net else rng.choice([0, 1]), phw=rng.randrange(3),
             elmin=rng.choice([5, 10, 15]), elar=20, armode=0, par=1,
             rtk=0, sg=[10, 1000, 1, 10000], rant=int(rng.random() < .5), start=0, pmode=0, must=0,
             lat=rng.choice([-70, -35, -5, 8, 33, 47, 62, 80])+rng.random(),
             lon=rng.uniform(-180, 180), hgt=rng.uniform(-50, 3000),
             week=rng.choice([2200, 2300, 2310, 2325]),
             tow=rng.randrange(604800))
    c.update(kw)
    return c


def sky(rng, cfg, n):
    pool = [gn.sid(s, p) for s in cfg["sys"] for p in (
        range(193, 200) if s == "J" else range(1, 28))]
    q = rng.sample(pool, min(len(pool), n))
    rng.shuffle(q)
    return q


def main(run):
    rng = run.rng
    run.model_check("Pos_MC")
    for h in range(100 if run.quick else 1500):
        cfg = config(rng)
        run.hist(**cfg)
        d, g = Dut(run, rng, cfg), Gen(rng, cfg)
        for _ in range(rng.randint(2, 6)):
            d.zd(g.zd(), g.dirs)
    for h in range(60 if run.quick else 800):
        cfg = config(rng, svc=rng.choice(["NONE", "CLAS", "MADOCA"]),
                     net=0, trop=rng.randrange(2), iono=rng.randrange(2),
                     pmode=rng.randrange(2), par=rng.choice([1, 2]),
                     rtk=int(rng.random() < .3), sg=[
                         rng.randint(1, 90) for _ in range(4)])
        cfg = run_cfg(run, cfg)
        d = Dut(run, rng, cfg)
        q = sky(rng, d.cfg, rng.randint(3, 14))
        d.world(q)
        if rng.random() < .5 or cfg["rtk"]:
            d.lin(rng.sample(q, rng.randint(2, len(q))))
        d.pred(q, rng.randint(1, 60))
        for _ in range(3):
            d.fix(sky(rng, cfg, rng.randint(2, 12)))
    for h in range(40 if run.quick else 400):
        kind = rng.choice(["ppp", "rtk", "clas", "ssr"])
        kw = dict(svc="NONE", trop=rng.choice([0, 1]), iono=rng.choice([0, 1]))
        if kind == "clas":
            kw = dict(svc="CLAS", net=1, trop=2, iono=2)
        elif kind == "ssr":
            kw.update(svc=rng.choice(["MADOCA", "HAS", "IGS", "RTCM", "BDS",
                                      "PVS"]))
        elif kind == "rtk":
            kw.update(rtk=1, must=1)
        if kind != "ssr":
            kw.update(start=rng.choice([0, 0, 1]))
        cfg = config(rng, pmode=rng.randrange(2), armode=rng.choice([0, 1, 3])
                     if kind != "rtk" else rng.choice([1, 3]),
                     par=rng.choice([1, 2]), **kw)
        cfg["nf"] = 2
        cfg["sys"] = SVC[cfg["svc"]][1].replace("R", "")
        cfg["sigs"] = {y: [rng.choice(SIG[y][0]), rng.choice(SIG[y][1])]
                       for y in cfg["sys"]}
        cfg = run_cfg(run, cfg)
        d = Dut(run, rng, cfg)
        q = [gn.sid(y, p) for y in cfg["sys"] for p in rng.sample(
            range(193, 200) if y == "J" else range(1, 28), rng.randint(4, 6))]
        rng.shuffle(q)
        d.world(q)
        for k in range(rng.randint(3, 6)):
            n = rng.choice([len(q)]*6+[len(q)-1, 5])
            now = rng.sample(q, n)
            if cfg["start"] == 0 and n > 5:  # ambiguity anew when seen again
                q = now
            d.epo(now)
    run.validate("Pos_Trace")


def run_cfg(run, cfg):
    if cfg["rtk"]:
        cfg.update(trop=0, iono=0, phw=0)
    run.hist(**cfg)
    return cfg
