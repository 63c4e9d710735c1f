"""P23: precise products (SP3, RINEX clocks, Bias-SINEX, ANTEX, NGS)."""
import datetime
import math
import os
import gn
import numpy as np
from vlib import lsb, toint, NAN, BADTYPE, INEXACT
from cssrlib.gnss import (Nav, rSigRnx, rCST, gtime_t, timeadd, pos2ecef,
                          enu2xyz, uGNSS)
from cssrlib.peph import (peph, atxdec, biasdec, searchpcv, antModelRx,
                          antModelTx, apc2com)
from cssrlib.rinex import rnxdec

EP2000 = datetime.datetime(1980, 1, 6)+datetime.timedelta(weeks=2000)
C = rCST.CLIGHT
OM = rCST.OMGE
BANDS = dict(G=[1, 2, 5], R=[1, 2, 3], E=[1, 5, 6, 7, 8],
             C=[1, 2, 5, 6, 7, 8], J=[1, 2, 5, 6], S=[1, 5], I=[5, 9])


def date(sec):
    return EP2000+datetime.timedelta(seconds=sec)


def gt(T0, ms):
    """reference epoch (s since week 2000) + ms"""
    return gtime_t(gn.W2000+T0+ms//1000, (ms % 1000)*1e-3)


def ms(T0, t):
    return toint((t.time-gn.W2000-T0)*1000+round(t.sec*1000))


def pair(v, scale=1e-3, tol=5e-2):
    """metres -> [km, mm]"""
    try:
        v = float(v)
    except Exception:
        return [BADTYPE, 0]
    if math.isnan(v):
        return None
    q = v/scale
    r = round(q)
    if abs(q-r) > tol:
        return [INEXACT, int(r % 1000000)]
    return [r//1000000, r % 1000000]


def pos(v):
    r = [pair(x) for x in v[:3]]
    if all(x is None for x in r):
        return []
    return [x if x is not None else [NAN, 0] for x in r]


def cps(c, t):
    """clock in ps, between whole seconds rounded"""
    return lsb(c, 1e-12, 1e-2 if t % 1000 == 0 else .5)


def pw(std, unit, base):
    """exponent of a standard deviation"""
    if not std > 0:
        return -1
    k = math.log(float(std)/unit)/math.log(base)
    return round(k) if abs(k-round(k)) < 1e-6 else INEXACT


def sp3val(p):
    n = p[0]*1000000+p[1]
    s = f"{abs(n)//1000000}.{abs(n) % 1000000:06d}"
    return ("-"+s if n < 0 else s).rjust(14)


class Dut:
    def __init__(self, run, T0=0):
        self.run, self.T0 = run, T0
        run.hist(x=0)
        self.nav = Nav()
        self.sp = peph()
        self.rnx = rnxdec()
        self.b = biasdec()
        self.a = atxdec()
        self.base = (2.0, 2.0)

    def fn(self, n):
        return os.path.join(self.run.tmp, n)

    # --- SP3
    def table(self):
        rows = []
        for p in self.nav.peph:
            t = ms(self.T0, p.time)
            for i in range(uGNSS.MAXSAT):
                q = pos(p.pos[i])
                c = lsb(p.pos[i, 3], 1e-12, 1e-2)
                sx = pw(np.max(p.std[i, :3]), 1e-3, self.base[0])
                sc = pw(p.std[i, 3], 1e-12, self.base[1])
                if q or c != NAN or sx != -1 or sc != -1:
                    rows.append([t, gn.unsat(i+1), q, c, sx, sc])
        return rows

    def sp3(self, e, hdr):
        run, rng = self.run, self.run.rng
        sats = hdr["sats"]
        d = date(self.T0+e["eps"][0]["t"]//1000 if e["eps"] else self.T0)
        L = [f"#{rng.choice('cd')}{hdr['pv']}{d:%Y} {d.month:2d} {d.day:2d} "
             f"{d.hour:2d} {d.minute:2d} {d.second:11.8f} "
             f"{len(e['eps']):7d} d+D   IGb14 FIT AIUB"]
        L.append("## 2176 259200.00000000   300.00000000 59479 "
                 "0.0000000000000")
        n = max(5, -(-len(sats)//17))
        nm = sats+["  0"]*(n*17-len(sats))
        ac = hdr["acc"]+[0]*(n*17-len(sats))
        for i in range(n):
            L.append(("+  %3d   " % len(sats) if i == 0 else "+        ")
                     + "".join(nm[i*17:i*17+17]))
        for i in range(n):
            L.append("++       "+"".join("%3d" % x
                                         for x in ac[i*17:i*17+17]))
        b = e["base"]
        L += ["%c M  cc GPS ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc",
              "%c cc cc ccc ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc",
              f"%f {b[0]:10.7f} {b[1]:12.9f}  0.00000000000  "
              "0.000000000000000",
              "%f  0.0000000  0.000000000  0.00000000000  0.000000000000000",
              "%i    0    0    0    0      0      0      0      0         0",
              "%i    0    0    0    0      0      0      0      0         0"]
        L += ["/* comment", "/* PCV:IGS14 +  12"]*rng.randint(1, 3)
        for ep in e["eps"]:
            d = date(self.T0+ep["t"]//1000)
            L.append(f"*  {d:%Y} {d.month:2d} {d.day:2d} {d.hour:2d} "
                     f"{d.minute:2d} {d.second:11.8f}")
            R = {hdr["name"][r["s"]] if r["s"] else r["n"]: r
                 for r in ep["rows"]}
            for w in sats:
                r = R.get(w)
                z = [sp3val([0, 0])]*3
                if r is None:
                    r = dict(p=[], c=NAN, sx=-1, sc=-1, po=False, pc=False)
                    z = ["999999.999999".rjust(14)]*3
                if r["p"]:
                    z = [sp3val(p) for p in r["p"]]
                elif r.get("bad"):
                    z = ["999999.999999".rjust(14)]*3
                c = " 999999.999999" if r["c"] == NAN else \
                    f"{r['c']*1e-6:14.6f}"
                s = f"P{w}"+"".join(z)+c
                x = r["sx"]
                m = rng.randrange(3)
                sd = "".join(" %2s" % (x if j == m and x >= 0 else "")
                             for j in range(3))
                sd += " %3s" % (r["sc"] if r["sc"] >= 0 else "")
                s += sd+f" {rng.choice(' E')}{' P'[r['pc']]}  " \
                        f"{rng.choice(' M')}{' P'[r['po']]}"
                L.append(s.rstrip() if rng.random() < .5 else s)
                if hdr["ep"]:
                    L.append("EP  55   55   55     222 1234567 -1234567 "
                             "5999999      -30       21 -1230000")
                if hdr["pv"] == "V":
                    L.append(f"V{w}"+"".join(f"{rng.uniform(-3e4, 3e4):14.6f}"
                                             for _ in range(4)))
                    if hdr["ep"]:
                        L.append("EV  22   22   22     111 1234567 1234567 "
                                 "1234567")
        L.append("EOF")
        with open(self.fn("a.sp3"), "w") as f:
            f.write("\n".join(L)+"\n")
        self.base = tuple(float(x) if x else 2.0 for x in e["base"])

        def go():
            self.nav.peph, self.nav.ne = [], 0
            self.sp = peph()
            self.sp.parse_sp3(self.fn("a.sp3"), self.nav, e["opt"])
            return dict(ts=[ms(self.T0, p.time) for p in self.nav.peph],
                        rows=self.table(),
                        acc=[toint(x) for x in self.sp.acc])
        o, exc = run.call(go)
        ev = {k: v for k, v in e.items() if k != "op"}
        run.ev("sp3", out=o if not exc else {}, exc=exc, **ev)
        return not exc

    def rewrite(self, sats):
        def go():
            self.sp.write_sp3(self.fn("b.sp3"), self.nav,
                              [gn.sat(s) for s in sats])
            self.nav.peph, self.nav.ne = [], 0
            self.sp = peph()
            self.sp.parse_sp3(self.fn("b.sp3"), self.nav)
            self.base = (1.25, 1.025)
            return dict(ts=[ms(self.T0, p.time) for p in self.nav.peph],
                        rows=self.table())
        o, exc = self.run.call(go)
        self.run.ev("rewrite", out=o if not exc else {}, exc=exc, sats=sats)
        return not exc

    # --- RINEX clocks
    def clk(self, e):
        rng, run = self.run.rng, self.run
        new = rng.random() < .5
        ver = rng.choice(["3.04", "3.05"]) if new else \
            rng.choice(["3.00", "3.02", "2.00"])
        L = [f"{ver:>9}"+" "*11+f"{'C':20}{'M':20}RINEX VERSION / TYPE"]
        L.append(f"{'':60}END OF HEADER")
        for ep in e["eps"]:
            d = date(self.T0+ep["t"]//1000)
            rec = [("AS", gn.name(r["s"]) if r["s"] else r["n"], r)
                   for r in ep["rows"]]
            rec += [("AR", x, dict(c=rng.randrange(10**6), sc=2))
                    for x in ("AREQ", "G01 ") if rng.random() < .5]
            rng.shuffle(rec)
            for k, nm, r in rec:
                s = f"{k} {nm:9}" if new else f"{k} {nm:4}"
                s += f" {d:%Y} {d:%m} {d:%d} {d:%H} {d:%M}{d.second:10.6f}"
                n = 2 if r["sc"] >= 0 else 1
                s += f"{n:3d}   {r['c']*1e-12:19.12E}"
                if n == 2:
                    s += f" {2.0**r['sc']*1e-12:19.12E}"
                L.append(s)
        with open(self.fn("a.clk"), "w") as f:
            f.write("\n".join(L)+"\n")

        def go():
            self.rnx.decode_clk(self.fn("a.clk"), self.nav)
            rows = []
            for p in self.nav.pclk:
                for i in range(uGNSS.MAXSAT):
                    if p.clk[i] != 0 or p.std[i] != 0:
                        rows.append([ms(self.T0, p.time), gn.unsat(i+1),
                                     lsb(p.clk[i], 1e-12, 1e-2),
                                     pw(p.std[i], 1e-12, 2.0)])
            return dict(ts=[ms(self.T0, p.time) for p in self.nav.pclk],
                        rows=rows)
        o, exc = run.call(go)
        run.ev("clk", out=o if not exc else {}, exc=exc, eps=e["eps"])
        return not exc

    # --- lookups
    def inert(self, r, t):
        """ECEF -> frame that coincides with ECEF at the reference epoch"""
        a = OM*t*1e-3
        c, s = math.cos(a), math.sin(a)
        return np.array([c*r[0]-s*r[1], s*r[0]+c*r[1], r[2]])

    def pq(self, r, t):
        p = pos(r)
        q = [lsb(x, 1.0, 0.25) for x in self.inert(r, t)]
        return p, q

    @staticmethod
    def sd(v, unit):
        if v is False or v is None or not v >= 0:
            return NAN
        return toint(round(math.sqrt(v)/unit))

    def posq(self, e):
        t = gt(self.T0, e["t"])

        def go():
            rs, dts, ve, vc = self.sp.pephpos(t, gn.sat(e["s"]), self.nav,
                                              True, True)
            if rs is None or np.isnan(rs).any():
                return dict(ok=False)
            p, q = self.pq(rs, e["t"])
            return dict(ok=True, p=p, q=q, c=cps(dts[0], e["t"]),
                        sx=self.sd(ve, .25e-6), sc=self.sd(vc, 1e-9))
        o, exc = self.run.call(go)
        self.run.ev("posq", out=o if not exc else {}, exc=exc, s=e["s"],
                    t=e["t"])

    def clkq(self, e):
        t = gt(self.T0, e["t"])

        def go():
            dts, vc = self.sp.pephclk(t, gn.sat(e["s"]), self.nav, True)
            if dts is None or np.isnan(dts[0]):
                return dict(ok=False)
            return dict(ok=True, c=cps(dts[0], e["t"]),
                        sc=self.sd(vc, 1e-9))
        o, exc = self.run.call(go)
        self.run.ev("clkq", out=o if not exc else {}, exc=exc, s=e["s"],
                    t=e["t"])

    def satq(self, e):
        t = gt(self.T0, e["t"])

        def go():
            rs, dts, var = self.sp.peph2pos(t, gn.sat(e["s"]), self.nav)
            if rs is None or np.isnan(rs).any():
                return dict(ok=False)
            p, q = self.pq(rs, e["t"])
            v = self.inert(rs[3:6], e["t"])
            r = self.inert(rs[0:3], e["t"])
            v = v+np.array([-OM*r[1], OM*r[0], 0.0])
            rel = -2.0*float(rs[0:3]@rs[3:6])/C**2
            far = bool(abs(rel) > 1e-4 or np.linalg.norm(rs[0:3]) > 1e8)
            return dict(ok=True, p=p, q=q, far=far,
                        v=[lsb(x, 1.0, 0.05) for x in v],
                        c=cps(dts[0]-rel, e["t"]),
                        cr=lsb(dts[1], 1e-12, 5e-2))
        o, exc = self.run.call(go)
        self.run.ev("satq", out=o if not exc else {}, exc=exc, s=e["s"],
                    t=e["t"])

    # --- biases
    def bia(self, e):
        rng = self.run.rng

        def tm(t):
            if t[0] < 0:
                return "0000:000:00000"
            d = date(t[0]*86400+t[1])
            return f"{d.year:04d}:{d:%j}:{t[1]:05d}"
        L = ["%=BIA 1.00 COD 2021:274:20070 COD 2021:265:00000",
             "+FILE/REFERENCE", " DESCRIPTION  OSB of CODE",
             "-FILE/REFERENCE", "+BIAS/SOLUTION",
             "*BIAS SVN_ PRN STATION__ OBS1 OBS2 BIAS_START____"]
        for b in e["rows"]:
            nm = gn.name(b["s"]) if b["s"] else b["n"]+"  "
            svn = f"{nm[0]}063" if b["s"] else nm[0]+"   "
            u = "cyc" if b["k"] == "DSB" and b["g1"][0] == "L" else "ns"
            L.append(f" {b['k']}  {svn} {nm} {b['site']:9} "
                     f"{b['g1']:4} {b['g2']:4} {tm(b['ts'])} {tm(b['te'])} "
                     f"{u:4} {b['v']*1e-4:21.4f} {b['sd']*1e-4:11.4f}"
                     + (f" {0.1:21.4f} {0.2:11.4f}" if rng.random() < .2
                        else ""))
        L += ["-BIAS/SOLUTION",
              " OSB  G063 G01           C1C       2021:265:00000 "
              "2021:266:00000 ns                 99.0000      0.0062",
              "%=ENDBIA"]
        with open(self.fn("a.bia"), "w") as f:
            f.write("\n".join(L)+"\n")

        def go():
            self.b = biasdec()
            r = self.b.parse(self.fn("a.bia"), e["site"] or None)
            if r is not None:
                return dict(osb=-1, dsb=-1)
            return dict(osb=len(self.b.osb), dsb=len(self.b.dcb))
        o, exc = self.run.call(go)
        self.run.ev("bia", out=o if not exc else {}, exc=exc,
                    rows=e["rows"], site=e["site"])
        return not exc

    @staticmethod
    def day(t):
        return gtime_t(gn.W2000+t[0]*86400+t[1], 0.0)

    def osbq(self, e):
        g = rSigRnx(gn.SYS[gn.LET[e["s"]//1000]], e["g"])

        def go():
            a = (gn.sat(e["s"]), self.day(e["t"]), g)
            return dict(v=lsb(self.b.getosb(*a), 1e-4),
                        sd=lsb(self.b.getosbstd(*a), 1e-4))
        o, exc = self.run.call(go)
        self.run.ev("osbq", out=o if not exc else {}, exc=exc, s=e["s"],
                    t=e["t"], g=e["g"])

    def dsbq(self, e):
        g = rSigRnx(gn.SYS[gn.LET[e["s"]//1000]], e["g"])

        def go():
            v, sd, c = self.b.getdcb(gn.sat(e["s"]), self.day(e["t"]), g)
            if v is None:
                return dict(v=NAN, sd=NAN, g="")
            return dict(v=lsb(v, 1e-4), sd=lsb(sd, 1e-4), g=c.str())
        o, exc = self.run.call(go)
        self.run.ev("dsbq", out=o if not exc else {}, exc=exc, s=e["s"],
                    t=e["t"], g=e["g"])

    # --- antennas
    def atx(self, e, ngs=False):
        rng = self.run.rng
        L = []

        def add(txt, lab):
            L.append(f"{txt:60}{lab}")

        def tm(t, end):
            d = date(t[0]*86400+t[1])
            s = d.second
            if end:       # 1E-7 s before the next second
                return f"{d.year:6d}{d.month:6d}{d.day:6d}{d.hour:6d}" \
                       f"{d.minute:6d}{s+.9999999:13.7f}"
            return f"{d.year:6d}{d.month:6d}{d.day:6d}{d.hour:6d}" \
                   f"{d.minute:6d}{s:13.7f}"
        add("     1.4            M", "ANTEX VERSION / SYST")
        add("A", "PCV TYPE / REFANT")
        add(" Test file with START OF ANTENNA", "COMMENT")
        add("", "END OF HEADER")
        for a in e["ants"]:
            add("", "START OF ANTENNA")
            cod = gn.name(a["s"]) if a["s"] else a["ser"]
            add(f"{a['type']:20}{cod:20}"
                + ("G063      2011-036A" if a["s"] else ""),
                "TYPE / SERIAL NO")
            add("ROBOT               Geo++ GmbH             100    29-JAN-17",
                "METH / BY / # / DATE")
            add("     5.0", "DAZI")
            add("".join("%8.1f"[:2]+"" if 0 else f"{x/2:6.1f}"
                        for x in [a["z"][0]])
                .rjust(8)+f"{a['z'][1]/2:6.1f}{a['z'][2]/2:6.1f}",
                "ZEN1 / ZEN2 / DZEN")
            add(f"{len(a['fr']):6d}", "# OF FREQUENCIES")
            if a["ts"][0] >= 0:
                add(tm(a["ts"], False), "VALID FROM")
            if a["te"][0] >= 0:
                add(tm(a["te"], True), "VALID UNTIL")
            add("IGS14_2247", "SINEX CODE")
            for y, b, neu, v in a["fr"]:
                f = f"   {gn.LET[y]}{b:02d}"
                add(f, "START OF FREQUENCY")
                add("".join(f"{x*.005:10.2f}" for x in neu),
                    "NORTH / EAST / UP")
                L.append("   NOAZI"+"".join(f"{x*.005:8.2f}" for x in v))
                for az in range(rng.choice([0, 0, 2])):
                    L.append(f"{az*5.0:8.1f}"+"".join(f"{9.99:8.2f}"
                                                      for x in v))
                add(f, "END OF FREQUENCY")
            if rng.random() < .3:
                f = f"   {gn.LET[a['fr'][0][0]]}{a['fr'][0][1]:02d}"
                add(f, "START OF FREQ RMS")
                add("".join(f"{x:10.2f}" for x in (7, 8, 9)),
                    "NORTH / EAST / UP")
                L.append("   NOAZI"+"".join(f"{9:8.2f}"
                                            for x in a["fr"][0][3]))
                add(f, "END OF FREQ RMS")
            add("", "END OF ANTENNA")
        if ngs:
            L = [f"{'':61}| ANTENNA ID", f"{'':61}| north east up"]
            for a in e["ants"]:
                L.append(f"{a['type']:20} test {'':12}NGS (  2) 03/01/01")
                for k in range(2):
                    _, _, neu, v = a["fr"][k]
                    L.append("".join(f"{x*.005:10.2f}" for x in neu))
                    L.append("".join(f"{x*.005:6.2f}" for x in v[:10]))
                    L.append("".join(f"{x*.005:6.2f}" for x in v[10:19]))
        with open(self.fn("a.atx"), "w") as f:
            f.write("\n".join(L)+"\n")

        def show(A):
            r, off, var = [], [], []
            for i, a in enumerate(A):
                r.append([gn.unsat(a.sat) if a.sat is not None else 0,
                          a.type.strip(),
                          [toint(round(x*2)) for x in a.zen]])
                for D, o in ((a.off, off), (a.var, var)):
                    for g, v in D.items():
                        if g.sys == uGNSS.NONE:
                            continue
                        y = next(gn.SIDX[k] for k in gn.SYS
                                 if gn.SYS[k] == g.sys)
                        assert g.str()[0] == "L"
                        o.append([i+1, y, int(g.str()[1:]),
                                  [lsb(x, .005, 1e-4) for x in v]])
            return r, off, var

        def go():
            self.a = atxdec()
            if ngs:
                self.a.readngspcv(self.fn("a.atx"))
            else:
                self.a.readpcv(self.fn("a.atx"), e["only"])
            rx, ro, rv = show(self.a.pcvr)
            tx, to, tv = show(self.a.pcvs)
            return dict(rx=rx, tx=tx, rxoff=ro, rxvar=rv, txoff=to,
                        txvar=tv)
        o, exc = self.run.call(go)
        self.ids = ([a["id"] for a in e["ants"] if a["s"] == 0],
                    [a["id"] for a in e["ants"] if a["s"]])
        self.run.ev("atx", out=o if not exc else {}, exc=exc,
                    ants=e["ants"], only=e["only"])
        return not exc

    def find(self, e):
        def go():
            A, ids = (self.a.pcvr, self.ids[0]) if e["s"] == 0 else \
                (self.a.pcvs, self.ids[1])
            nm = f"{e['type']:20}" if e["s"] == 0 else gn.sat(e["s"])
            r = searchpcv(A, nm, self.day(e["t"]))
            return dict(id=0 if r is None else
                        ids[next(i for i, a in enumerate(A) if a is r)])
        o, exc = self.run.call(go)
        self.run.ev("find", out=o if not exc else {}, exc=exc, s=e["s"],
                    type=e["type"], t=e["t"])

    def rxq(self, e, base):
        rng = self.run.rng
        rr = np.array(pos2ecef(np.array([rng.uniform(-1.5, 1.5),
                                         rng.uniform(-3.1, 3.1), 100.0])))
        za = math.radians(e["za"]/4)
        az = rng.uniform(0, 6.28)
        if e["dir"] in (1, 2):
            az = math.pi/2 if e["dir"] == 1 else 0.0
        enu = np.array([math.sin(az)*math.sin(za), math.cos(az)*math.sin(za),
                        math.cos(za)])
        ev = enu2xyz(rr)@enu

        def go():
            r = searchpcv(self.a.pcvr, f"{e['type']:20}", self.day(e["t"]))
            if base:
                self.nav.rcv_ant_b = r
            else:
                self.nav.rcv_ant = r
            d = antModelRx(self.nav, rr, ev,
                           [self.sig(g, rng) for g in e["sigs"]],
                           0 if base else 1)
            return dict(d=[lsb(x, 5e-6, 3e-2) for x in d])
        o, exc = self.run.call(go)
        self.run.ev("rxq", out=o if not exc else {}, exc=exc, **e)

    @staticmethod
    def sig(g, rng):
        y, b = g
        s = gn.SYS[gn.LET[y]]
        att = {("G", 2): "W", ("G", 5): "Q", ("R", 3): "Q", ("E", 1): "C",
               ("C", 1): "P", ("C", 2): "I", ("I", 5): "A",
               ("I", 9): "A", ("J", 6): "L", ("J", 2): "L",
               ("C", 8): "D"}.get(
            (gn.LET[y], b), "C" if b <= 2 or gn.LET[y] == "E" and b == 6
            else "I" if b != 5 or gn.LET[y] != "C" else "D")
        return rSigRnx(s, f"{rng.choice('CL')}{b}{att}")

    def geom(self, e):
        """satellite, receiver direction under nadir angle za"""
        rng = self.run.rng
        u = np.array([rng.uniform(-1, 1) for _ in range(3)])
        rs = u/np.linalg.norm(u)*26.5e6
        ez = -rs/np.linalg.norm(rs)
        h = np.cross(ez, [0.3, 0.5, 0.8])
        h /= np.linalg.norm(h)
        za = math.radians(e["za"]/4)
        return rs, -(math.cos(za)*ez+math.sin(za)*h)

    def txq(self, e):
        rng = self.run.rng
        rs, los = self.geom(e)
        t = self.day(e["t"])
        self.nav.rsun = np.array([1.2e11, 0.7e11, 0.3e11])

        def go():
            self.nav.sat_ant = self.a.pcvs
            ref = [self.sig(g, rng) for g in e["ref"]] or None
            self.nav.glo_ch = {gn.sat(e["s"]): 0}
            d = antModelTx(self.nav, los,
                           [self.sig(g, rng) for g in e["sigs"]],
                           gn.sat(e["s"]), t, rs, ref)
            if d is None:
                return dict(ok=False, d=[])
            return dict(ok=True, d=[lsb(x, 5e-6/e["den"], .5 if e["den"] > 1 else 3e-2) for x in d])
        o, exc = self.run.call(go)
        self.run.ev("txq", out=o if not exc else {}, exc=exc, **e)

    def comq(self, e):
        rng = self.run.rng
        rs, _ = self.geom(dict(za=0))
        t = self.day(e["t"])

        def go():
            self.nav.sat_ant = self.a.pcvs
            dr = apc2com(self.nav, gn.sat(e["s"]), t, rs,
                         [self.sig(g, rng) for g in e["ref"]], 0)
            if dr is None:
                return dict(ok=False, r=0)
            ez = -rs/np.linalg.norm(rs)
            return dict(ok=True, r=lsb(dr@ez, 5e-6/e["den"], 3e-2))
        o, exc = self.run.call(go)
        self.run.ev("comq", out=o if not exc else {}, exc=exc, **e)


# ------------------------------ generators -------------------------------
SATS = ["G01", "G32", "R01", "R27", "E01", "E36", "C01", "C46", "C63",
        "J01", "J07", "S20", "I03"]


def nid(w):
    y = w[0]
    return gn.sid(y, int(w[1:])+dict(J=192, S=100).get(y, 0))


def orbit(rng, step, n, quick):
    """an SP3 table -> (event, header)"""
    sats = rng.sample(SATS, rng.randint(1, 4))
    if rng.random() < .3:
        sats += rng.sample(["G%02d" % k for k in range(2, 30)],
                           rng.choice([13, 14, 17]))
    if rng.random() < .25:
        sats.insert(rng.randrange(len(sats)+1), rng.choice(["L03", "X01"]))
    name = {nid(w): w for w in sats if w[0] in gn.SIDX}
    lin = []
    real = [w for w in sats if w[0] in gn.SIDX]
    mode = {}
    for w in real:
        mode[w] = rng.choice(["line", "line", "jump", "raw"])
        for k in (1, 2):
            lin.append([nid(w), k,
                        [rng.randrange(-15000000, 15000000)+10000000
                         for _ in range(3)],
                        [rng.randrange(-2000, 2000) for _ in range(3)]])
    L = {(x[0], x[1]): x for x in lin}
    jump = {w: rng.randrange(n+1) for w in real}
    base = rng.choice([[2, 2], [2, 2], [0, 2], [2, 0]])
    gap = {w: set(rng.sample(range(n), min(n, rng.choice([0, 0, 0, 1, 1, 2,
                                                          n]))))
           for w in real}
    nosd = rng.random() < .3
    usepred = rng.random() < .4
    np_ = rng.randrange(n+1) if rng.random() < .7 else n
    eps = []
    for i in range(n):
        t = i*step
        rows = []
        for w in sats:
            r = dict(k=0, p=[], c=NAN, sx=-1, sc=-1, po=False, pc=False)
            if w not in mode:
                r.update(s=0, n=w, p=[[1, 1], [2, 2], [3, 3]], c=100)
                rows.append(r)
                continue
            s = nid(w)
            r["s"] = s
            if usepred:
                r["po"] = i >= np_
                r["pc"] = i >= np_ if rng.random() < .9 else \
                    rng.random() < .5
            if not nosd:
                r["sx"] = rng.choice([-1, 1, 3, 7, 10])
                r["sc"] = rng.choice([-1, 1, 5, 10])
            if rng.random() < .95:
                r["c"] = 12*step*rng.randrange(-170, 170)
                if r["c"] == 0:
                    r["c"] = 12*step
            if i in gap[w]:
                x = rng.random()
                if x < .3:
                    r["p"] = [[0, 0]]*3
                elif x < .5:
                    r["bad"] = True
                elif x < .7:
                    r["c"] = NAN
                    r["p"] = [[0, 0]]*3
                else:
                    r["bad"], r["c"] = True, NAN
                rows.append(r)
                continue
            if mode[w] == "raw":
                r["p"] = [[rng.randrange(-42000, 42000),
                           rng.randrange(1000000)] for _ in range(3)]
            else:
                k = 1 if mode[w] == "line" or i < jump[w] else 2
                q = L[s, k]
                v = [a+b*t for a, b in zip(q[2], q[3])]
                a = OM*t
                c, sn = math.cos(a), math.sin(a)
                r["p"] = [pair(round(x, 3)) for x in
                          (c*v[0]+sn*v[1], -sn*v[0]+c*v[1], v[2])]
                r["k"] = k
            rows.append(r)
        eps.append(dict(t=t*1000, rows=rows))
    pv = "V" if rng.random() < .25 else "P"
    acc = [rng.randrange(0, 16) for _ in sats]
    hdr = dict(sats=sats, name=name, pv=pv, ep=rng.random() < .2, acc=acc)
    e = dict(op="sp3", opt=rng.choice([0, 0, 0, 1, 2]) if usepred else 0,
             base=base, lin=lin, eps=eps, acc=acc)
    return e, hdr


def clocks(rng, step, n, sats):
    eps = []
    for i in range(n):
        rows = [dict(s=s, c=12*step*rng.choice([-1, 1])*rng.randrange(1, 170),
                     sc=rng.choice([-1, 1, 5, 10]))
                for s in sats if rng.random() < .95]
        if rng.random() < .2:
            rows.append(dict(s=0, n="L03", c=5, sc=-1))
        if not rows:
            rows = [dict(s=sats[0], c=12*step, sc=2)]
        eps.append(dict(t=i*step*1000, rows=rows))
    return dict(op="clk", eps=eps)


def query_time(rng, step, n):
    last = (n-1)*step*1000
    return rng.choice([
        rng.randrange(n)*step*1000, rng.randrange(n)*step*1000,
        rng.randrange(last//1000+1)*1000, rng.randrange(last//1000+1)*1000,
        -900000, -900001, -899999, last+900000, last+900001, last+899999,
        last+899000, 0, last, -rng.randrange(900)*1000,
        last+rng.randrange(900)*1000])


OBS = dict(G=["C1C", "C1W", "C2W", "C5Q", "L1C", "L2W"],
           R=["C1C", "C1P", "C2P"], E=["C1C", "C5Q", "L1C"],
           C=["C2I", "C6I"], J=["C1C", "C2L"], I=["C5A"])


def biases(rng, d0):
    pool = [nid(w) for w in rng.sample([w for w in SATS if w[0] != "S"], 3)]
    sites = ["ABMF", "ZIM200CHE"]
    cut = sorted(rng.sample(range(0, 4*86400, 30), 4))
    cut = [[d0+c//86400, c % 86400] for c in cut]
    rows = []
    for _ in range(rng.randint(1, 40)):
        y = gn.LET[rng.choice(pool)//1000]
        s = rng.choice([x for x in pool if gn.LET[x//1000] == y])
        k = rng.choice(["OSB", "OSB", "DSB"])
        a, b = sorted(rng.sample(range(4), 2))
        ts = cut[a] if rng.random() < .9 else [-1, 0]
        te = cut[b] if rng.random() < .9 else [-1, 0]
        g1 = rng.choice(OBS[y])
        g2 = ""
        if k == "DSB":
            g2 = rng.choice([g for g in OBS[y] if g[0] == g1[0]])
        site = rng.choice(sites) if y == "R" and rng.random() < .8 else ""
        r = dict(k=k, s=s, site=site, g1=g1, g2=g2, ts=ts, te=te,
                 v=rng.choice([0, rng.randrange(-900000, 900000)]),
                 sd=rng.randrange(10000))
        if rng.random() < .15:
            r.update(s=0, n=y, site=rng.choice(sites))
        rows.append(r)
    return dict(op="bia", rows=rows, site=rng.choice(["", "ABMF", "ABMF"])), \
        pool, cut


def antenna(rng, i, s, typ, ser, ts, te, noff=None):
    # grid in half degrees
    if s:
        z = rng.choice([[0, 34, 2], [0, 28, 2], [0, 40, 1], [0, 18, 2],
                        [0, 40, 10]])
    else:
        z = rng.choice([[0, 180, 10], [0, 180, 10], [0, 160, 10],
                        [0, 180, 2]])
    n = (z[1]-z[0])//z[2]+1
    if s:
        y = gn.LET[s//1000]
        fr = [(y, b) for b in BANDS[y]]
    else:
        fr = [(y, b) for y in "GRECJSI" for b in BANDS[y]]
        if rng.random() < .7:
            fr = [x for x in fr if x[0] == "G"]
    if rng.random() < .6:
        k = rng.sample(range(len(fr)), rng.randint(1, len(fr)))
        fr = [fr[i] for i in sorted(k)]
    mx = 4000 if not s else 39000
    F = []
    for y, b in fr:
        neu = [0, 0, 0] if noff else \
            [2*rng.randrange(-mx//2, mx//2) for _ in range(3)]
        v = [2*rng.randrange(-1500, 1500) for _ in range(n)]
        F.append([gn.SIDX[y], b, neu, v])
    return dict(id=i, s=s, type=typ, ser=ser, ts=ts, te=te, z=z, fr=F)


def antennas(rng, d0):
    ants = []
    i = 0
    sats = [nid(w) for w in rng.sample([w for w in SATS if w[0] != "S"], 2)]
    for s in sats:
        c = sorted(rng.sample(range(0, 4*86400), 3))
        c = [[d0+x//86400, x % 86400] for x in c]
        seq = [([-1, 0] if rng.random() < .3 else c[0], c[1]),
               (c[1] if rng.random() < .7 else [c[1][0], c[1][1]], c[2]),
               (c[2], [-1, 0])]
        seq = [x for x in seq if rng.random() < .8]
        for ts, te in seq:
            i += 1
            # te: last second that belongs to the interval
            t2 = te
            if te[0] >= 0:
                q = te[0]*86400+te[1]-1
                t2 = [q//86400, q % 86400]
                if ts[0] >= 0 and ts[0]*86400+ts[1] > q:
                    t2 = ts
            ants.append(antenna(rng, i, s, "BLOCK IIF", "", ts, t2,
                                rng.random() < .4))
    types = ["TRM59800.80     NONE", "TRM59800.80     SCIT",
             "JAVRINGANT_DM   SCIS"]
    for ty in rng.sample(types, 2):
        for _ in range(rng.choice([1, 1, 2])):
            i += 1
            ants.append(antenna(rng, i, 0, ty,
                                rng.choice(["", "", "", "5225354537",
                                            "CR200424", "123"]),
                                [-1, 0], [-1, 0], rng.random() < .5))
    rng.shuffle(ants)
    return dict(op="atx", ants=ants, only=rng.random() < .1), sats, types


# iono-free factors of the dual-frequency references (times den)
DUAL = {"G": ([[1, 1], [1, 2]], 2329, [5929, -3600]),
        "E": ([[3, 1], [3, 5]], 10491, [23716, -13225])}


def aflow(run, h):
    rng = run.rng
    d0 = rng.randrange(8000)
    d = Dut(run)
    ngs = h % 8 == 7
    e, sats, types = antennas(rng, d0)
    if ngs:
        e["only"] = False
        A = []
        for i, ty in enumerate(types):
            a = antenna(rng, i+1, 0, ty, "", [-1, 0], [-1, 0],
                        rng.random() < .5)
            n = [1, 1], [1, 2]
            a["z"] = [0, 180, 10]
            a["fr"] = [[y, b, [0, 0, 0] if rng.random() < .3 else
                        [2*rng.randrange(-900, 900) for _ in range(3)],
                        [2*rng.randrange(-900, 900) for _ in range(19)]]
                       for y, b in n]
            A.append(a)
        e["ants"] = A
    if not d.atx(e, ngs):
        return
    rx = [a for a in e["ants"] if a["s"] == 0]
    tx = [a for a in e["ants"] if a["s"]]

    def when(a):
        for _ in range(9):
            q = rng.choice([a["ts"], a["te"],
                            [d0+rng.randrange(-1, 5), rng.randrange(86400)]])
            if q[0] >= 0 or q is a["ts"] and False:
                s = q[0]*86400+q[1]+rng.choice([0, 0, -1, 1])
                return [s//86400, s % 86400]
        return [d0, 0]
    for _ in range(12):
        a = rng.choice(e["ants"])
        d.find(dict(s=a["s"] if rng.random() < .9 else nid("E36"),
                    type=a["type"] if rng.random() < .9 else "NOSUCHANT",
                    t=when(a)))

    def valid(a, t):
        return (a["ts"][0] < 0 or a["ts"] <= t) and \
            (a["te"][0] < 0 or t <= a["te"])
    for _ in range(8):
        if not rx:
            break
        ty = rng.choice(rx)["type"]
        t = [d0, 0]
        a = next(x for x in rx if x["type"] == ty)
        sg = [(gn.SIDX[y], b) for y in "GRECJSI" for b in BANDS[y]
              if (y, b) != ("I", 9)]
        sg = [list(x) for x in rng.sample(sg, 4)]
        z1, z2, dz = a["z"]
        if all(f[2] == [0, 0, 0] for f in a["fr"]) and rng.random() < .8:
            dr = 0
            za = 2*z1+dz*rng.randrange(0, 2*(z2-z1)//dz+1)
        else:
            dr = rng.choice([3, 1, 2])
            za = 0 if dr == 3 else 360
        d.rxq(dict(type=ty, t=t, sigs=sg, dir=dr, za=za), rng.random() < .5)
    if e["only"]:
        return
    for _ in range(8):
        if not tx:
            break
        a = rng.choice(tx)
        t = when(a)
        act = next((x for x in tx if x["s"] == a["s"] and valid(x, t)), a)
        y = a["s"]//1000
        sg = [[y, b] for b in BANDS[gn.LET[y]]]
        z1, z2, dz = act["z"]
        ref, den, cf = [], 1, [1]
        x = rng.random()
        if x < .4:
            ref = [rng.choice(sg)]
        elif x < .8 and gn.LET[y] in DUAL:
            ref, den, cf = DUAL[gn.LET[y]]
        za = 0
        if all(f[2] == [0, 0, 0] for f in act["fr"]) and rng.random() < .8:
            za = 2*z1+dz*rng.randrange(0, 2*(z2-z1)//dz+1)
        d.txq(dict(s=a["s"], t=t, sigs=sg, ref=ref, den=den, cf=cf, za=za))
        have = {f[1] for f in act["fr"]}
        if all(q[1] in have for q in ref) and ref and valid(act, t):
            d.comq(dict(s=a["s"], t=t, ref=ref, den=den, cf=cf))


def oflow(run, h):
    rng = run.rng
    T0 = rng.randrange(-500000000, 900000000)//900*900
    step = rng.choice([300, 900])
    n = rng.choice([1, 10, 11, 11, 12, 13, 20, 24, 30])
    d = Dut(run, T0)
    e, hdr = orbit(rng, step, n, run.quick)
    if not d.sp3(e, hdr):
        return
    sats = [nid(w) for w in hdr["sats"] if w[0] in gn.SIDX]
    if n > 2 and rng.random() < .25 and len(d.nav.peph) > 1:
        w = sorted(sats if rng.random() < .7 else
                   rng.sample(sats, max(1, len(sats)-1)))
        if not d.rewrite(w):
            return
    ask = sats[:6]+[nid("E33")]
    tabs = [(step, n)]
    if rng.random() < .5:
        for _ in range(rng.choice([1, 1, 2])):
            st = rng.choice([30, 300, step])
            m = rng.choice([1, 2, 3, n, n])
            if not d.clk(clocks(rng, st, m, sats[:6])):
                return
        tabs = [(step, n), (st, m)]
    for _ in range(30):
        st, m = rng.choice(tabs)
        q = dict(s=rng.choice(ask), t=query_time(rng, st, m))
        rng.choice([d.posq, d.satq, d.satq, d.clkq])(q)


def bflow(run, h):
    rng = run.rng
    d0 = rng.randrange(8000)
    e, pool, cut = biases(rng, d0)
    d = Dut(run)
    if not d.bia(e):
        return
    for _ in range(30):
        b = rng.choice(e["rows"])
        s = b["s"] or rng.choice(pool)
        c = rng.choice(cut)
        q = c[0]*86400+c[1]+rng.choice([0, 0, -1, 1, -40000, 40000])
        q = [q//86400, q % 86400]
        if b["k"] == "OSB" or rng.random() < .2:
            d.osbq(dict(s=s, g=b["g1"] if s == b["s"] else
                        rng.choice(OBS[gn.LET[s//1000]]), t=q))
        else:
            d.dsbq(dict(s=s, g=b["g2"] if s == b["s"] else
                        rng.choice(OBS[gn.LET[s//1000]]), t=q))


def main(run):
    rng = run.rng
    run.assumptions += [
        "epochs of an SP3 file increase, list all satellites of its header "
        "and are one interval apart; no check for gaps between epochs",
        "interpolated positions are decided where the positions lie on one "
        "straight line of inertial space inside the interpolation window "
        "(the polynomial must then reproduce it), at the epochs always",
        "antenna models: directions along the antenna axes, or any zenith "
        "angle on the grid and its midpoints without offsets"]
    edges = run.model_check("Precise_MC", emit=True)
    for cfg, evs in run.paths(edges, maxlen=60,
                              budget=250 if run.quick else 1500):
        d = Dut(run)
        for e in evs:
            if e["op"] == "sp3":
                nm = {1005: "G05"}
                e["acc"] = [7]
                for ep in e["eps"]:
                    for r in ep["rows"]:
                        r["p"] = [list(x) for x in r["p"]]
                        if not r["p"]:
                            r["bad"] = True
                ok = d.sp3(e, dict(sats=["G05"], name=nm, pv="P", ep=False,
                                   acc=[7]))
            elif e["op"] == "atx":
                for a in e["ants"]:
                    a["ser"] = ""
                ok = d.atx(e)
            else:
                ok = getattr(d, e["op"])(e)
            if ok is False:
                break
    run.validate("Precise_Trace", label="model")
    k = 1 if run.quick else 20
    for h in range(60*k):
        oflow(run, h)
    run.validate("Precise_Trace", label="orbits and clocks")
    for h in range(60*k):
        bflow(run, h)
    for h in range(60*k):
        aflow(run, h)
    run.validate("Precise_Trace")
