"""P18: RTCM / IGS SSR corrections."""
import gn
from vlib import Bits, lsb, toint
from cssrlib.rtcm import rtcm, rtcme
from cssrlib.cssrlib import sCType

BASE = dict(G=1057, R=1063, E=1240, J=1246, S=1252, C=1258)
OFF = dict(orb=0, clk=1, cb=2, comb=3, ura=4, hclk=5)
PB = dict(G=1265, R=1266, E=1267, J=1268, S=1269, C=1270)
TEST = dict(R=(41, 42, 43, 44, 45, 46), E=(62, 65, 68, 71, 74, 77),
            C=(None, 66, 69, 72, 75, 78), J=(64, 67, 70, 73, 76, 79),
            G=(None,)*6)
TORD = ["orb", "clk", "cb", "comb", "ura", "hclk"]
TPB = dict(G=85, R=86, E=87, C=88, J=89)
IGS = dict(G=20, R=40, E=60, J=80, C=100, S=120)
IOFF = dict(orb=1, clk=2, comb=3, hclk=4, cb=5, pb=6, ura=7)
CLS = dict(orb=sCType.ORBIT, clk=sCType.CLOCK, cb=sCType.CBIAS,
           pb=sCType.PBIAS, ura=sCType.URA, hclk=sCType.HCLOCK,
           vtec=sCType.VTEC)
LEAP = 18
T0 = 250*604800          # GPS week 2250


def mtype(k, s, via):
    if via == "rtcm":
        return PB[s] if k == "pb" else BASE[s]+OFF[k]
    if via == "test":
        if k == "pb":
            return TPB.get(s)
        return TEST.get(s, (None,)*6)[TORD.index(k)]
    return 4076


def tod(t):
    return (t+gn.W2000-gn.GPS0-LEAP+10800) % 86400


def message(e, rng):
    """bits of the message of a trace event (independent encoder)"""
    s, k, via = gn.LET[e["sys"]], e["k"], e["via"]
    b = Bits().u(0xd3, 8).u(0, 16)
    b.u(mtype(k, s, via) if k != "vtec" else 4076, 12)
    if via == "igs":
        b.u(rng.randrange(8), 3)
        b.u(201 if k == "vtec" else IGS[s]+IOFF[k], 8)
    if s == "R" and via != "igs":
        b.u(tod(e["t"]), 17)
    else:
        b.u(e["t"] % 604800, 20)
    b.u(rng.randrange(16), 4).u(rng.randrange(2), 1)
    if k in ("orb", "comb"):
        b.u(rng.randrange(2), 1)
    b.u(e["iod"], 4).u(rng.randrange(1 << 16), 16).u(rng.randrange(16), 4)
    if k == "pb":
        if via == "test":
            b.u(e["yaw"], 1).u(rng.randrange(16), 4)
        else:
            b.u(rng.randrange(4), 2)
    if k == "vtec":
        nl = rng.randint(1, 2)
        b.u(rng.randrange(512), 9).u(nl, 2)
        for _ in range(nl):
            n = rng.randint(1, 4)
            m = rng.randint(1, n)
            b.u(rng.randrange(256), 8).u(n, 4).u(m, 4)
            for j in range(m+1):
                for _ in range(j, n+1):
                    b.s(rng.randrange(-2**15, 2**15), 16)
            for j in range(1, m+1):
                for _ in range(j, n+1):
                    b.s(rng.randrange(-2**15, 2**15), 16)
        return b.pad(b.n+64).tobytes()
    rows = e["sats"] if k in ("cb", "pb") else \
        e["orows"] if k in ("orb", "comb") else e["crows"]
    b.u(len(rows), 6)
    w = 6
    if via != "igs":
        w = dict(R=5, J=4).get(s, 6)
    for i, r in enumerate(rows):
        prn = (r["s"] if isinstance(r, dict) else r[0]) % 1000
        if s == "J":
            prn -= 192
        if s == "S":
            prn -= 119
        b.u(prn, w)
        if k in ("orb", "comb"):
            b.u(r[1], 8 if via == "igs" else dict(E=10, S=24).get(s, 8))
            for v, n in zip(r[2:], (22, 20, 20, 21, 19, 19)):
                b.s(v, n)
        if k == "comb":
            r = e["crows"][i]
        if k in ("clk", "comb"):
            b.s(r[1], 22).s(r[2], 21).s(r[3], 27)
        if k == "hclk":
            b.s(r[1], 22)
        if k == "ura":
            b.u(r[1], 3).u(r[2], 3)
        if k in ("cb", "pb"):
            b.u(len(r["g"]), 5)
            if k == "pb" and (via != "test" or e["yaw"]):
                b.u(r["y"], 9).s(r["dy"], 8)
            for q in r["g"]:
                b.u(q[0], 5)
                if k == "cb":
                    b.s(q[1], 14)
                else:
                    b.u(q[2], 1)
                    if via != "test":
                        b.u(q[4], 2)
                    b.u(q[3], 4).s(q[1], 20)
    return b.pad(b.n+rng.choice([0, 7, 64]), rng.randrange(2)).tobytes()


def rows(d, k):
    """projection of one store of the decoder"""
    lc = d.lc[0]
    if k == "orb":
        return [[gn.unsat(s), toint(lc.iode[s])] +
                [lsb(v, q) for v, q in zip(
                    list(lc.dorb[s])+list(lc.ddorb[s]),
                    (1e-4, 4e-4, 4e-4, 1e-6, 4e-6, 4e-6))]
                for s in (lc.dorb or {})]
    if k == "clk":
        return [[gn.unsat(s), lsb(lc.dclk[s], 1e-4), lsb(lc.ddclk[s], 1e-6),
                 lsb(lc.dddclk[s], 2e-8)] for s in (lc.dclk or {})]
    if k == "hclk":
        return [[gn.unsat(s), lsb(v, 1e-4)]
                for s, v in (lc.hclk or {}).items()]
    if k == "ura":
        return [[gn.unsat(s), lsb(v, 2.5e-4)]
                for s, v in (lc.ura or {}).items()]
    if k == "cb":
        return [[gn.unsat(s), str(g), lsb(v, 0.01)]
                for s, x in lc.cbias.items() for g, v in x.items()
                if str(g) != "???"]
    if k == "pb":
        return [[gn.unsat(s), str(g), lsb(v, 1e-4),
                 toint(lc.si[s][g]), toint(lc.di[s][g]),
                 toint(lc.wl[s][g]) if g in lc.wl.get(s, {}) else -1]
                for s, x in lc.pbias.items() for g, v in x.items()
                if str(g) != "???"]
    if k == "yaw":
        return [[gn.unsat(s), lsb(v, 1/256.), lsb(lc.dyaw[s], 1/8192.)]
                for s, v in lc.yaw.items()]


def view(d):
    lc = d.lc[0]
    out = {k: gn.uset(rows(d, k)) for k in
           ("orb", "clk", "hclk", "ura", "cb", "pb", "yaw")}
    t0 = []
    for s, x in lc.t0.items():
        if not isinstance(x, dict):
            t0.append([gn.unsat(s), "bad", -1])
            continue
        for k, c in CLS.items():
            if c in x and gn.t2i(x[c]) != -1:
                t0.append([gn.unsat(s), k, gn.t2i(x[c])])
    out["t0"] = gn.uset(t0)
    out["st"] = sorted(k for k, c in CLS.items() if lc.cstat & (1 << c))
    out["iod"] = toint(d.iodssr)
    out["iods"] = {k: toint(d.iodssr_c[c]) for k, c in CLS.items()
                   if k != "vtec"}
    return out


class Dut:
    def __init__(self, run, t):
        self.run = run
        self.d = rtcm()
        self.d.week = 2250
        self.d.time = gn.i2t(t)

    def ssr(self, e):
        run = self.run
        msg = message(e, run.rng)
        _, exc = run.call(self.d.decode, msg)
        out = {}
        if not exc:
            out, x = run.call(view, self.d)
            if x:
                out, exc = {}, "view:"+x
        a = {k: v for k, v in e.items() if k not in ("op", "out", "exc")}
        run.ev("ssr", out=out, exc=exc, **a)

    def time(self, e):
        run = self.run
        msg = message(e, run.rng)
        r, exc = run.call(self.d.decode_time, msg)
        run.ev("time", out=dict(t=gn.t2i(r) if r is not False else -2),
               exc=exc, t=e["t"])

    def trip(self, k, s, via, t):
        run = self.run
        n = rtcme()
        n.lc = self.d.lc
        lc = self.d.lc[0]
        if k == "comb":
            st = [x for x in lc.dorb or {} if x in (lc.dclk or {})]
        else:
            st = dict(orb=lc.dorb, clk=lc.dclk, ura=lc.ura, cb=lc.cbias,
                      pb=lc.pbias, hclk=lc.hclk)[k]
        if st is None:
            return
        n.sat_n = list(st)
        n.inet = 0
        n.msgtype = mtype(k, s, via)
        n.datum = 0
        n.iodssr = 5
        n.iyaw = True
        n.tow = tod(t) if s == "R" else t % 604800
        buf = bytearray(8000)
        r = rtcm()
        r.week = 2250
        r.time = gn.i2t(t)

        def f():
            n.encode(buf)
            r.decode(buf)
            if k == "comb":
                return gn.uset([["o"]+y for y in rows(r, "orb")]
                               + [["c"]+y for y in rows(r, "clk")])
            x = rows(r, k)
            return gn.uset([y[:5] for y in x] if k == "pb" else x)
        x, exc = run.call(f)
        run.ev("trip", out=dict(rows=x), exc=exc, k=k, sys=gn.SIDX[s],
               via=via)


TABMAX = dict(G=20, R=12, E=19, C=16, J=20, S=4)
NTAB = dict(G=16, R=10, E=19, C=16, J=15, S=4)


# identifiers without a RINEX code (BDS 15: none in RINEX 3)
UNKNOWN = dict(G=(3, 4, 12, 13), R=(8, 9), C=(15,), J=(13, 14, 15, 16, 18))


def sv(rng, n):
    x = rng.random()
    if x < .06:
        return -2**(n-1)
    if x < .12:
        return rng.choice([-2**(n-1)+1, 2**(n-1)-1, -1, 0, 1])
    return rng.randrange(-2**(n-1), 2**(n-1))


def prns(rng, s, via, n):
    a, b = gn.RANGE[s]
    if s == "R":
        b = 24
    if s == "J":
        b = 202
    return rng.sample(range(a, b+1), min(n, b-a+1))


def event(rng, k, s, via, t, pool, known=False, g_=None):
    e = dict(op="ssr", k=k, sys=gn.SIDX[s], via=via, t=t,
             iod=rng.randrange(16), orows=[], crows=[], sats=[],
             yaw=rng.randrange(2) if via == "test" else 1)
    if k == "pb" and via != "test":
        e["yaw"] = 1
    ps = rng.sample(pool[s], rng.randint(0, len(pool[s]))
                    if g_ is None else len(pool[s]))
    ids = [gn.sid(s, p) for p in ps]
    for i in ids:
        if k in ("orb", "comb"):
            e["orows"].append([i, rng.randrange(
                256 if via == "igs" else dict(E=1024, S=1 << 24).get(s, 256))]
                + [sv(rng, n) for n in (22, 20, 20, 21, 19, 19)])
        if k in ("clk", "comb"):
            e["crows"].append([i, sv(rng, 22), sv(rng, 21), sv(rng, 27)])
        if k == "hclk":
            e["crows"].append([i, sv(rng, 22)])
        if k == "ura":
            e["crows"].append([i, rng.choice([0, 7, rng.randrange(8)]),
                               rng.choice([0, 7, rng.randrange(8)])])
        if k in ("cb", "pb"):
            g = rng.sample(range(TABMAX[s]), rng.randint(0, min(4, NTAB[s])))
            if rng.random() < .02 and not known:
                g = list(range(TABMAX[s]))[:NTAB[s]]
            if known:
                g = [x for x in g if x not in UNKNOWN.get(s, ())]
            if g_ is not None:      # all signals, a few per satellite
                n = len(g_)//len(ids)+1
                g = g_[ids.index(i)*n:][:n]
            e["sats"].append(dict(
                s=i, y=rng.randrange(512), dy=sv(rng, 8),
                g=[[x, sv(rng, 14 if k == "cb" else 20), rng.randrange(2),
                    rng.randrange(16),
                    rng.randrange(4) if via != "test" else -1] for x in g]))
    return e


def main(run):
    rng = run.rng
    run.model_check("RSSR_MC")
    edges = run.model_check("RSSR_MC", emit=True)
    for cfg, evs in run.paths(edges, maxlen=40,
                              budget=100 if run.quick else 3000):
        run.hist(**cfg)
        d = Dut(run, T0)
        d.d.week = 2000
        for e in evs:
            d.ssr(e)
    run.validate("RSSR_Trace", label="model")
    for s in "GRECJS":      # every signal, decoded and encoded again
        for k in ("cb", "pb"):
            run.hist(x=0)
            d = Dut(run, T0+7200)
            pool = {s: prns(rng, s, None, 5)}
            g = [x for x in range(TABMAX[s]) if x not in UNKNOWN.get(s, ())]
            for via in ("rtcm", "test"):
                if mtype(k, s, via) is None or (k == "pb" and s not in TPB
                                                and via == "test"):
                    continue
                d.ssr(event(rng, k, s, via, T0+7200, pool, True, g))
                v = "rtcm" if (s, k) == ("G", "cb") else "test"
                if mtype(k, s, v) and (k == "cb" or s in TPB):
                    d.trip(k, s, v, T0+7200)
    W = dict(orb=(8, 22, 20, 20, 21, 19, 19), clk=(22, 21, 27), hclk=(22,))
    for s in "GRECJ":       # every value not available, in turn
        for k in ("orb", "clk", "hclk", "comb"):
            run.hist(x=0)
            d = Dut(run, T0+7200)
            via = "rtcm" if s == "G" else "test"
            if not mtype(k, s, via):
                continue
            for t in range(7):
                pool = {s: prns(rng, s, None, 5)}
                e = event(rng, k, s, "rtcm", T0+7200+60*t, pool, True)
                for f, w in (("orows", W["orb"]),
                             ("crows", W["clk" if k == "comb" else k])):
                    j = t % (len(w)+1)
                    if e.get(f) and j and w[j-1] > 8:
                        e[f][0][j] = -2**(w[j-1]-1)
                d.ssr(e)
                d.trip(k, s, via, T0+7200+60*t)
    for h in range(120 if run.quick else 2500):
        run.hist(x=0)
        t = T0+rng.randrange(3600, 500000)
        d = Dut(run, t)
        sys = rng.sample("GRECJS", rng.randint(1, 4))
        known = rng.random() < .6
        pool = {s: prns(rng, s, None, rng.randint(1, 5)) for s in sys}
        if rng.random() < .3 and "G" in sys:
            pool["G"] = list({10, 13, *pool["G"]})
        vias = rng.choice([["rtcm"], ["igs"], ["test"],
                           ["rtcm", "test", "igs"]])
        ks = rng.choice([["orb", "clk"], ["orb", "clk", "comb", "hclk"],
                         ["cb", "pb"], ["orb", "clk", "comb", "ura", "hclk",
                                        "cb", "pb"]])
        for _ in range(rng.randint(4, 14)):
            t += rng.choice([0, 0, 0, 5, 10, 600, -5, 7000])
            s = rng.choice(sys)
            via = rng.choice(vias)
            k = rng.choice(ks)
            if rng.random() < .05:
                k, via = "vtec", "igs"
            elif mtype(k, s, via) is None:
                via = "rtcm"
            e = event(rng, k, s, via, t, pool, known)
            if rng.random() < .1 and k != "vtec":
                if via != "test" and (via, k) != ("rtcm", "pb"):
                    d.time(e)
            d.ssr(e)
            if known and rng.random() < .3:
                k2 = rng.choice(["orb", "clk", "ura", "cb", "pb", "hclk",
                                 "comb"])
                if k2 == "pb":
                    if s in TPB:
                        d.trip(k2, s, "test", t)
                elif s == "G":
                    d.trip(k2, s, "rtcm", t)
                elif mtype(k2, s, "test"):
                    d.trip(k2, s, "test", t)
    run.validate("RSSR_Trace")
