"""P19: RTCM multiple signal messages."""
import math
import gn
from vlib import Bits, toint, NAN, INEXACT, BADTYPE
from cssrlib.rtcm import rtcm
from cssrlib.gnss import uTYP
import chk_P20

CLIGHT = 299792458.0
F0 = dict(G={"1": 1575.42e6, "2": 1227.6e6, "5": 1176.45e6},
          E={"1": 1575.42e6, "5": 1176.45e6, "6": 1278.75e6, "7": 1207.14e6,
             "8": 1191.795e6},
          C={"1": 1575.42e6, "2": 1561.098e6, "5": 1176.45e6,
             "6": 1268.52e6, "7": 1207.14e6},
          J={"1": 1575.42e6, "2": 1227.6e6, "5": 1176.45e6, "6": 1278.75e6},
          S={"1": 1575.42e6, "5": 1176.45e6})
MT = dict(G=1071, R=1081, E=1091, S=1101, J=1111, C=1121)
SIGS = dict(G=[2, 3, 4, 8, 9, 10, 15, 16, 17, 22, 23, 24, 30, 31, 32],
            R=[2, 3, 8, 9],
            E=[2, 3, 4, 5, 6, 8, 9, 10, 11, 12, 14, 15, 16, 18, 19, 20, 22,
               23, 24],
            C=[2, 3, 4, 8, 9, 10, 14, 15, 16, 22, 23, 24, 25, 30, 31, 32],
            J=[2, 9, 10, 11, 15, 16, 17, 22, 23, 24, 30, 31, 32],
            S=[2, 22, 23, 24])
FIRST = dict(J=193, S=120)
NA = NAN
NAR = [-1, 0, 0]


def freq(s, code, fcn):
    if s == "R":
        return {"1": 1602e6+fcn*562500., "2": 1246e6+fcn*437500.}[code[0]] \
            if fcn is not None else None
    return F0[s][code[0]]


def message(e, rng):
    s, k = gn.LET[e["sys"]], e["k"]
    b = Bits().u(0xd3, 8).u(0, 16).u(MT[s]+k-1, 12).u(rng.randrange(4096), 12)
    if s == "R":
        b.u(e["ep"][0], 3).u(e["ep"][1], 27)
    else:
        b.u(e["ep"][1], 30)
    b.u(rng.randrange(2), 1).u(rng.randrange(8), 3).u(rng.randrange(128), 7)
    b.u(rng.randrange(4), 2).u(rng.randrange(4), 2).u(rng.randrange(2), 1)
    b.u(rng.randrange(8), 3)
    a = FIRST.get(s, 1)
    b.mask([q[0] % 1000 for q in e["sats"]], 64, a)
    b.mask(e["sigs"], 32, 1)
    for c in e["cells"]:
        for g in e["sigs"]:
            b.u(1 if g in c else 0, 1)
    S, D = e["sats"], e["data"]
    if k > 3:
        for q in S:
            b.u(q[1], 8)
    if k in (5, 7):
        for q in S:
            b.u(q[3], 4)
    for q in S:
        b.u(q[2], 10)
    if k in (5, 7):
        for q in S:
            b.s(q[4], 14)
    hi = k > 5
    if k != 2:
        for d in D:
            b.s(d[0], 20 if hi else 15)
    if k != 1:
        for d in D:
            b.s(d[1], 24 if hi else 22)
        for d in D:
            b.u(d[2], 10 if hi else 4)
        for d in D:
            b.u(d[3], 1)
    if k > 3:
        for d in D:
            b.u(d[4], 10 if hi else 6)
    if k in (5, 7):
        for d in D:
            b.s(d[5], 15)
    return b.pad(b.n+rng.choice([0, 5, 24]), rng.randrange(2)).tobytes()


def split(v, n):
    """milliseconds -> <<ms, 1/1024 ms, 2^-n ms>>"""
    try:
        v = float(v)
    except Exception:
        return [BADTYPE, 0, 0]
    if math.isnan(v) or v == 0.0:
        return NAR
    if math.isinf(v):
        return [BADTYPE, 1, 0]
    x = v*2.0**n
    r = round(x)
    if abs(x-r) > .02:
        return [INEXACT, 0, 0]
    return [r >> n, (r >> (n-10)) & 1023, r & ((1 << (n-10))-1)]


def view(e, o, fcn):
    s = gn.LET[e["sys"]]
    t = o.t
    x = t.time-gn.GPS0
    ms = round(t.sec*1e3)
    if abs(t.sec*1e3-ms) > 1e-3 or not 0 <= ms < 1000:
        ms = INEXACT
    out = dict(t=[x//604800, x % 604800, ms],
               sats=[gn.unsat(n) for n in o.sat], rows=[])
    T = o.sig[gn.SYS[s]]
    for i, n in enumerate(o.sat):
        sid = gn.unsat(n)
        for j, sg in enumerate(T[uTYP.C]):
            c = sg.str()[1:]
            for ty in (uTYP.L, uTYP.S, uTYP.D):
                if ty in T and T[ty][j].str()[1:] != c:
                    c = "inconsistent"
            f = freq(s, c, fcn.get(sid, 0)) if c != "inconsistent" else 1.0
            d = o.D[i, j]
            if d != 0 and not math.isnan(d):
                d = -d*CLIGHT/f*1e4
                r = round(d)
                d = r if abs(r-d) < .01 else INEXACT
            else:
                d = NA
            lli = int(o.lli[i, j]) & 1
            cn = o.S[i, j]*16
            row = [sid, c, split(o.P[i, j]/CLIGHT*1e3, 29),
                   split(o.L[i, j]/f*1e3, 31), d,
                   0 if math.isnan(cn) else toint(cn), lli]
            if row[2:] != [NAR, NAR, NA, 0, 0]:
                out["rows"].append(row)
    return out


class Dut:
    def __init__(self, run):
        self.run = run
        run.hist(x=0)
        self.d = rtcm()
        self.fcn = {}

    def msm(self, e):
        run = self.run
        msg = message(e, run.rng)
        self.d.week = e["w"]
        if e["sys"] == 2 and e["k"] in (5, 7):
            for q in e["sats"]:
                if q[3] <= 13:
                    self.fcn[q[0]] = q[3]-7
        r, exc = run.call(self.d.decode, msg)
        out = {}
        if not exc:
            out, x = run.call(view, e, r[1] if isinstance(r, tuple) else None,
                              self.fcn)
            if x:
                out, exc = {}, "view:"+x
        run.ev("msm", out=out, exc=exc, **{
            k: v for k, v in e.items() if k not in ("op", "out", "exc")})

    def geph(self, s, frq):
        e = chk_P20.event(self.run.rng, 1020, 2250, 3000)
        e["f"]["prn"], e["f"]["frq"] = s % 1000, frq+7
        self.d.week, self.d.time = 2250, gn.i2t(250*604800+3000)
        _, exc = self.run.call(self.d.decode,
                               chk_P20.message(e, self.run.rng))
        self.fcn[s] = frq
        self.run.ev("geph", out=dict(x=0), exc=exc, s=s, frq=frq)


def sv(rng, n):
    x = rng.random()
    if x < .08:
        return -2**(n-1)
    if x < .16:
        return rng.choice([-2**(n-1)+1, 2**(n-1)-1, -1, 0, 1])
    return rng.randrange(-2**(n-1), 2**(n-1))


class Gen:
    def __init__(self, rng):
        self.rng = rng
        self.fam = rng.choice([(1, 2, 3, 4, 5), (4, 5), (6, 7), (5,), (7,)])
        self.lock = {}
        self.pool = {}
        for s in rng.sample("GRECJS", rng.randint(1, 4)):
            a, b = gn.RANGE[s]
            if s == "J":
                b = 202
            if s == "R":
                b = 27
            n = rng.choice([1, 2, 4, 7])
            self.pool[s] = (rng.sample(range(a, b+1), n),
                            rng.sample(SIGS[s], min(len(SIGS[s]),
                                                    rng.randint(1, 6))))

    def event(self, w, t):
        rng = self.rng
        s = rng.choice(list(self.pool))
        k = rng.choice(self.fam)
        ps, gs = self.pool[s]
        ps = rng.sample(ps, rng.randint(1, len(ps)))
        gs = rng.sample(gs, rng.randint(1, len(gs)))
        if rng.random() < .03:
            ps, gs = [], []
        cells = {}
        for p in ps:
            c = [g for g in gs if rng.random() < .7] or [rng.choice(gs)]
            cells[p] = sorted(c)
        gs = sorted({g for c in cells.values() for g in c})
        ps = sorted(ps)
        hi = k > 5
        data = []
        for p in ps:
            for g in cells[p]:
                key = (s, p, g)
                n = 1024 if hi else 16
                old = self.lock.get(key, rng.randrange(n))
                lk = old if rng.random() < .6 else rng.randrange(n)
                if old == 0 and lk == 0:
                    lk = 1
                if k != 1:
                    self.lock[key] = lk
                data.append([sv(rng, 20 if hi else 15),
                             sv(rng, 24 if hi else 22), lk,
                             1 if rng.random() < .1 else 0,
                             0 if rng.random() < .1 else
                             rng.randrange(1024 if hi else 64),
                             sv(rng, 15)])
        # Moscow time of day / system time of week, in milliseconds
        ms = rng.choice([0, 0, 0, 500, 999, 1])
        if s == "R":
            u = (t-18+10800) % 604800
            ep = [u//86400, u % 86400*1000+ms]
        else:
            ep = [0, (t-(14 if s == "C" else 0)) % 604800*1000+ms]
        sats = [[gn.sid(s, p), 255 if rng.random() < .1 else
                 rng.choice([0, 254, rng.randrange(60, 100)]),
                 rng.choice([0, 1023, rng.randrange(1024)]),
                 rng.choice([rng.randrange(14), 14, 15]),
                 sv(rng, 14)] for p in ps]
        return dict(op="msm", sys=gn.SIDX[s], k=k, w=w, ep=ep, sats=sats,
                    sigs=gs, cells=[cells[p] for p in ps], data=data)


def main(run):
    rng = run.rng
    run.assumptions += [
        "signal numbers without a RINEX code of the decoder and messages "
        "with more than 64 cells are not sent; the GPS week of the receiver "
        "is given by the caller",
        "an unavailable value may be recorded as zero or NaN"]
    edges = run.model_check("MSM_MC", emit=True)
    for cfg, evs in run.paths(edges, maxlen=30,
                              budget=60 if run.quick else 400):
        d = Dut(run)
        for e in evs:
            if e["op"] == "geph":
                d.geph(e["s"], e["frq"])
            else:
                d.msm(e)
    run.validate("MSM_Trace", label="model")
    for h in range(120 if run.quick else 2500):
        d = Dut(run)
        g = Gen(rng)
        w = rng.randint(1990, 2500)
        t = rng.choice([0, 5, 604790, 604799, 594000, 593990, 86399,
                        rng.randrange(604800)])
        for _ in range(rng.randint(3, 14)):
            if rng.random() < .1 and "R" in g.pool:
                d.geph(gn.sid("R", rng.choice(g.pool["R"][0])),
                       rng.randint(-7, 6))
            d.msm(g.event(w, t))
            t += rng.choice([0, 0, 1, 30])
            w, t = w+t//604800, t % 604800
    run.validate("MSM_Trace")
