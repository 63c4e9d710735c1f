"""P11: BeiDou PPP-B2b corrections."""
import gn
from vlib import Bits, lsb, toint
from cssrlib.cssr_bds import cssr_bds
from cssrlib.cssrlib import sCType

DAY = 86400
CLS = dict(orb=sCType.ORBIT, clk=sCType.CLOCK, cb=sCType.CBIAS)
ST = dict(CLS, mask=sCType.MASK, ura=sCType.URA)
TAB = {1: [0, 1, 4, 5, 7, 8, 11, 12, 13], 2: [0, 1, 2],
       3: [1, 2, 4, 5, 7, 8, 11], 4: [0, 1, 2, 4, 5, 7, 8, 12]}


def bdt(t):
    """BDT week, seconds of the day start and seconds of day"""
    x = t + gn.W2000 - gn.GPS0 - 14 - 1356*604800
    w, s = divmod(x, 604800)
    return w, s - s % DAY, s % DAY


def slot(i):
    s, p = i//1000, i % 1000
    return p + {4: 0, 1: 63, 3: 100, 2: 137}[s]


def sysof(n):
    return 4 if n <= 63 else 1 if n <= 100 else 3 if n <= 137 else 2


def head(b, e, rng):
    return b.u(bdt(e["t"])[2], 17).u(rng.randrange(16), 4).u(e["iod"], 2)


def orow(b, r):
    b.u(r[0], 9).u(r[1], 10).u(r[2], 3)
    b.s(r[3], 15).s(r[4], 13).s(r[5], 13).u(r[6], 3).u(r[7], 3)


def message(e, rng):
    b = Bits()
    if e["op"] == "other":
        b.u(e["mt"], 6)
    elif e["op"] == "mask":
        b.u(1, 6)
        head(b, e, rng).u(e["iodp"], 4)
        for k in range(1, 175):
            b.u(1 if k in e["slots"] else 0, 1)
    elif e["op"] == "comb":
        p, q = e["parts"]
        b.u(e["mt"], 6).u(len(p["rows"]), 5).u(len(q["rows"]), 3)
        if p["rows"]:
            head(b, p, rng)
            if e["mt"] == 6:
                b.u(p["iodp"], 4).u(p["sub"], 9)
                for r in p["rows"]:
                    b.u(r[0], 3).s(r[1], 15)
            else:
                for r in p["rows"]:
                    b.u(r[0], 9).u(r[1], 3).s(r[2], 15)
        if q["rows"]:
            head(b, q, rng)
            for r in q["rows"]:
                orow(b, r)
    else:
        b.u(dict(orb=2, cb=3, clk=4, ura=5)[e["k"]], 6)
        head(b, e, rng)
        if e["k"] == "orb":
            for r in e["rows"]:
                orow(b, r)
        elif e["k"] == "cb":
            b.u(len(e["rows"]), 5)
            for r in e["rows"]:
                b.u(r["slot"], 9).u(len(r["g"]), 4)
                for q in r["g"]:
                    b.u(q[0], 4).s(q[1], 12)
        elif e["k"] == "clk":
            b.u(e["iodp"], 4).u(e["sub"]//23, 5)
            for r in e["rows"]:
                b.u(r[0], 3).s(r[1], 15)
        else:
            b.u(e["iodp"], 4).u(e["sub"], 3)
            for r in e["rows"]:
                b.u(r[0], 3).u(r[1], 3)
    return b.pad(max(486, b.n+8), rng.randrange(2)).tobytes()


def view(d):
    lc = d.lc[0]

    def clk(c, v):
        return gn.uset([[gn.unsat(s), toint(c[s]), lsb(v[s], 0.0016)]
                        for s in v])
    t0 = []
    for s, x in lc.t0.items():
        for k, c in CLS.items():
            if c in x:
                t0.append([gn.unsat(s), k, gn.t2i(x[c])])
    return dict(
        orb=gn.uset([[gn.unsat(s), toint(lc.iode[s]), toint(lc.iodc[s])] +
                     [lsb(v, q) for v, q in zip(x, (.0016, .0064, .0064))]
                     for s, x in (lc.dorb or {}).items()]),
        clk=clk(getattr(lc, "iodc_c", None) or {}, lc.dclk or {}),
        clkp=clk(getattr(lc, "iodc_c_p", {}), getattr(lc, "dclk_p", {})),
        cb=gn.uset([[gn.unsat(s), g.str(), lsb(v, 0.017)]
                    for s, x in lc.cbias.items() for g, v in x.items()]),
        ura=gn.uset([[gn.unsat(s), lsb(v, 2.5e-4)]
                     for s, v in (getattr(d, "ura", None) or {}).items()]),
        t0=gn.uset(t0),
        st=sorted(k for k, c in ST.items() if lc.cstat & (1 << c)),
        iod=toint(d.iodssr), iodp=toint(d.iodp),
        sats=[gn.unsat(s) for s in getattr(d, "sat_n", [])],
        iods={k: toint(d.iodssr_c[c]) for k, c in CLS.items()},
        T=gn.t2i(d.time))


class Dut:
    def __init__(self, run):
        self.run = run
        self.d = cssr_bds()

    def do(self, e):
        run = self.run
        self.d.week, self.d.tow0, _ = bdt(e["t"])
        _, exc = run.call(self.d.decode_cssr, message(e, run.rng))
        out = {}
        if not exc:
            out, x = run.call(view, self.d)
            if x:
                out, exc = {}, "view:"+x
        a = {k: v for k, v in e.items() if k not in ("op", "out", "exc")}
        run.ev(e["op"], out=out, exc=exc, **a)


def sv(rng, n):
    x = rng.random()
    if x < .05:
        return -2**(n-1)
    if x < .15:
        return rng.choice([1-2**(n-1), 2-2**(n-1), 2**(n-1)-1, -1, 0, 1])
    return rng.randrange(-2**(n-1), 2**(n-1))


def mask(rng, n):
    u = [slot(gn.sid(s, p)) for s in "CGER"
         for p in range(gn.RANGE[s][0], gn.RANGE[s][1]+1)]
    m = rng.sample(u, min(n, len(u)))
    if rng.random() < .5:
        m += rng.sample([1, 63, 64, 95, 101, 136, 138, 161], 3)
    return sorted(set(m))


class Gen:
    def __init__(self, rng):
        self.rng = rng
        big = rng.random()
        n = 2 if big < .2 else 90 if big > .8 else rng.randint(3, 40)
        self.masks = {rng.randrange(16): mask(rng, n) for _ in range(3)}
        self.iodp = rng.choice(list(self.masks))
        self.iod = rng.randrange(4)
        # away from the day roll-over: the day is the caller's knowledge
        self.t = 250*604800+rng.randrange(7)*DAY+rng.randrange(10000, 60000)+14

    def slots(self, n):
        rng = self.rng
        m = self.masks[self.iodp]
        res = []
        for _ in range(n):
            x = rng.random()
            if x < .8 and m:
                res.append(rng.choice(m))
            elif x < .9:
                res.append(rng.choice([0, 175, 511, rng.randrange(175, 512)]))
            else:
                res.append(rng.choice(mask(rng, 8)))
        return list(dict.fromkeys(res))

    def orow(self, s):
        rng = self.rng
        return [s, rng.randrange(1024), rng.randrange(8), sv(rng, 15),
                sv(rng, 13), sv(rng, 13), rng.choice([0, 7, rng.randrange(8)]),
                rng.choice([0, 7, rng.randrange(8)])]

    def ck(self):
        return [self.rng.choice([1, 1, self.rng.randrange(8)]),
                sv(self.rng, 15)]

    def event(self):
        rng = self.rng
        self.t += rng.choice([0, 0, 1, 6, 30, -4])
        t = self.t
        x = rng.random()
        if x < .04:
            return dict(op="other", mt=rng.choice([0, 8, 63]), t=t)
        if x < .16:
            if rng.random() < .6:
                self.iodp = rng.choice(list(self.masks))
            if rng.random() < .5:
                self.iod = rng.randrange(4)
            return dict(op="mask", iod=self.iod, iodp=self.iodp, t=t,
                        slots=self.masks[self.iodp])
        iod = self.iod if rng.random() < .85 else rng.randrange(4)
        iodp = self.iodp if rng.random() < .85 else rng.choice(
            [rng.randrange(16), *self.masks])
        if x < .4:
            r = [self.orow(s) for s in self.slots(6)]
            r += [self.orow(0)]*(6-len(r))
            return dict(op="msg", k="orb", iod=iod, iodp=0, sub=0, t=t, rows=r)
        if x < .55:
            rows = []
            for s in self.slots(rng.randint(0, 6)):
                g = []
                if s <= 174 and s > 0:
                    tab = TAB[sysof(s)]
                    g = rng.sample(tab, rng.randint(0, min(4, len(tab))))
                if rng.random() < .15:
                    g = list(dict.fromkeys(
                        g+[rng.choice([3, 6, 9, 10, 14, 15])]))
                    rng.shuffle(g)
                rows.append(dict(slot=s, g=[[q, sv(rng, 12)] for q in g]))
            return dict(op="msg", k="cb", iod=iod, iodp=0, sub=0, t=t,
                        rows=rows)
        n = len(self.masks[self.iodp])
        if x < .75:
            return dict(op="msg", k="clk", iod=iod, iodp=iodp,
                        sub=23*rng.randint(0, n//23+1), t=t,
                        rows=[self.ck() for _ in range(23)])
        if x < .83:
            return dict(op="msg", k="ura", iod=iod, iodp=iodp,
                        sub=rng.randint(0, n//70+1), t=t,
                        rows=[[rng.choice([0, 7, rng.randrange(8)]),
                               rng.choice([0, 7, rng.randrange(8)])]
                              for _ in range(70)])
        mt = rng.choice([6, 7])
        t2 = t+rng.choice([0, 0, 6])
        iod2 = iod if rng.random() < .8 else rng.randrange(4)
        if mt == 6:
            p = dict(k="clk", iod=iod, iodp=iodp, sub=rng.randint(0, n+2),
                     t=t, rows=[self.ck() for _ in range(rng.randint(0, 22))])
        else:
            p = dict(k="clks", iod=iod, iodp=0, sub=0, t=t, rows=[
                [s]+self.ck() for s in self.slots(rng.randint(0, 14))])
        q = dict(k="orb", iod=iod2, iodp=0, sub=0, t=t2, rows=[
            self.orow(s) for s in self.slots(rng.randint(0, 6))])
        self.t = t2
        return dict(op="comb", mt=mt, t=t, parts=[p, q])


def main(run):
    rng = run.rng
    run.assume = run.assumptions.append
    run.assume("the start slot of a type 6 message is the position in the "
               "mask at which its clock corrections begin")
    run.assume("the day to which a time of day belongs is given by the caller")
    run.model_check("B2b_MC")
    edges = run.model_check("B2b_MC", emit=True)
    for cfg, evs in run.paths(edges, maxlen=40,
                              budget=100 if run.quick else 2500):
        run.hist(**cfg)
        d = Dut(run)
        for e in evs:
            d.do(dict(e, t=e["t"]+250*604800) if e["op"] != "comb" else
                 dict(e, t=e["t"]+250*604800, parts=[
                     dict(p, t=p["t"]+250*604800) for p in e["parts"]]))
    run.validate("B2b_Trace", label="model")
    for h in range(150 if run.quick else 3000):
        run.hist(x=0)
        d = Dut(run)
        g = Gen(rng)
        if rng.random() < .85:
            d.do(dict(op="mask", iod=g.iod, iodp=g.iodp, t=g.t,
                      slots=g.masks[g.iodp]))
        for _ in range(rng.randint(5, 25)):
            d.do(g.event())
    run.validate("B2b_Trace")
