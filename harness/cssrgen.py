"""Generator of Compact SSR histories (abstract messages)."""
import gn

LEGAL = {"G": range(1, 33), "R": range(1, 25), "E": range(1, 37),
         "C": range(1, 59), "J": range(193, 203)}


def sval(rng, n):
    """n-bit signed value with boundary values over-represented"""
    x = rng.random()
    if x < .12:
        return -(1 << (n-1))
    if x < .2:
        return (1 << (n-1))-1
    if x < .28:
        return -(1 << (n-1))+1
    if x < .36:
        return rng.choice([0, 1, -1])
    return rng.randrange(-(1 << (n-1)), 1 << (n-1))


def mask(rng, nmax=10, systems="GRECJ"):
    """list of [sat, [sig...]] in mask order"""
    k = rng.randint(1, len(systems))
    order = rng.sample(systems, k)
    res = []
    for s in order:
        prns = sorted(rng.sample(list(LEGAL[s]), min(10,
                                 rng.randint(1, max(1, nmax//k)))))
        if rng.random() < .3:     # edges of the mask
            prns = sorted(set(prns) | {LEGAL[s][0], LEGAL[s][-1]})
        tab = gn.CSSR_SIG[s]
        pool = sorted(rng.sample(range(len(tab)), rng.randint(1, 5)))
        same = rng.random() < .5
        for p in prns:
            sg = pool if same else sorted(rng.sample(pool, rng.randint(
                1, len(pool))))
            res.append([gn.sid(s, p), [tab[i] for i in sg]])
        # BDS: PRN<=18 with id 3, others with id 7: already grouped by order
    return res


def iode(rng, sat):
    return rng.randrange(1024 if sat//1000 == 3 else 256)


def orows(rng, sats):
    return [[s, iode(rng, s), sval(rng, 15), sval(rng, 13), sval(rng, 13)]
            for s in sats]


def crows(rng, sats):
    return [[s, sval(rng, 15)] for s in sats]


def cbrows(rng, msk, sub):
    return [[s, "C"+g, sval(rng, 11)] for s, sg in msk if s in sub for g in sg]


def pbrows(rng, msk, sub, n=15):
    return [[s, "L"+g, sval(rng, n), rng.randrange(4)]
            for s, sg in msk if s in sub for g in sg]


def subset(rng, sats, lo=0):
    k = rng.randint(lo, len(sats))
    x = set(rng.sample(sats, k))
    return [s for s in sats if s in x]


class Sender:
    """one correction provider: mask issues and message content"""

    def __init__(self, rng, nets, tow, systems="GRECJ", nmax=10):
        self.rng = rng
        self.nets = nets
        self.tow = tow
        self.hour = tow//3600*3600
        self.systems = systems
        self.nmax = nmax
        self.iod = rng.randrange(16)
        self.masks = {self.iod: mask(rng, nmax, systems)}
        self.prev = None

    def newmask(self):
        self.prev = self.iod
        self.iod = (self.iod+1) % 16
        m = mask(self.rng, self.nmax, self.systems)
        if self.rng.random() < .6:      # keep most satellites
            old = self.masks[self.prev]
            keep = [x for x in old if self.rng.random() < .8]
            m = keep or m
        self.masks[self.iod] = m

    def advance(self, dt):
        self.tow += dt
        if self.tow >= 604800:
            self.tow -= 604800

    def base(self, t, iod=None):
        return dict(t=t, iod=self.iod if iod is None else iod,
                    udi=self.rng.randrange(16))

    def maskmsg(self):
        m = self.base("MASK")
        m.update(tow=self.tow, sats=self.masks[self.iod],
                 cma=self.rng.randrange(2))
        self.hour = self.tow//3600*3600
        return m

    def msg(self, t, iod=None):
        rng = self.rng
        m = self.base(t, iod)
        msk = self.masks[m["iod"]]
        sats = [x[0] for x in msk]
        m["dtow"] = (self.tow-self.hour) % 604800 % 4096
        if t == "ORB":
            m["orows"] = orows(rng, sats)
        elif t == "CLK":
            m["crows"] = crows(rng, sats)
        elif t == "CB":
            m["cbrows"] = cbrows(rng, msk, sats)
        elif t == "PB":
            m["pbrows"] = pbrows(rng, msk, sats)
        elif t == "BIAS":
            m["cb"], m["pb"] = rng.choice([(1, 1), (1, 0), (0, 1)])
            m["net"] = rng.choice([0, 1, 1])
            m["inet"] = rng.choice(self.nets[1:])
            sub = subset(rng, sats) if m["net"] else sats
            m["sub"] = sub
            m["cbrows"] = cbrows(rng, msk, sub) if m["cb"] else []
            m["pbrows"] = pbrows(rng, msk, sub) if m["pb"] else []
        elif t == "COMB":
            m["orb"], m["clk"] = rng.choice([(1, 1), (1, 0), (0, 1)])
            m["net"] = rng.choice([0, 1])
            m["inet"] = rng.choice(self.nets[1:])
            sub = subset(rng, sats) if m["net"] else sats
            m["sub"] = sub
            m["orows"] = orows(rng, sub) if m["orb"] else []
            m["crows"] = crows(rng, sub) if m["clk"] else []
        elif t == "URA":
            m["rows"] = [[s, rng.randrange(8), rng.randrange(8)]
                         for s in sats]
        return m

    # -------------------------------------------------------- atmosphere
    def coef(self, sat, stype):
        r = self.rng
        return [sat, sval(r, 14), sval(r, 12), sval(r, 12), sval(r, 10),
                sval(r, 8), sval(r, 8), stype]

    def atm(self, t, inet, ng, iod=None, trop=None, stec=None):
        rng = self.rng
        m = self.base(t, iod)
        m["dtow"] = (self.tow-self.hour) % 604800 % 4096
        m["inet"] = inet
        msk = self.masks[m["iod"]]
        sub = subset(rng, [x[0] for x in msk], 0 if rng.random() < .2 else 1)
        m["sats"] = sub
        q = [[s, rng.randrange(8), rng.randrange(8)] for s in sub]
        if t == "STEC":
            st = rng.randrange(4)
            m["q"] = q
            m["ci"] = [self.coef(s, st) for s in sub]
        elif t == "GRID":
            m["ng"] = ng
            m["ttype"] = rng.randrange(3)
            m["range"] = rng.randrange(2)
            m["tq"] = [rng.randrange(8), rng.randrange(8)]
            m["dth"] = [sval(rng, 9) for _ in range(ng)]
            m["dtw"] = [sval(rng, 8) for _ in range(ng)]
            w = 16 if m["range"] else 7
            m["dst"] = [[s, [sval(rng, w) for _ in range(ng)]] for s in sub]
        elif t == "ATM":
            m["ng"] = ng
            m["trop"] = rng.randrange(4) if trop is None else trop
            m["stec"] = rng.randrange(4) if stec is None else stec
            m["tq"] = [rng.randrange(8), rng.randrange(8)]
            m["ttype"] = rng.randrange(3)
            m["tc"] = [sval(rng, 9), sval(rng, 7), sval(rng, 7), sval(rng, 7)]
            m["tsz"] = rng.randrange(2)
            m["tof"] = rng.randrange(16)
            w = 8 if m["tsz"] else 6
            m["dtw"] = [sval(rng, w) for _ in range(ng)] if m["trop"] & 1 \
                else []
            m["q"] = q
            m["ci"] = [self.coef(s, rng.randrange(4)) for s in sub] \
                if m["stec"] & 2 else []
            m["dst"] = []
            if m["stec"] & 1:
                for s in sub:
                    k = rng.randrange(4)
                    m["dst"].append([s, k, [sval(rng, [4, 4, 5, 7][k])
                                            for _ in range(ng)]])
        return m
