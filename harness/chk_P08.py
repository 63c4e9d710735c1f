"""P08: assembly of QZSS L6 messages."""
from vlib import Bits, toint
from cssrlib.cssrlib import cssr

N = 1695


class Rx:
    def __init__(self, rng):
        self.rng = rng
        self.parts = {}
        self.cs = cssr()
        self.cs.monlevel = 0

    def bits(self, i):
        if i not in self.parts:
            self.parts[i] = self.rng.getrandbits(N) | (1 << (N-1)) | 1
        return self.parts[i]

    def proj(self, buf):
        if buf is None:
            return []
        n = len(buf)*8
        v = int.from_bytes(bytes(buf), "big")
        inv = {x: k for k, x in self.parts.items()}
        res = []
        for k in range(n//N):
            x = (v >> (n-(k+1)*N)) & ((1 << N)-1)
            res.append(0 if x == 0 else inv.get(x, -1))
        if v & ((1 << (n-n//N*N))-1):
            res.append(-2)
        while res and res[-1] == 0:
            res.pop()
        return res

    def feed(self, run, m):
        b = Bits()
        ofst = self.rng.choice([0, 0, 1, 7])
        b.u(self.rng.getrandbits(8*ofst) if ofst else 0, 8*ofst) if ofst else 0
        pre = 0x1acffc1d if m["pre"] == 0 else \
            0x1acffc1d ^ (1 << self.rng.randrange(32))
        pre = pre & 0xffffffff if pre < 2**32 else pre
        b.u(pre, 32).u(self.rng.choice([193, 194, 195, 199]), 8)
        b.u(m["vendor"], 3).u(m["fac"], 2).u(m["pt"], 2).u(m["sid"], 1)
        b.u(self.rng.randrange(2), 1).u(self.bits(m["id"]), N)
        b.u(self.rng.getrandbits(256), 256)
        r, exc = run.call(self.cs.decode_l6msg, b.tobytes(), ofst)
        out = {}
        if not exc:
            out = dict(n=toint(self.cs.fcnt), buf=self.proj(self.cs.buff),
                       prev=self.proj(self.cs.buff_p),
                       fac=toint(self.cs.facility),
                       acc=0 if r == -1 else 1)
        run.ev("l6", out=out, exc=exc, m=m)


def main(run):
    rng = run.rng
    run.model_check("L6_MC")
    edges = run.model_check("L6_MC", emit=True)
    for cfg, evs in run.paths(edges, maxlen=80,
                              budget=200 if run.quick else None):
        run.hist(**cfg)
        rx = Rx(rng)
        for e in evs:
            rx.feed(run, e["m"])
    run.validate("L6_Trace", label="mc")
    for _ in range(150 if run.quick else 2000):
        run.hist(x=0)
        rx = Rx(rng)
        vendor = rng.choice([5, 5, 1, 2, 7])
        fac, pt = rng.randrange(4), rng.randrange(2)
        k = rng.randrange(5)
        for i in range(rng.randint(5, 40)):
            if rng.random() < .06:
                fac = rng.randrange(4)
            if rng.random() < .03:
                pt = rng.randrange(2)
            sid = 1 if k % 5 == 0 else 0
            k += 1
            if rng.random() < .08 or (i > 20 and sid and rng.random() < .7):
                continue                      # message lost
            rx.feed(run, dict(pre=int(rng.random() < .06), vendor=vendor,
                              fac=fac, pt=pt, sid=sid, id=i+1))
    run.validate("L6_Trace")
