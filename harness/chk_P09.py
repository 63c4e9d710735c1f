"""P09: reconstruction of Galileo HAS messages from pages."""
import numpy as np
from vlib import Bits
import gf256
from cssrlib.cssr_has import cnav_msg

GM = gf256.generator()


def nav(p, page, rng):
    b = Bits()
    b.u(rng.getrandbits(14), 14)
    if p["k"] == 1:
        b.u(0xaf3bc3, 24)
        b.u(rng.getrandbits(424), 424)
    else:
        st = rng.randrange(2) if p["k"] == 0 else 2+rng.randrange(2)
        b.u(st, 2).u(rng.randrange(4), 2).u(1, 2).u(p["mid"], 5)
        b.u(p["ms"]-1, 5).u(p["pid"], 8)
        for x in page:
            b.u(int(x), 8)
    b.u(rng.getrandbits(24), 24).u(0, 6)
    return b.tobytes().hex()


class Net:
    """sender: messages by mid"""

    def __init__(self, rng):
        self.rng = rng
        self.msgs = {}

    def message(self, mid, ms):
        m = np.array([[self.rng.randrange(256) for _ in range(53)]
                      for _ in range(ms)], dtype=np.uint8)
        self.msgs[mid] = (m, gf256.encode(GM, m))

    def epoch(self, run, c, pages, tow):
        vi = []
        for p in pages:
            if p["mid"] in self.msgs:
                enc = self.msgs[p["mid"]][1][p["pid"]-1]
            else:
                enc = [0]*53
            vi.append(dict(nav=nav(p, enc, self.rng)))
        r, exc = run.call(c.decode_cnav, tow, vi)
        msg = -1
        if r is not None:
            msg = -2
            r = bytes(r)
            for mid, (m, _) in self.msgs.items():
                b = m.tobytes()
                if r[:len(b)] == b and not any(r[len(b):]):
                    msg = mid
        run.ev("epoch", out=dict(msg=msg), exc=exc, pages=pages)


def new():
    c = cnav_msg()
    c.gMat = GM
    return c


def history(run):
    rng = run.rng
    run.hist(x=0)
    c = new()
    net = Net(rng)
    mids = rng.sample(range(32), rng.randint(1, 14))
    big = rng.random() < .3
    for m in mids:
        net.message(m, rng.choice([1, 2, 3, 4, 5, 15, 25, 31, 32]) if big
                    else rng.randint(1, 6))
    plan = []
    for m in mids*rng.choice([1, 1, 2]):
        ms = net.msgs[m][0].shape[0]
        pool = list(range(1, ms+1))+list(range(33, 256))
        if rng.random() < .3:
            pool = pool[:ms]
        sel = rng.sample(pool, min(len(pool), ms+rng.choice([0, 0, 1, 3, -1])
                                   if ms > 1 else 1))
        plan.append([dict(k=0, mid=m, ms=ms, pid=q) for q in sel])
    # interleave neighbouring messages, duplicate, lose
    stream = []
    for k, grp in enumerate(plan):
        for p in grp:
            x = rng.random()
            if x < .05:
                continue
            stream.append(p)
            if x > .9:
                stream.append(p)
            if x > .96 and k:
                stream.append(rng.choice(plan[k-1]))
            if .05 < x < .1:
                stream.append(dict(p, k=rng.choice([1, 2])))
    if rng.random() < .4:
        for i in range(len(stream)-1):
            if rng.random() < .4:
                stream[i], stream[i+1] = stream[i+1], stream[i]
    per = rng.choice([1, 2, 5, 12])
    tow = 0
    for rep in range(rng.choice([1, 1, 2])):
        i = 0
        while i < len(stream):
            n = rng.randint(0, per)
            net.epoch(run, c, stream[i:i+n], tow)
            tow += 1
            i += n


def main(run):
    run.model_check("HASPages_MC")
    edges = run.model_check("HASPages_MC", emit=True)
    for cfg, evs in run.paths(edges, maxlen=60,
                              budget=150 if run.quick else None):
        run.hist(**cfg)
        c = new()
        net = Net(run.rng)
        for m, ms in ((1, 2), (2, 1), (3, 3)):
            net.message(m, ms)
        for k, e in enumerate(evs):
            net.epoch(run, c, e["pages"], k)
    run.validate("HASPages_Trace", label="mc")
    for _ in range(60 if run.quick else 700):
        history(run)
    run.validate("HASPages_Trace")
    run.assumptions.append(
        "the generator matrix given to the decoder is a systematic 255x32 "
        "Reed-Solomon matrix built by the harness (the ICD matrix is not in "
        "the repository)")
