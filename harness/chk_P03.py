"""P03: selection of broadcast ephemerides."""
import gn
from vlib import toint
from cssrlib.gnss import Eph, Geph, gtime_t, uGNSS
from cssrlib.ephemeris import findeph

MAXAGE = {1: 7201, 2: 1800, 3: 14400, 4: 7201, 5: 7201, 6: 360, 7: 7201}
BASE = gn.W2000 + 200*604800


def t2g(ms):
    return gtime_t(BASE+ms//1000, (ms % 1000)/1000)


def mk(r):
    g = r["sat"]//1000 == 2
    e = (Geph if g else Eph)(gn.sat(r["sat"]))
    e.iode = r["iode"]
    e.toe = t2g(r["toe"])
    e.mode = r["mode"]
    e.vid = r["id"]
    return e


def find(run, recs, t, sat, iode, mode):
    r, exc = run.call(findeph, recs, t2g(t), gn.sat(sat), iode, mode)
    out = {}
    if not exc:
        out = dict(id=0 if r is None else toint(getattr(r, "vid", -1)))
    run.ev("find", out=out, exc=exc, t=t, sat=sat, iode=iode, mode=mode)


def add(run, recs, r):
    recs.append(mk(r))
    run.ev("add", out=dict(n=len(recs)), r=r)


def main(run):
    rng = run.rng
    run.model_check("EphF_MC")
    for cfg, evs in run.paths(run.model_check("EphF_MC", emit=True),
                              maxlen=60, budget=150 if run.quick else None):
        run.hist(**cfg)
        recs = []
        for e in evs:
            if e["op"] == "add":
                add(run, recs, e["r"])
            else:
                find(run, recs, e["t"], e["sat"], e["iode"], e["mode"])
    run.validate("EphF_Trace", label="mc")
    for _ in range(150 if run.quick else 2500):
        run.hist(x=0)
        recs = []
        sysl = rng.sample(list(gn.SIDX), rng.randint(1, 4))
        sats = []
        for s in sysl:
            a, b = gn.RANGE[s]
            for p in {rng.choice([a, b, rng.randint(a, b)])
                      for _ in range(2)}:
                sats.append(gn.sid(s, p))
        iodes = [rng.randrange(256) for _ in range(3)] + [0]
        t0 = rng.randrange(86400*5)*1000
        k = 0
        for _ in range(rng.randint(2, 25)):
            if rng.random() < .5 or not recs:
                k += 1
                sat = rng.choice(sats)
                m = MAXAGE[sat//1000]*1000
                step = rng.choice([m//2, m, 2*m, 7200000, 1000])
                toe = t0+rng.randint(-2, 2)*step
                if rng.random() < .3:
                    toe = t0+rng.randint(-2*m, 2*m)
                if rng.random() < .3 and recs:     # exact tie or repetition
                    q = rng.choice(recs)
                    toe = int((q.toe.time-BASE)*1000+round(q.toe.sec*1000))
                add(run, recs, dict(id=k, sat=sat, iode=rng.choice(iodes),
                                    toe=toe,
                                    mode=rng.choice([0, 0, 1, 2, 3, 5])))
            else:
                sat = rng.choice(sats)
                q = rng.choice(recs)
                m = MAXAGE[sat//1000]*1000
                toe = int((q.toe.time-BASE)*1000+round(q.toe.sec*1000))
                t = rng.choice([t0, toe, toe+m, toe-m, toe+m+1000, toe-m-1000,
                                toe+m+1, toe-m+1, toe+m//2,
                                toe+rng.randint(-2*m, 2*m)])
                find(run, recs, t, sat,
                     rng.choice([-1, -1, rng.choice(iodes), q.iode]),
                     rng.choice([0, 0, 1, q.mode]))
    run.validate("EphF_Trace")
