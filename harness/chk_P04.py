"""P04: Compact SSR global/network corrections are attributed to the right
satellites, signals and networks, whatever the order, loss and issue of the
messages."""
import cssrenc as ce
import cssrgen as cg
import gn
from cssrlib.cssrlib import cssr

NETS = [0, 1, 2, 17, 31]


def new(week):
    cs = cssr()
    cs.monlevel = 0
    cs.week = week
    return cs


def feed(run, cs, msgs, masks, nets, tail=0):
    buf = ce.buffer(msgs, masks, tail)
    r, exc = run.call(cs.decode_cssr, buf, 0)
    out = {}
    if not exc:
        out, exc = run.call(ce.project, cs, nets)
    if not exc:
        out["ret"] = -1 if r is None else int(r)
    run.ev("buffer", out=out, exc=exc, msgs=msgs)


def random_history(run, nets):
    rng = run.rng
    week = rng.choice([2100, 2238, 1024, 2400])
    tow = rng.choice([0, 3595, 3600*rng.randrange(168)+rng.randrange(3600),
                      604799-rng.randrange(10)])
    snd = cg.Sender(rng, nets, tow, nmax=rng.choice([3, 8, 14]))
    if rng.random() < .1:
        week = -1
    run.hist(week=week, nets=nets)
    cs = new(week)
    first = True
    for _ in range(rng.randint(4, 9)):
        snd.advance(rng.choice([0, 1, 5, 30, 300]))
        msgs = []
        if snd.tow//3600*3600 != snd.hour or (first and rng.random() < .9) \
                or rng.random() < .3:
            if rng.random() < .5 and not first:
                snd.newmask()
            msgs.append(snd.maskmsg())
            first = False
        elif rng.random() < .15:
            snd.newmask()       # mask message lost
        for _ in range(rng.randint(0, 4)):
            t = rng.choice(["ORB", "CLK", "CB", "PB", "BIAS", "COMB", "URA",
                            "COMB", "BIAS", "ORB", "CLK"])
            old = snd.prev is not None and rng.random() < .12
            msgs.append(snd.msg(t, snd.prev if old else None))
        if rng.random() < .1:
            msgs.append(snd.maskmsg())
        if msgs:
            feed(run, cs, msgs, snd.masks, nets,
                 tail=rng.choice([0, 0xffff, 1234]))


def model_histories(run):
    """replay TLC's behaviours of the small model into the decoder"""
    run.model_check("CSSR_MC")
    edges = run.model_check("CSSR_MC", emit=True)
    for cfg, evs in run.paths(edges, maxlen=60):
        run.hist(**cfg)
        cs = new(cfg["week"])
        masks = {}
        for e in evs:
            for m in e["msgs"]:
                masks[m["iod"]] = MC_MASKS[m["iod"]]
            feed(run, cs, e["msgs"], masks, cfg["nets"])


MC_MASKS = {1: [[1001, ["1C", "2W"]], [3002, ["1C"]]],
            2: [[3002, ["1C"]], [5193, ["1C", "5Q"]]]}


def main(run):
    model_histories(run)
    run.validate("CSSR_Trace", label="mc")
    for _ in range(150 if run.quick else 1500):
        random_history(run, NETS)
    run.validate("CSSR_Trace", label="rnd")
