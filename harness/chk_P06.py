"""P06: completeness status and expiry of Compact SSR corrections."""
import numpy as np
import cssrenc as ce
import cssrgen as cg
import gn
from chk_P04 import new, feed
from vlib import toint

NETS = [0, 3, 9]


def grid():
    a = np.array([(n, k+1, 30+n+.3*k, 130+.5*k, 0) for n in NETS
                  for k in range(6)],
                 dtype=[('nid', '<i4'), ('gid', '<i4'), ('lat', '<f8'),
                        ('lon', '<f8'), ('alt', '<f8')])
    return a


def stat(run, cs, net, lp):
    cs.inet_ref = net
    cs.local_pbias = bool(lp)
    r, exc = run.call(cs.chk_stat)
    run.ev("stat", out=dict(ok=toint(r)) if not exc else {}, exc=exc,
           net=net, lp=lp)


def valid(run, cs, t):
    _, exc = run.call(cs.check_validity, gn.i2t(t))
    out = {}
    if not exc:
        out, exc = run.call(ce.project, cs, NETS)
    run.ev("valid", out=out, exc=exc, t=t)


def history(run):
    rng = run.rng
    week = rng.choice([2100, 2238])
    tow = 3600*rng.randrange(167)+rng.randrange(3000)
    snd = cg.Sender(rng, NETS, tow, nmax=4)
    run.hist(week=week, nets=NETS)
    cs = new(week)
    cs.grid = grid()
    if rng.random() < .9:
        feed(run, cs, [snd.maskmsg()], snd.masks, NETS)
    goal = rng.sample(["ORB", "CLK", "CB", "PB", "URA", "STEC", "GRID", "ATM",
                       "BIAS", "COMB"], rng.randint(3, 10))
    for t in goal:
        if rng.random() < .12:
            snd.newmask()
            feed(run, cs, [snd.maskmsg()], snd.masks, NETS)
        net = rng.choice(NETS[1:])
        if t in ("STEC", "GRID", "ATM"):
            m = snd.atm(t, net, rng.randint(1, 4))
        else:
            m = snd.msg(t)
            if t in ("BIAS", "COMB") and rng.random() < .7:
                m["inet"] = net
        feed(run, cs, [m], snd.masks, NETS)
        for n in NETS:
            if rng.random() < .5:
                stat(run, cs, n, rng.randrange(2))
        if rng.random() < .5:
            base = (week-2000)*604800+snd.tow
            valid(run, cs, base+rng.choice([0, 29, 30, 31, 119, 120, 121, -50,
                                            rng.randrange(200)]))
        snd.advance(rng.choice([0, 1, 25, 30, 31, 60, 121]))
        if snd.tow//3600*3600 != snd.hour:
            feed(run, cs, [snd.maskmsg()], snd.masks, NETS)
    for n in NETS:
        for lp in (0, 1):
            stat(run, cs, n, lp)


def main(run):
    # every order-insensitive subset of the received message kinds
    rng = run.rng
    kinds = ["MASK", "ORB", "CLK", "CB", "PB", "STEC", "GRID"]
    for bits in range(1 << len(kinds)):
        run.hist(week=2200, nets=NETS)
        cs = new(2200)
        cs.grid = grid()
        snd = cg.Sender(rng, NETS, 7200, nmax=2)
        for k, t in enumerate(kinds):
            if not bits >> k & 1:
                continue
            if t == "MASK":
                m = snd.maskmsg()
            elif t in ("STEC", "GRID"):
                m = snd.atm(t, 3, 2)
            elif t == "PB":
                m = snd.msg("BIAS")
                m.update(net=1, inet=3, cb=0, pb=1, cbrows=[])
                msk = snd.masks[snd.iod]
                m["sub"] = [x[0] for x in msk]
                m["pbrows"] = cg.pbrows(rng, msk, m["sub"])
            else:
                m = snd.msg(t)
            feed(run, cs, [m], snd.masks, NETS)
            stat(run, cs, 3, 1)
        stat(run, cs, 3, 0)
        stat(run, cs, 9, 0)
        stat(run, cs, 0, 0)
        valid(run, cs, (2200-2000)*604800+7200+bits)
    run.notes["subsets_of_message_kinds"] = 1 << len(kinds)
    for _ in range(150 if run.quick else 2500):
        history(run)
    run.validate("CSSR_Trace")
    run.model_check("CSSRX_MC")
