"""P05: Compact SSR atmosphere corrections and their interpolation."""
import numpy as np
import cssrenc as ce
import cssrgen as cg
import gn
from chk_P04 import new
from vlib import lsb, toint, NAN

NETS = [0, 1, 2, 5]


def mkgrid(rng, ngs):
    rows = []
    for n, ng in ngs.items():
        for k in range(ng):
            rows.append((n, k+1, 30+n+.3*k, 130+.4*(k % 3), 0.))
    return np.array(rows, dtype=[('nid', '<i4'), ('gid', '<i4'),
                                 ('lat', '<f8'), ('lon', '<f8'),
                                 ('alt', '<f8')])


def feed(run, cs, msgs, masks, net):
    buf = ce.buffer(msgs, masks)
    r, exc = run.call(cs.decode_cssr, buf, 0)
    out = {}
    if not exc:
        out, exc = run.call(ce.project_atm, cs, net)
    run.ev("atm", out=out, exc=exc, msgs=msgs, net=net)


UT = 2000*16        # STEC in 1/16000 TECU: dlat, dlon in quarter degrees


def interp(run, cs, net, a, b, idx, w):
    """correction at (a/4, b/4) deg from the reference point; residuals of
    grid points idx (1-based) with weights w/16"""
    cs.inet_ref = net
    cs.grid_index = np.array(idx)
    cs.grid_weight = np.array(w)/16.
    out = {}
    (r, exc) = run.call(cs.get_trop, a/4., b/4.)
    if not exc:
        out["trop"] = [lsb(r[0], 1/16000., 1e-4), lsb(r[1], 1/16000., 1e-4)]
        r, exc = run.call(cs.get_stec, a/4., b/4.)
    if not exc:
        out["stec"] = [lsb(x, 1/16000., 1e-4) for x in r]
    run.ev("interp", out=out, exc=exc, net=net, a=a, b=b, idx=idx, w=w)


def history(run, kind):
    rng = run.rng
    week = 2238
    tow = 3600*rng.randrange(167)+rng.randrange(3000)
    snd = cg.Sender(rng, NETS, tow, nmax=5)
    run.hist(week=week, nets=NETS)
    cs = new(week)
    ngs = {n: rng.randint(1, 8) for n in NETS[1:]}
    cs.grid = mkgrid(rng, ngs)
    feed(run, cs, [snd.maskmsg()], snd.masks, NETS[1])
    have = set()
    for _ in range(rng.randint(3, 9)):
        snd.advance(rng.choice([5, 30]))
        if snd.tow//3600*3600 != snd.hour or rng.random() < .1:
            if rng.random() < .5:
                snd.newmask()
            feed(run, cs, [snd.maskmsg()], snd.masks, NETS[1])
        net = rng.choice(NETS[1:])
        t = rng.choice(["STEC", "GRID"]) if kind == 0 else "ATM"
        old = snd.prev is not None and rng.random() < .15
        msgs = [snd.atm(t, net, ngs[net], snd.prev if old else None)]
        if rng.random() < .3:
            t2 = t if kind else rng.choice(["STEC", "GRID"])
            net2 = rng.choice(NETS[1:])
            msgs.append(snd.atm(t2, net2, ngs[net2]))
        feed(run, cs, msgs, snd.masks, rng.choice(NETS[1:]))
        for n in NETS[1:]:
            feed(run, cs, [], snd.masks, n)
        have.add(net)
        if kind == 1:
            for n in have:
                lc = cs.lc[n]
                if not old and lc.flg_trop in (0, 2, 3) and \
                        snd.iod == cs.iodssr and lc.ct is not None:
                    g = rng.sample(range(1, ngs[n]+1),
                                   min(ngs[n], rng.choice([1, 2, 4])))
                    w = [[16], [5, 11], [4, 5, 7], [1, 3, 4, 8]][len(g)-1] \
                        if len(g) < 5 else [16]
                    interp(run, cs, n, rng.randint(-6, 6), rng.randint(-6, 6),
                           g, w)


def gridsel(run):
    """grid selection and weights.  Points on the equator and on a meridian
    so that all distances are integers (unit: 0.1 deg, i.e. > 5 km)"""
    rng = run.rng
    run.hist(week=2200, nets=NETS)
    tri = [(3, 4), (4, 3), (6, 8), (8, 6), (5, 12), (12, 5), (8, 15), (15, 8),
           (0, 5), (5, 0), (0, 7), (9, 0), (0, 11), (13, 0), (20, 21)]
    for _ in range(60 if run.quick else 600):
        rows = []
        pts = []
        for net in range(1, rng.randint(2, 4)):
            n = rng.randint(1, 6)
            sel = rng.sample(tri, n)
            used = set()
            for k, (x, y) in enumerate(sel):
                x *= rng.choice([-1, 1])
                y *= rng.choice([-1, 1])
                if rng.random() < .1 and not pts:
                    x = y = 0
                rows.append((net, k+1, x*.1, y*.1+10., 0.))
                pts.append([net, k+1, x, y])
        from cssrlib.cssrlib import cssr
        cs = cssr()
        cs.grid = np.array(rows, dtype=[('nid', '<i4'), ('gid', '<i4'),
                                        ('lat', '<f8'), ('lon', '<f8'),
                                        ('alt', '<f8')])
        pos = np.array([0., np.deg2rad(10.), 0.])
        d = sorted(x*x+y*y for _, _, x, y in pts)
        if len(d) > 1 and len(set(d)) != len(d):
            continue                      # ties: any choice is right
        r, exc = run.call(cs.find_grid_index, pos)
        out = {}
        if not exc:
            gi = np.atleast_1d(cs.grid_index)
            gw = np.atleast_1d(cs.grid_weight)
            rr, exc = run.call(lambda: dict(
                net=toint(r), n=toint(len(gi)),
                near=[toint(x) for x in gi[:3]],
                distinct=int(len(set(gi.tolist())) == len(gi)),
                inv=[lsb(w/gw[0]*1000, 1., .6) for w in gw],
                sum=lsb(np.sum(gw), 1e-6, .01),
                fourth=toint(gi[3]) if len(gi) > 3 else 0))
            out = rr or {}
        # "fourth" is free among the farther points (or absent)
        run.ev("gridsel", out={k: v for k, v in out.items()
                               if k != "fourth"}, exc=exc, pts=pts,
               fourth=out.get("fourth", 0))


def main(run):
    for i in range(120 if run.quick else 2000):
        history(run, i % 2)
    gridsel(run)
    run.validate("CSSRA_Trace")
    run.model_check("CSSRX_MC")
