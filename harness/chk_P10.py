"""P10: Galileo HAS corrections."""
import cssrgen as cg
import cssrenc as ce
import gn
from vlib import Bits, lsb, toint
from cssrlib.cssr_has import cssr_has
from cssrlib.cssrlib import sCType

GID = {"G": 0, "E": 2}


def groups(mask):
    g = []
    for s, sg in mask:
        c = gn.LET[s//1000]
        if not g or g[-1][0] != c:
            g.append((c, []))
        g[-1][1].append((s, sg))
    return g


def encode(m, mask):
    b = Bits()
    b.u(m["toh"], 12)
    for k in ("mask", "orb", "clk", "sub", "cb", "pb"):
        b.u(m[k], 1)
    b.u(0, 4).u(m["mid"], 5).u(m["iod"], 5)
    if m["mask"]:
        g = groups(m["sats"])
        b.u(len(g), 4)
        for c, lst in g:
            tab = gn.CSSR_SIG[c]
            un = sorted({tab.index(x) for _, sg in lst for x in sg})
            b.u(GID[c], 4).mask([s % 1000 for s, _ in lst], 40, 1)
            b.mask(un, 16)
            full = all(len(sg) == len(un) for _, sg in lst)
            cma = 0 if full and not m["cma"] else 1
            b.u(cma, 1)
            if cma:
                for _, sg in lst:
                    b.mask([un.index(tab.index(x)) for x in sg], len(un))
            b.u(m["nm"], 3)
        b.u(0, 6)
    if m["orb"]:
        b.u(m["vi"], 4)
        for r in m["orows"]:
            b.u(r[1], 10 if r[0]//1000 == 3 else 8)
            b.s(r[2], 13).s(r[3], 12).s(r[4], 12)
    if m["clk"]:
        b.u(m["vi"], 4)
        for d in m["dcm"]:
            b.u(d-1, 2)
        for r in m["crows"]:
            b.s(r[1], 13)
    if m["sub"]:
        b.u(m["vi"], 4)
        g = [(c, lst) for c, lst in groups(mask) if c in m["subg"]]
        b.u(len(g), 4)
        rows = {r[0]: r for r in m["srows"]}
        for c, lst in g:
            b.u(GID[c], 4).u(m["subg"][c]-1, 2)
            b.mask([k for k, x in enumerate(lst) if x[0] in rows], len(lst))
            for s, _ in lst:
                if s in rows:
                    b.s(rows[s][1], 13)
    if m["cb"]:
        b.u(m["vi"], 4)
        for r in m["cbrows"]:
            b.s(r[2], 11)
    if m["pb"]:
        b.u(m["vi"], 4)
        for r in m["pbrows"]:
            b.s(r[2], 11).u(r[3], 2)
    return b.tobytes(minlen=b.n//8+60)


def project(cs):
    lc = cs.lc[0]
    o = dict(mid=toint(cs.mask_id), iod=toint(cs.iodssr), tow=toint(cs.tow),
             time=gn.t2i(cs.time), sats=[gn.unsat(s) for s in cs.sat_n],
             iodc=[toint(cs.iodssr_c[k]) for k in
                   (sCType.ORBIT, sCType.CLOCK, sCType.CBIAS, sCType.PBIAS)])
    o["orb"] = gn.uset([[gn.unsat(s), toint(lc.iode[s]), lsb(v[0], .0025),
                         lsb(v[1], .008), lsb(v[2], .008)]
                        for s, v in (lc.dorb or {}).items()])
    o["clk"] = gn.uset([[gn.unsat(s), lsb(v, .0025)]
                        for s, v in (lc.dclk or {}).items()])
    o["cb"] = gn.uset([[gn.unsat(s), g.str(), lsb(v, .02)]
                       for s, d in lc.cbias.items() for g, v in d.items()])
    o["pb"] = gn.uset([[gn.unsat(s), g.str(), lsb(v, .01), toint(lc.di[s][g])]
                       for s, d in lc.pbias.items() for g, v in d.items()])
    tt = []
    for s, d in lc.t0.items():
        for ct, nm in ((sCType.ORBIT, "orb"), (sCType.CLOCK, "clk"),
                       (sCType.CBIAS, "cb"), (sCType.PBIAS, "pb")):
            if s and ct in d and gn.t2i(d[ct]) != -1:
                tt.append([gn.unsat(s), nm, gn.t2i(d[ct])])
    o["tt"] = gn.uset(tt)
    return o


def new(week, tow0):
    cs = cssr_has()
    cs.monlevel = 0
    cs.msgtype = 1
    cs.week = week
    cs.tow0 = tow0
    return cs


def feed(run, cs, m, mask):
    r, exc = run.call(cs.decode_cssr, encode(m, mask), 0)
    out = {}
    if not exc:
        out, exc = run.call(project, cs)
    run.ev("has", out=out, exc=exc, m=m)


def message(rng, mid, iod, toh, masks, hasmask=None):
    mask = masks[mid]
    sats = [x[0] for x in mask]
    m = dict(toh=toh, mid=mid, iod=iod, vi=rng.randrange(16), nm=0, cma=0)
    m["mask"] = int(rng.random() < .3) if hasmask is None else hasmask
    for k in ("orb", "clk", "sub", "cb", "pb"):
        m[k] = int(rng.random() < .35)
    if m["mask"]:
        m.update(sats=mask, cma=rng.randrange(2), nm=rng.randrange(8))
    if m["orb"]:
        m["orows"] = [[s, cg.iode(rng, s), cg.sval(rng, 13), cg.sval(rng, 12),
                       cg.sval(rng, 12)] for s in sats]
    g = groups(mask)
    if m["clk"]:
        m["dcm"] = [rng.randint(1, 4) for _ in g]
        m["crows"] = [[s, cg.sval(rng, 13), d] for d, (_, lst) in
                      zip(m["dcm"], g) for s, _ in lst]
    if m["sub"]:
        sel = [c for c, _ in g if rng.random() < .7] or [g[0][0]]
        m["subg"] = {c: rng.randint(1, 4) for c in sel}
        m["srows"] = [[s, cg.sval(rng, 13), m["subg"][c]] for c, lst in g
                      if c in sel for s, _ in lst if rng.random() < .6]
    if m["cb"]:
        m["cbrows"] = cg.cbrows(rng, mask, sats)
    if m["pb"]:
        m["pbrows"] = cg.pbrows(rng, mask, sats, 11)
    return m


def history(run):
    rng = run.rng
    week = rng.choice([2300, 2222, -1])
    tow0 = rng.randrange(168)*3600
    run.hist(week=week, tow0=tow0)
    cs = new(week, tow0)
    masks = {k: cg.mask(rng, 8, rng.choice(["GE", "GE", "E", "G"]))
             for k in rng.sample(range(32), 3)}
    ids = list(masks)
    cur = ids[0]
    iod = rng.randrange(32)
    for k in range(rng.randint(4, 12)):
        if rng.random() < .2:
            cur = rng.choice(ids)
        if rng.random() < .3:
            iod = (iod+1) % 32
        toh = rng.choice([0, 3599, 3600, 4095]) if rng.random() < .15 else \
            rng.randrange(3600)
        mid = rng.choice(ids) if rng.random() < .15 else cur
        feed(run, cs, message(rng, mid, iod, toh, masks,
                              1 if k == 0 and rng.random() < .8 else None),
             masks[mid])


def main(run):
    run.model_check("HAS_MC")
    edges = run.model_check("HAS_MC", emit=True)
    mk = {1: [[1001, ["1C"]], [3002, ["1C", "5Q"]]],
          2: [[1001, ["1C"]], [3003, ["1C"]]]}
    for cfg, evs in run.paths(edges, maxlen=80,
                              budget=150 if run.quick else None):
        run.hist(**cfg)
        cs = new(cfg["week"], cfg["tow0"])
        for e in evs:
            m = dict(e["m"], vi=3, nm=0, cma=0)
            if m["sub"]:
                m["subg"] = {"E": 2}
            feed(run, cs, m, mk[m["mid"]])
    run.validate("HAS_Trace", label="mc")
    for _ in range(150 if run.quick else 2500):
        history(run)
    run.validate("HAS_Trace")
