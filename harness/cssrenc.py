"""Independent encoder of Compact SSR messages (from the message tables of
the Compact SSR specification), plus the projection of a cssr object."""
import numpy as np
from vlib import Bits, lsb, toint, NAN
import gn

GID = {"G": 0, "R": 1, "E": 2, "C": 3, "J": 4}


def gid(s, prn):
    return 7 if s == "C" and prn > 18 else GID[s]


def mbit(gnss, prn):
    if gnss == 4:
        return prn-192
    if gnss == 7:
        return prn-18
    return prn


def head(b, m, st):
    b.u(4073, 12).u(st, 4)
    if st == 1:
        b.u(m["tow"], 20)
    else:
        b.u(m["dtow"], 12)
    return b.u(m["udi"], 4).u(m.get("mi", 0), 1).u(m["iod"], 4)


def enc_mask(b, m, extra=None):
    """m.sats [[sat,[sig..]]..] in mask order; m.cma 0/1"""
    head(b, m, 1)
    grp = []
    for sat, sigs in m["sats"]:
        s, prn = gn.LET[sat//1000], sat % 1000
        g = gid(s, prn)
        if not grp or grp[-1][0] != g:
            grp.append((g, s, []))
        grp[-1][2].append((prn, sigs))
    b.u(len(grp), 4)
    for g, s, lst in grp:
        tab = gn.CSSR_SIG[s]
        union = sorted({tab.index(x) for _, sg in lst for x in sg})
        b.u(g, 4)
        b.mask([mbit(g, p) for p, _ in lst], 40, 1)
        b.mask(union, 16, 0)
        full = all(len(sg) == len(union) for _, sg in lst)
        cma = 0 if full and not m.get("cma", 0) else 1
        b.u(cma, 1)
        if cma:
            for p, sg in lst:
                b.mask([union.index(tab.index(x)) for x in sg],
                       max(len(union), 1), 0)
        if extra is not None:
            extra(b, g, s, lst)


def enc_orb_row(b, r):
    b.u(r[1], 10 if r[0]//1000 == 3 else 8)
    b.s(r[2], 15).s(r[3], 13).s(r[4], 13)


def enc_coef(b, r):
    """r = [sat, c00, c01, c10, c11, c02, c20, stype]"""
    st = r[7]
    b.s(r[1], 14)
    if st > 0:
        b.s(r[2], 12).s(r[3], 12)
    if st > 1:
        b.s(r[4], 10)
    if st > 2:
        b.s(r[5], 8).s(r[6], 8)


STEC_SZ = [4, 4, 5, 7]


def encode(m, mask):
    """bits of message m sent by a sender whose satellite list is mask"""
    b = Bits()
    t = m["t"]
    if t == "MASK":
        enc_mask(b, m)
    elif t == "ORB":
        head(b, m, 2)
        for r in m["orows"]:
            enc_orb_row(b, r)
    elif t == "CLK":
        head(b, m, 3)
        for r in m["crows"]:
            b.s(r[1], 15)
    elif t == "CB":
        head(b, m, 4)
        for r in m["cbrows"]:
            b.s(r[2], 11)
    elif t == "PB":
        head(b, m, 5)
        for r in m["pbrows"]:
            b.s(r[2], 15).u(r[3], 2)
    elif t == "BIAS":
        head(b, m, 6)
        b.u(m["cb"], 1).u(m["pb"], 1).u(m["net"], 1)
        if m["net"]:
            b.u(m["inet"], 5)
            b.mask([k for k, s in enumerate(mask) if s[0] in m["sub"]],
                   len(mask), 0)
        cb, pb = list(m["cbrows"]), list(m["pbrows"])
        for sat, sg in mask:
            if m["net"] and sat not in m["sub"]:
                continue
            for _ in sg:
                if m["cb"]:
                    b.s(cb.pop(0)[2], 11)
                if m["pb"]:
                    r = pb.pop(0)
                    b.s(r[2], 15).u(r[3], 2)
    elif t == "URA":
        head(b, m, 7)
        for r in m["rows"]:
            b.u(r[1], 3).u(r[2], 3)
    elif t == "STEC":
        head(b, m, 8)
        b.u(m["ci"][0][7] if m["ci"] else 0, 2).u(m["inet"], 5)
        b.mask([k for k, s in enumerate(mask) if s[0] in m["sats"]],
               len(mask), 0)
        for r, q in zip(m["ci"], m["q"]):
            b.u(q[1], 3).u(q[2], 3)
            enc_coef(b, r)
    elif t == "GRID":
        head(b, m, 9)
        b.u(m["ttype"], 2).u(m["range"], 1).u(m["inet"], 5)
        b.mask([k for k, s in enumerate(mask) if s[0] in m["sats"]],
               len(mask), 0)
        b.u(m["tq"][0], 3).u(m["tq"][1], 3).u(m["ng"], 6)
        for j in range(m["ng"]):
            if m["ttype"] > 0:
                b.s(m["dth"][j], 9).s(m["dtw"][j], 8)
            for r in m["dst"]:
                b.s(r[1][j], 7 if m["range"] == 0 else 16)
    elif t == "SI":
        b.u(4073, 12).u(10, 4).u(m["mi"], 1).u(m["cnt"], 3)
        b.u(len(m["data"])-1, 2)
        for d in m["data"]:
            b.u(d, 40)
    elif t == "COMB":
        head(b, m, 11)
        b.u(m["orb"], 1).u(m["clk"], 1).u(m["net"], 1)
        if m["net"]:
            b.u(m["inet"], 5)
            b.mask([k for k, s in enumerate(mask) if s[0] in m["sub"]],
                   len(mask), 0)
        o, c = list(m["orows"]), list(m["crows"])
        for sat, sg in mask:
            if m["net"] and sat not in m["sub"]:
                continue
            if m["orb"]:
                enc_orb_row(b, o.pop(0))
            if m["clk"]:
                b.s(c.pop(0)[1], 15)
    elif t == "ATM":
        head(b, m, 12)
        b.u(m["trop"], 2).u(m["stec"], 2).u(m["inet"], 5).u(m["ng"], 6)
        if m["trop"]:
            b.u(m["tq"][0], 3).u(m["tq"][1], 3)
        if m["trop"] & 2:
            b.u(m["ttype"], 2).s(m["tc"][0], 9)
            if m["ttype"] > 0:
                b.s(m["tc"][1], 7).s(m["tc"][2], 7)
            if m["ttype"] > 1:
                b.s(m["tc"][3], 7)
        if m["trop"] & 1:
            b.u(m["tsz"], 1).u(m["tof"], 4)
            for v in m["dtw"]:
                b.s(v, 8 if m["tsz"] else 6)
        b.mask([k for k, s in enumerate(mask) if s[0] in m["sats"]],
               len(mask), 0)
        for k in range(len(m["sats"])):
            if m["stec"]:
                b.u(m["q"][k][1], 3).u(m["q"][k][2], 3)
            if m["stec"] & 2:
                b.u(m["ci"][k][7], 2)
                enc_coef(b, m["ci"][k])
            if m["stec"] & 1:
                r = m["dst"][k]
                b.u(r[1], 2)
                for v in r[2]:
                    b.s(v, STEC_SZ[r[1]])
    return b


def buffer(msgs, masks, tail=0):
    """concatenate messages; masks: iod -> sender's mask"""
    b = Bits()
    for m in msgs:
        b.cat(encode(m, m["sats"] if m["t"] == "MASK"
                     else masks.get(m["iod"], []) if "iod" in m else []))
    b.u(tail, 16)
    return b.tobytes(minlen=b.n//8+64)


# -------------------------------------------------------------- projection
CT = None


def project(cs, nets):
    from cssrlib.cssrlib import sCType
    o = dict(iod=toint(cs.iodssr), iodp=toint(cs.iodssr_p),
             tow=toint(cs.tow), time=gn.t2i(cs.time),
             sats=[gn.unsat(s) for s in cs.sat_n],
             satsp=[gn.unsat(s) for s in cs.sat_n_p],
             sigs=[[x.str()[1:] for x in cs.sig_n[s]] for s in cs.sat_n],
             iodc=[toint(cs.iodssr_c[k]) for k in
                   (sCType.ORBIT, sCType.CLOCK, sCType.CBIAS, sCType.PBIAS)])
    orb, clk, cb, pb, ura, st, tt = [], [], [], [], [], [], []
    for n in nets:
        lc = cs.lc[n]
        for s, v in (lc.dorb or {}).items():
            orb.append([n, gn.unsat(s), toint(lc.iode[s]),
                        lsb(v[0], .0016), lsb(v[1], .0064), lsb(v[2], .0064)])
        for s, v in (lc.dclk or {}).items():
            clk.append([n, gn.unsat(s), lsb(v, .0016)])
        for s, d in (lc.cbias or {}).items():
            for g, v in d.items():
                cb.append([n, gn.unsat(s), g.str(), lsb(v, .02)])
        for s, d in (lc.pbias or {}).items():
            for g, v in d.items():
                pb.append([n, gn.unsat(s), g.str(), lsb(v, .001),
                           toint(lc.di[s][g])])
        for s, v in (lc.ura or {}).items():
            ura.append([n, gn.unsat(s), lsb(v, .00025)])
        for ct, nm in ((sCType.MASK, "mask"), (sCType.ORBIT, "orb"),
                       (sCType.CLOCK, "clk"), (sCType.CBIAS, "cb"),
                       (sCType.PBIAS, "pb"), (sCType.URA, "ura")):
            if lc.cstat & (1 << ct):
                st.append([str(n), nm])
        for s, d in lc.t0.items():
            if s == 0:
                continue
            for ct, nm in ((sCType.ORBIT, "orb"), (sCType.CLOCK, "clk"),
                           (sCType.CBIAS, "cb"), (sCType.PBIAS, "pb")):
                if ct in d and gn.t2i(d[ct]) != -1:
                    tt.append([n, gn.unsat(s), nm, gn.t2i(d[ct])])
    o.update(orb=gn.uset(orb), clk=gn.uset(clk), cb=gn.uset(cb),
             pb=gn.uset(pb), ura=gn.uset(ura), st=gn.uset(st),
             tt=gn.uset(tt))
    return o


def seq(x, scl):
    return [] if x is None else [lsb(v, scl) for v in x]


def project_atm(cs, n):
    lc = cs.lc[n]
    ct = []
    if lc.ct is not None:
        ct = [lsb(lc.ct[0, k], .001) for k in range(4)]+[lsb(lc.ct[1, 0],
                                                             .001)]
    ci = []
    for s, v in (lc.ci or {}).items():
        ci.append([gn.unsat(s)]+[lsb(v[k], q) for k, q in
                                 enumerate((.05, .02, .02, .02, .005, .005))])
    dst = []
    for s, v in getattr(lc, "dstec", {}).items():
        w = [v[j] for j in range(len(v))]
        dst.append((gn.unsat(s), tuple(lsb(x, .04) for x in w)))
    return dict(ng=toint(lc.ng), lsats=[gn.unsat(s) for s in lc.sat_n],
                trop=toint(lc.flg_trop), stec=toint(lc.flg_stec), ct=ct,
                dth=seq(lc.dth, .004), dtw=seq(lc.dtw, .004),
                ci=gn.uset(ci), dst=[[a, list(b)] for a, b in
                                     sorted(set(dst))],
                tq=lsb(getattr(lc, "trop_quality", float("nan")), .00025),
                sq=gn.uset([[gn.unsat(s), lsb(v, .00025)] for s, v in
                            getattr(lc, "stec_quality", {}).items()]))
