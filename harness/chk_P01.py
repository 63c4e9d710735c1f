"""P01: satellite numbers, names, signal codes."""
import gn
from vlib import toint, BADTYPE, INEXACT
from cssrlib import gnss as G
from cssrlib.gnss import rSigRnx, uTYP, uGNSS

TY = dict(C=uTYP.C, L=uTYP.L, D=uTYP.D, S=uTYP.S)
BANDS = {
    1: {1: "CSLXPWYMN", 2: "CDSLXPWYMN", 5: "IQX"},
    2: {1: "CP", 2: "CP", 3: "IQX", 4: "ABX", 6: "ABX"},
    3: {1: "ABCXZ", 5: "IQX", 6: "ABCXZ", 7: "IQX", 8: "IQX"},
    4: {1: "DPXSLZ", 2: "IQX", 5: "DPX", 6: "IQXDPZ", 7: "IQXDPZ", 8: "DPX"},
    5: {1: "CESLXZB", 2: "SLX", 5: "IQXDPZ", 6: "SLXEZ"},
    6: {1: "C", 5: "IQX"},
    7: {1: "DPX", 5: "ABCX", 9: "ABCX"}}


def satev(run, s, p):
    sysn = gn.SYS[gn.LET[s]]

    def f():
        n = G.prn2sat(sysn, p)
        s2, p2 = G.sat2prn(n)
        name = G.sat2id(n)
        back = G.id2sat(name)
        c = G.sys2char(uGNSS(s2))
        if G.char2sys(c) != s2:
            back = -5
        return dict(n=toint(n),
                    s=gn.SIDX.get(c, -1), p=toint(p2), name=str(name),
                    back=toint(back))
    r, exc = run.call(f)
    run.ev("sat", out=r if not exc else {}, exc=exc, s=s, p=p)


def codeev(run, s, ty, b, a, ty2, a2, k, hask):
    sysn = gn.SYS[gn.LET[s]]
    code = f"{ty}{b}{a}"
    form = run.rng.randrange(2)

    def f():
        try:
            x = rSigRnx(gn.LET[s]+code) if form else rSigRnx(sysn, code)
        except ValueError:
            return dict(rej=1)
        y = rSigRnx(x.sys, x.typ, x.sig)
        t = x.toTyp(TY[ty2])
        att = ""
        same = x == y and hash(x) == hash(y) and t.toTyp(TY[ty]) == x \
            and x.sys == sysn and x.typ == TY[ty] and t.typ == TY[ty2]
        if a2 in BANDS[s].get(b, ""):
            z = x.toAtt(a2)
            att = z.str()
            same = same and z.toAtt(a) == x and z.sys == sysn and \
                z.typ == TY[ty] and (z == x) == (a == a2)
        fr = x.frequency(k) if hask else x.frequency()
        wl = x.wavelength(k) if hask else x.wavelength()
        if fr is None:
            f_ = 0 if wl is None else BADTYPE
        else:
            f_ = toint(round(fr/100)) if abs(fr/100-round(fr/100)) < 1e-3 \
                else INEXACT
            if abs(wl*fr/299792458.0-1) > 1e-12:
                f_ = BADTYPE
        return dict(rej=0, str=x.str(), rep=repr(x), typ=t.str(), att=att,
                    same=int(same), f=f_)
    r, exc = run.call(f)
    run.ev("code", out=r if not exc else {}, exc=exc, s=s, ty=ty, b=b, a=a,
           ty2=ty2, a2=a2, k=k, hask=hask)


def main(run):
    rng = run.rng
    run.model_check("Sig_MC")
    allsats = [(gn.SIDX[c], p) for c, (a, b) in gn.RANGE.items()
               for p in range(a, b+1)]
    for _ in range(2 if run.quick else 10):
        run.hist(max=int(uGNSS.MAXSAT))
        q = list(allsats)
        rng.shuffle(q)
        for s, p in q:
            satev(run, s, p)
        for s, p in rng.sample(q, 40):
            satev(run, s, p)
    for s, bands in BANDS.items():
        for b, attrs in bands.items():
            run.hist(max=int(uGNSS.MAXSAT))
            for a in "ABCDEFGHIJKLMNOPQRSTUVWXYZ":
                if s == 2 and b in (1, 2) and a == "X":
                    continue      # tolerated by the library
                for ty in "CLDS":
                    codeev(run, s, ty, b, a, rng.choice("CLDS"),
                           rng.choice(attrs), rng.randint(-7, 6),
                           rng.randrange(2))
    # equality is identity of system, type, band and attribute
    run.hist(max=int(uGNSS.MAXSAT))
    pool = [(gn.LET[s], t, b, a) for s, q in BANDS.items()
            for b, at in q.items() for a in at for t in "CLDS"]
    for _ in range(400 if run.quick else 5000):
        x, y = rng.choice(pool), rng.choice(pool)
        if rng.random() < .6:
            y = list(x)
            i = rng.randrange(4)
            y[i] = rng.choice([p[i] for p in pool])
            y = tuple(y)
            if y not in pool:
                continue

        def f():
            u, v = (rSigRnx(f"{a}{b}{c}{d}") for a, b, c, d in (x, y))
            if (u == v) != (len({u, v}) == 1):
                return 2
            return int(u == v)
        r, exc = run.call(f)
        run.ev("eq", out=dict(eq=r), exc=exc,
               x=f"{x[0]}{x[1]}{x[2]}{x[3]}", y=f"{y[0]}{y[1]}{y[2]}{y[3]}")
    run.validate("Sig_Trace")
