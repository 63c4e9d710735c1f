"""P20: RTCM ephemeris messages."""
import gn
import navfmt as nf
from navfmt import seq, near
from vlib import toint, BADTYPE
from chk_P16 import bit, same, wt, val
from cssrlib.rtcm import rtcm

KEPL = "crs:s16 deln:s16 M0:s32 cuc:s16 e:u32 cus:s16 sqrtA:u32"
ORB = "cic:s16 OMG0:s32 cis:s16 i0:s32 crc:s16 omg:s32 OMGd:s24"
FMT = {
    1019: "prn:u6 wn:u10 sva:u4 code:u2 idot:s14 iode:u8 toc:u16 af2:s8 "
          f"af1:s16 af0:s22 iodc:u10 {KEPL} toe:u16 {ORB} tgd:s8 svh:u6 "
          "flag:u1 fit:u1",
    1044: "prn:u4 toc:u16 af2:s8 af1:s16 af0:s22 iode:u8 "
          f"{KEPL} toe:u16 {ORB} idot:s14 code:u2 wn:u10 sva:u4 svh:u6 "
          "tgd:s8 iodc:u10 fit:u1",
    1045: "prn:u6 wn:u12 iod:u10 sva:u8 idot:s14 toc:u14 af2:s6 af1:s21 "
          f"af0:s31 {KEPL} toe:u14 {ORB} tgd:s10 e5ahs:u2 e5advs:u1 _:u7",
    1046: "prn:u6 wn:u12 iod:u10 sva:u8 idot:s14 toc:u14 af2:s6 af1:s21 "
          f"af0:s31 {KEPL} toe:u14 {ORB} tgdb:s10 tgd:s10 e5bhs:u2 "
          "e5bdvs:u1 e1bhs:u2 e1bdvs:u1 _:u2",
    1042: "prn:u6 wn:u13 sva:u4 idot:s14 iode:u5 toc:u17 af2:s11 af1:s22 "
          "af0:s24 iodc:u5 crs:s18 deln:s16 M0:s32 cuc:s18 e:u32 cus:s18 "
          "sqrtA:u32 toe:u17 cic:s18 OMG0:s32 cis:s18 i0:s32 crc:s18 "
          "omg:s32 OMGd:s24 tgd:s10 tgdb:s10 svh:u1",
    1041: "prn:u6 wn:u10 af0:s22 af1:s16 af2:s8 sva:u4 toc:u16 tgd:s8 "
          "deln:s22 iod:u8 _:u10 svh:u2 cuc:s15 cus:s15 cic:s15 cis:s15 "
          "crc:s15 crs:s15 idot:s14 M0:s32 toe:u16 e:u32 sqrtA:u32 "
          "OMG0:s32 omg:s32 OMGd:s22 i0:s32 _:u4",
    1020: "prn:u6 frq:u5 _:u2 p1:u2 tkh:u5 tkm:u6 tks:u1 bn:u1 p2:u1 tb:u7 "
          "v0:g24 x0:g27 a0:g5 v1:g24 x1:g27 a1:g5 v2:g24 x2:g27 a2:g5 "
          "p3:u1 gam:g11 p:u2 _:u1 tau:g22 dtau:g5 en:u5 p4:u1 _:u4 _:u11 "
          "m:u2 _:u1 _:u11 _:u32 _:u5 _:u22 _:u1 _:u7",
    1043: "prn:u6 iodn:u8 t0:u13 ura:u4 x0:s30 x1:s30 x2:s25 v0:s17 v1:s17 "
          "v2:s18 a0:s10 a1:s10 a2:s10 af0:s12 af1:s8",
}
LAY = {m: seq(0, s) for m, s in FMT.items()}
LEN = {m: sum(int(w.split(":")[1][1:]) for w in s.split())
       for m, s in FMT.items()}
SCL = {1019: "lnav", 1044: "lnav", 1045: "inav", 1046: "inav", 1042: "d1",
       1041: "irn"}
SYS = {1019: "G", 1020: "R", 1041: "I", 1042: "C", 1043: "S", 1044: "J",
       1045: "E", 1046: "E"}
BASE = dict(J=192, S=119)
DROP = {"prn", "wn", "toe", "toc", "tkh", "tkm", "tks", "t0"}


def message(e, rng):
    L = LAY[e["mt"]]
    h = nf.Msg(36+LEN[e["mt"]], rng)
    h.put(0, 8, 0xd3).put(8, 16, (LEN[e["mt"]]+12+7)//8)
    h.put(24, 12, e["mt"])
    for n, k, w, pl in L:
        h.field((n, k, w, [(p+36, b) for p, b in pl]), nf.unpack(e["f"][n]))
    return h.bytes(pad=rng.choice([0, 3, 8]))


def eph_view(mt, e):
    f = {}
    for n, k, w, _ in LAY[mt]:
        if n in DROP:
            continue
        S = nf.SCALE[SCL[mt]]
        if n == "sqrtA":
            v = near(abs(float(e.A))**.5, 2.0**-19, w)
        elif n == "tgdb":
            v = near(e.tgd_b, 1e-10 if mt == 1042 else 2.0**-32, w)
        elif n in S:
            ex, sc = S[n]
            v = near(getattr(e, n), 2.0**-ex*(nf.PI if sc else 1), w)
        elif n == "tgd":
            v = near(e.tgd, 1e-10, w)
        elif n == "iod":
            v = same(e.iode, e.iodc)
        elif n in ("e5bhs", "e5bdvs", "e1bhs", "e1bdvs", "e5ahs", "e5advs"):
            p, q = dict(e5bhs=(7, 2), e5bdvs=(6, 1), e1bhs=(1, 2),
                        e1bdvs=(0, 1), e5ahs=(4, 2), e5advs=(3, 1))[n]
            v = bit(e.svh, p, q)
        else:
            v = toint(getattr(e, n))
        f[n] = v
    o = dict(s=gn.unsat(e.sat), week=toint(e.week), mode=toint(e.mode),
             toe=wt(e.toe), toc=wt(e.toc), f=f)
    if mt in (1045, 1046):
        o["code"] = toint(e.code)
    return o


def glo_view(g):
    f = {}
    for n, k, w, _ in LAY[1020]:
        if n in DROP:
            continue
        if n[0] in "xva" and n[1:] in "012":
            a = dict(x=g.pos, v=g.vel, a=g.acc)[n[0]]
            v = near(a[int(n[1])], 1e3*2.0**-dict(x=11, v=20, a=30)[n[0]], w)
        elif n in ("tau", "dtau", "gam"):
            a, x = dict(tau=("taun", 30), dtau=("dtaun", 30),
                        gam=("gamn", 40))[n]
            v = near(getattr(g, a), 2.0**-x, w)
        elif n in ("m", "p4", "p3", "p2", "p1", "p"):
            p, q = dict(m=(7, 2), p4=(6, 1), p3=(5, 1), p2=(4, 1), p1=(2, 2),
                        p=(0, 2))[n]
            v = bit(g.status, p, q)
        elif n == "frq":
            v = toint(g.frq+7)
        else:
            v = toint(getattr(g, dict(bn="svh", tb="iode", en="age")[n]))
        f[n] = v
    return dict(s=gn.unsat(g.sat), mode=toint(g.mode), toe=wt(g.toe),
                tof=wt(g.tof), f=f)


def sbs_view(g):
    f = {}
    for n, k, w, _ in LAY[1043]:
        if n in DROP:
            continue
        if n[0] in "xva" and n[1:] in "012":
            a = dict(x=g.pos, v=g.vel, a=g.acc)[n[0]]
            q = dict(x=(.08, .08, .4), v=(6.25e-4, 6.25e-4, 4e-3),
                     a=(1.25e-5, 1.25e-5, 6.25e-5))[n[0]][int(n[1])]
            v = near(a[int(n[1])], q, w)
        elif n in ("af0", "af1"):
            v = near(getattr(g, n), 2.0**-(31 if n == "af0" else 40), w)
        else:
            v = toint(getattr(g, dict(iodn="iode", ura="ura")[n]))
        f[n] = v
    return dict(s=gn.unsat(g.sat), mode=toint(g.mode), toe=wt(g.t0), f=f)


def view(mt, r):
    _, obs, eph, geph, seph = r
    if mt == 1020:
        return glo_view(geph)
    if mt == 1043:
        return sbs_view(seph)
    return eph_view(mt, eph)


class Dut:
    def __init__(self, run, w, t):
        self.run = run
        run.hist(w=w, t=t)
        self.d = rtcm()
        self.settime(w, t)

    def settime(self, w, t):
        self.d.week = w
        self.d.time = gn.gtime_t(gn.GPS0+w*604800+t, 0.0)

    def time(self, w, t):
        self.settime(w, t)
        self.run.ev("time", out=dict(x=0), w=w, t=t)

    def eph(self, e):
        run = self.run
        msg = message(e, run.rng)
        r, exc = run.call(self.d.decode, msg)
        out = {}
        if not exc:
            out, x = run.call(view, e["mt"], r)
            if x:
                out, exc = {}, "view:"+x
        f = {k: v for k, v in e["f"].items() if k != "_"}
        run.ev("eph", out=out, exc=exc, mt=e["mt"], s=e["s"], f=f)


def event(rng, mt, w, t):
    y = SYS[mt]
    a, b = gn.RANGE[y]
    if y == "J":
        b = 207
    if y == "R":
        b = 27
    p = rng.choice([a, b, rng.randint(a, b)])
    if y == "S":
        p = rng.randint(120, 158)
    f = {n: val(rng, k, n2) for n, k, n2, _ in LAY[mt]}
    for n, k, w2, _ in LAY[mt]:
        if n == "_":
            f[n] = 0
        if k == "g" and f[n] == 0:
            f[n] = 0
    f["_"] = 0
    f["prn"] = p-BASE.get(y, 0)
    if "wn" in f:
        off = rng.choice([0, 0, 0, -1, 1, rng.randint(-500, 500)])
        ww = max(0, w+off)
        if y == "C":
            ww = max(1356, min(ww, 1356+8191))
            f["wn"] = ww-1356
        elif y == "E":
            ww = max(1024, ww)
            f["wn"] = (ww-1024) % 4096
        else:
            f["wn"] = ww % 1024
        n = dict(E=60, C=8).get(y, 16)
        for k in ("toe", "toc"):
            f[k] = rng.choice([0, 604800//n-1, rng.randrange(604800//n)])
    if mt == 1020:
        k = ((t-18) % 86400)//900+12
        f["tb"] = (k+rng.randint(-46, 46)) % 96
        x = (t-18+10800+30*rng.randint(-1400, 1400)) % 86400
        f["tkh"], f["tkm"], f["tks"] = x//3600, x//60 % 60, x//30 % 2
        f["frq"] = rng.randrange(14)
    if mt == 1043:
        k = (t % 86400)//16
        f["t0"] = (k+rng.randint(-2600, 2600)) % 5400
    return dict(op="eph", mt=mt, s=gn.sid(y, p), f=f)


def main(run):
    rng = run.rng
    run.assumptions += [
        "the caller keeps the decoder's time within half a week count cycle "
        "(512 weeks) of the ephemeris, for GLONASS and SBAS within half a "
        "day (less a margin of 15 minutes); leap seconds: 18",
        "accuracy indices are kept as transmitted"]
    run.model_check("RtcmEph_MC")
    for h in range(60 if run.quick else 1500):
        w = rng.choice([2047, 2048, 2049, 2559, 2560, 3071, 3072,
                        rng.randint(1940, 3500)])
        t = rng.choice([0, 30, 604799, 86399, 86400,
                        rng.randrange(604800)])
        d = Dut(run, w, t)
        mts = list(FMT)
        rng.shuffle(mts)
        for mt in mts+rng.choices(mts, k=4):
            d.eph(event(rng, mt, w, t))
            if rng.random() < .2:
                t += rng.choice([30, 3600, 86400])
                w, t = w+t//604800, t % 604800
                d.time(w, t)
    run.validate("RtcmEph_Trace")
