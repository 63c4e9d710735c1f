"""P31: RTCM station, network and regional atmosphere messages."""
import numpy as np
import gn
from vlib import Bits, lsb, toint, NAN, BADTYPE
from cssrlib.rtcm import rtcm, rtcme
from cssrlib.cssrlib import local_corr, sCType

MAPW = [11, 9, 9, 13, 6, 5]
MAPL = [(2.5e-7, .00118), (5e-6, .00298), (2e-4, .0682), (1e-6, .000104),
        (2.5e-5, .0015), (2e-3, .048)]
CTW = [13, 15, 15, 13, 15, 15]        # 00h 10h 01h 00w 10w 01w
CTL = [(1e-4, 2.3), (1e-5, 0), (1e-5, 0), (1e-4, .252), (1e-5, 0), (1e-5, 0)]
CTI = [(0, 0), (0, 2), (0, 1), (1, 0), (1, 2), (1, 1)]
SYS = {1030: "G", 1031: "R", 1303: "C", 1304: "E", 1305: "J",
       96: "G", 97: "R", 98: "E", 99: "C", 100: "J"}
STA = (1005, 1006, 1032, 1007, 1008, 1033, 1230)
RES = (1030, 1031, 1303, 1304, 1305)
GRID = [("nid", "i4"), ("gid", "i4"), ("lat", "f8"), ("lon", "f8"),
        ("alt", "f8")]


def svid(s):
    return s % 1000-(192 if s//1000 == 5 else 0)


def frame(mt, b, rng):
    m = Bits().u(mt, 12).cat(b)
    while m.n % 8:
        m.u(rng.choice([0, 0, 1]), 1)
    d = m.tobytes()
    return bytes([0xd3, len(d) >> 8, len(d) & 255])+d+bytes(
        rng.randrange(256) for _ in range(3))


def body(mt, f, t):
    b = Bits()
    if mt in (1005, 1006, 1032):
        if mt == 1032:
            b.u(f["np"], 12)
        b.u(f["ref"], 12).u(t["itrf"], 6)
        v = [p[0]*10000+p[1] for p in f["pos"]]
        if mt == 1032:
            return b.s(v[0], 38).s(v[1], 38).s(v[2], 38)
        b.u(t["ind"], 3).u(f["non"], 1)
        b.s(v[0], 38).u(t["ind"] & 3, 2).s(v[1], 38).u(t["ind"] >> 1, 2)
        b.s(v[2], 38)
        return b.u(f["h"], 16) if mt == 1006 else b
    if mt in (1007, 1008, 1033):
        def txt(k):
            b.u(len(f[k]), 8)
            for c in f[k]:
                b.u(c, 8)
        b.u(f["ref"], 12)
        txt("desc")
        b.u(f["setup"], 8)
        if mt != 1007:
            txt("ser")
        if mt == 1033:
            for k in ("rtyp", "fw", "rser"):
                txt(k)
        return b
    if mt == 1230:
        b.u(f["ref"], 12).u(t["ind"] & 1, 1).u(t["ind"], 3)
        for k in range(4):
            b.u(f["mask"][k], 1)
        for k in range(4):
            if f["mask"][k]:
                b.s(f["b"][k], 16)
        return b
    if mt == 1029:
        u = bytes(f["text"])
        b.u(t["itrf"]*60, 12).u(59000, 16).u(t["tod"], 17)
        b.u(min(127, len(u.decode())), 7).u(len(u), 8)
        for c in u:
            b.u(c, 8)
        return b
    if mt in RES:
        if mt == 1031:
            b.u(t["tod"], 17)
        else:
            b.u(t["tow"], 20)
        b.u(f["ref"], 12).u(t["itrf"], 7).u(len(f["r"]), 5)
        for r in f["r"]:
            b.u(svid(r[0]), 4 if mt == 1305 else 6)
            b.u(r[1], 8).u(r[2], 9).u(r[3], 6).u(r[4], 10).u(r[5], 10)
        return b
    if mt == 61:
        b.u(t["pid"], 16).u(t["ind"] & 1, 1).u(f["gid"], 10)
        b.u(0 if f["alt"] else 1, 3).s(f["p0"][0], 18).s(f["p0"][1], 19)
        if f["alt"]:
            b.u(f["p0"][2], 10)
        b.u(f["ofst"], 12).u(len(f["d"]), 8)
        for d in f["d"]:
            b.s(d[0], 13).s(d[1], 14)
            if f["alt"]:
                b.s(d[2], 9)
        return b
    # header of SSR
    if mt == 97:
        b.u(t["tod"], 17)
    else:
        b.u(t["tow"], 20)
    b.u(t["ind"], 4).u(t["ind"] & 1, 1).u(t["itrf"] & 15, 4).u(t["pid"], 16)
    b.u(t["itrf"] >> 2, 4)
    if mt == 95:
        b.u(f["gid"], 10).u(f["rmi"], 1)
        for v, w in zip(f["map"]+f["ct"], MAPW+CTW):
            b.s(v, w)
        if f["rmi"]:
            ng = max(len(f["rh"]), len(f["rw"]))
            b.u(f["ofst"], 12).u(ng, 12).u(f["n"], 4).u(f["m"], 4)
            for k in range(ng):
                if f["n"]:
                    b.s(f["rh"][k], f["n"])
                if f["m"]:
                    b.s(f["rw"][k], f["m"])
        return b
    sats = [c[0] for c in f["c"]]
    b.u(f["gid"], 10).u(f["pmi"], 1).u(f["rmi"], 1)
    b.mask([svid(s) for s in sats], 64, 1)
    if f["pmi"]:
        b.u(f["pgi"], 1)
        for c in f["c"]:
            b.s(c[1], 17)
            if f["pgi"]:
                b.s(c[2], 18).s(c[3], 18)
    if f["rmi"]:
        b.u(f["ofst"], 12).u(f["ng"], 12).u(f["rlen"], 5)
        if f["rlen"]:
            b.u(f["sf"], 3)
            for r in f["r"]:
                for v in r[1]:
                    b.s(v, f["rlen"])
    return b


def split(x):
    """metres -> <<whole, tenths of millimetres>>"""
    v = round(float(x)*1e4)
    if abs(float(x)*1e4-v) > 1e-3:
        return [BADTYPE, 0]
    return [v//10000, v % 10000]


def codes(s):
    return [ord(c) for c in s] if isinstance(s, str) else [BADTYPE]


def view(d):
    o = dict(ok=1)
    g = d.__dict__.get
    o["ref"] = toint(g("refid", -1))
    o["np"] = toint(g("np_staid", -1))
    o["non"] = toint(g("sti", -1))
    o["h"] = -1 if g("ant_height") is None else lsb(d.ant_height, 1e-4, 1e-4)
    o["pos"] = [] if d.pos_arp is None else [split(v) for v in d.pos_arp]
    o["desc"] = [-1] if d.ant_desc == "unknown" else codes(d.ant_desc)
    o["setup"] = -1 if d.ant_id == "" else toint(d.ant_id)
    o["ser"] = codes(d.ant_serial)
    o["rtyp"] = codes(d.rcv_type)
    o["fw"] = [-1] if d.firm_ver == "unknown" else codes(d.firm_ver)
    o["rser"] = codes(d.rcv_serial)
    o["glo"] = [] if d.glo_bias is None else [lsb(v, .02) for v in d.glo_bias]
    o["text"] = [-1] if g("ustr") is None else list(d.ustr.encode())
    o["res"] = [[gn.unsat(s)]+[lsb(v, q) for v, q in
                               zip(r, (5e-4, 1e-8, 1e-7, 5e-4, 1e-8))]
                for s, r in d.nrtk_r.items()]
    o["grid"] = [] if d.grid is None else [
        [toint(p["nid"]), toint(p["gid"]), lsb(p["lat"], 1e-3, 1e-5),
         lsb(p["lon"], 1e-3, 1e-5), lsb(p["alt"]+1000, 12.5, 1e-5)
         if d.gtype == 0 else lsb(p["alt"], 1)] for p in d.grid]
    o["ref0"] = []
    if d.grid is not None:
        p = d.pos0
        o["ref0"] = [lsb(p[0], 1e-3, 1e-5), lsb(p[1], 1e-3, 1e-5),
                     lsb(p[2]+1000, 12.5, 1e-5) if d.gtype == 0 else
                     lsb(p[2], 1)]
    o["trop"], o["ion"], o["rsd"] = [], [], []
    for g, lc in enumerate(d.lc):
        if lc.ct is not None:
            m = list(lc.maph)+list(lc.mapw)
            o["trop"].append(
                [g, [lsb(v-q[1], q[0], 1e-4) for v, q in zip(m, MAPL)],
                 [lsb(lc.ct[i]-q[1], q[0], 1e-4) for i, q in zip(CTI, CTL)],
                 [] if lc.dth is None else [[lsb(v, 1e-4) for v in lc.dth]],
                 [] if lc.dtw is None else [[lsb(v, 1e-4) for v in lc.dtw]]])
        for s, c in (lc.ci or {}).items():
            o["ion"].append([g, gn.unsat(s), [lsb(c[0], .01)] +
                             [lsb(v, 1e-3) for v in c[1:]]])
        for s, r in getattr(lc, "dstec", {}).items():
            o["rsd"].append([g, gn.unsat(s), [lsb(v, 1e-3) for v in r]])
    return o


class Dut:
    def __init__(self, run):
        self.run = run
        run.hist(x=0)
        self.d = rtcm()
        self.d.monlevel = 0
        self.d.week = 2300
        self.d.time = gn.gtime_t(gn.GPS0+2300*604800+345600, 0.0)

    def decode(self, msg, mode):
        self.d.mt_skip = [int.from_bytes(msg[3:5], "big") >> 4] \
            if mode == "skip" else []
        i, obs, eph, geph, seph = self.d.decode(msg, None, mode == "scan")
        if any(x is not None for x in (obs, eph, geph, seph)):
            raise ValueError("observations or ephemeris")
        return view(self.d)

    def msg(self, mt, f, mode="full"):
        rng = self.run.rng
        t = dict(itrf=rng.randrange(64), ind=rng.randrange(8),
                 tow=345600+rng.randrange(-900, 900), pid=rng.randrange(65536),
                 tod=rng.randrange(86400))
        m = frame(mt, body(mt, f, t), rng)
        out, exc = self.run.call(self.decode, m, mode)
        self.run.ev("msg", out=out, exc=exc, mt=mt, f=f, mode=mode)

    def enc(self, mt, f):
        out, exc = self.run.call(self.encdec, mt, f)
        self.run.ev("enc", out=out, exc=exc, mt=mt, f=f)

    def encdec(self, mt, f):
        rng = self.run.rng
        e = rtcme()
        e.msgtype = mt
        e.tow = 345600 if mt != 97 else 3600
        e.inet = e.gid = f["gid"]
        lc = local_corr()
        e.lc = {f["gid"]: lc}
        e.udi = np.zeros(sCType.MAX, dtype=int)

        def v(x, q, o=0.):
            return np.nan if x == NAN else x*q/10+o
        if mt == 61:
            e.gtype = 0 if f["alt"] else 1
            e.ofst = f["ofst"]
            other = [(f["gid"]+1, 0, 1., 2., 3.)]
            e.grid = np.array(other+[
                (f["gid"], k, p[0]*1e-4, p[1]*1e-4, p[2]*1.25-1000.)
                for k, p in enumerate(f["p"])]+other, dtype=GRID)
        elif mt == 95:
            m = [v(x, *q) for x, q in zip(f["map"], MAPL)]
            lc.maph, lc.mapw = np.array(m[:3]), np.array(m[3:])
            lc.ct = np.zeros((2, 4))
            for i, x, q in zip(CTI, f["ct"], CTL):
                lc.ct[i] = v(x, *q)
            lc.flg_trop = 2+f["rmi"]
            e.nlen, e.mlen = f["n"], f["m"]
            z = [0.]*f["ofst"]
            lc.dth = np.array(z+[v(x, 1e-4) for x in f["rh"]])
            lc.dtw = np.array(z+[v(x, 1e-4) for x in f["rw"]])
            lc.ng, lc.ofst = max(len(f["rh"]), len(f["rw"])), f["ofst"]
        else:
            lc.flg_stec = 2*f["pmi"]+f["rmi"]
            lc.ng, lc.ofst = f["ng"], f["ofst"]
            lc.ci, lc.stype, lc.dstec = {}, {}, {}
            # the corrections of all systems are kept together
            s0 = gn.sat(4001 if mt != 99 else 1001)
            lc.ci[s0], lc.stype[s0] = np.ones(3), 1
            lc.dstec[s0] = np.ones(f["ofst"]+f["ng"])
            for i, c in enumerate(f["c"]):
                s = gn.sat(c[0])
                ci = [v(c[1], .01), v(c[2], 1e-3), v(c[3], 1e-3)]
                if f["q"][i]:
                    ci += [x*2e-3 for x in f["q"][i]]
                lc.ci[s] = np.array(ci)
                lc.stype[s] = f["pgi"]
                lc.dstec[s] = np.array(
                    [0.]*f["ofst"]+[v(x, 2e-3) for x in f["r"][i][1]])
            e.grid = np.array([(f["gid"], 0, 35., 135., 0.)] * f["ofst"] + [
                (f["gid"], j+f["ofst"], 35.+p[0], 135.+p[1], 0.)
                for j, p in enumerate(f["xy"])] or [
                    (f["gid"], 0, 35., 135., 0.)], dtype=GRID)
        buf = bytearray(1100)
        i = e.encode(buf)
        n = (i+7)//8
        e.set_sync(buf, 0)
        e.set_len(buf, 0, n-3)
        e.set_checksum(buf, 0)
        m = bytes(buf[:n+3])
        d = self.d
        if not (d.sync(m, 0) and d.checksum(m, 0) and d.dlen == n+3):
            raise ValueError("frame")
        return self.decode(m, "full")


def ext(rng, n, sign=True, na=.05):
    """values of n bits, the extremes among them"""
    lo, hi = (-(1 << n-1)+1, (1 << n-1)-1) if sign else (0, (1 << n)-1)
    if sign and rng.random() < na:
        return lo-1
    return rng.choice([lo, hi, 0, rng.randint(lo, hi), rng.randint(lo, hi),
                       max(lo, min(hi, rng.randint(-3, 3)))])


def fine(rng, n, na=.03, room=0):
    if rng.random() < na:
        return NAN
    h = (1 << n-1)-1-room
    return rng.choice([-h, h, 0, rng.randint(-h, h), rng.randint(-h, h)])*10 \
        + rng.randint(-4, 4)


def text(rng, n):
    k = rng.choice([0, 1, n, rng.randint(0, n)])
    return [rng.choice([rng.randint(32, 126), rng.randint(32, 126),
                        rng.randint(160, 255)]) for _ in range(k)]


def sats(rng, y, n):
    a, b = gn.RANGE[y]
    if y == "J":
        b = 199
    if y == "R":
        b = 24
    return sorted(gn.sid(y, p) for p in
                  rng.sample(range(a, b+1), min(n, b-a+1)))


def station(rng, mt, ref):
    f = dict(ref=ref)
    if mt in (1005, 1006, 1032):
        f["pos"] = [rng.choice([
            [rng.randint(-6378137, 6378137), rng.randrange(10000)],
            [rng.choice([-13743895, 13743894]), rng.randrange(3472, 5000)],
            [0, 0], [-1, 9999], [-4647000, rng.randrange(10000)]])
            for _ in range(3)]
        f.update(non=rng.randrange(2), h=ext(rng, 16, False),
                 np=rng.randrange(4096))
        if mt != 1006:
            del f["h"]
        if mt == 1032:
            del f["non"]
        else:
            del f["np"]
    elif mt in (1007, 1008, 1033):
        f.update(desc=text(rng, 31), setup=rng.randrange(256))
        if mt != 1007:
            f["ser"] = text(rng, 31)
        if mt == 1033:
            f.update(rtyp=text(rng, 31), fw=text(rng, 31), rser=text(rng, 31))
    else:
        f.update(mask=[rng.randrange(2) for _ in range(4)],
                 b=[ext(rng, 16, na=0) for _ in range(4)])
    return f


def residual(rng, mt, ref, small=None):
    ss = sats(rng, SYS[mt], rng.choice([0, 1, 4, 10, 24 if mt == 1031 else 31]
                                       if mt != 1305 else [0, 1, 4, 7]))
    rng.shuffle(ss)
    return dict(ref=ref, r=[[s]+[ext(rng, n, False) for n in
                                 (8, 9, 6, 10, 10)] for s in ss])


def grid(rng, gid):
    alt = rng.random() < .5
    n = rng.choice([0, 1, 3, 20, 80])
    la, lo, hh = rng.randint(-60000, 60000), rng.randint(-120000, 120000), \
        rng.randint(80, 900) if alt else 0
    return dict(gid=gid, alt=int(alt), p0=[la, lo, hh],
                ofst=rng.choice([0, 0, 1, 7, 200]),
                d=[[ext(rng, 13, na=0)//4, ext(rng, 14, na=0)//4,
                    rng.randint(-1, 1)*alt] for _ in range(n)])


def trop(rng, gid):
    ng = rng.choice([0, 1, 5, 30])
    n, m = rng.choice([(0, 14), (9, 0), (12, 7), (0, 0), (15, 2)])
    rmi = rng.randrange(2)
    if not rmi:
        ng = 0
    return dict(gid=gid, rmi=rmi, map=[ext(rng, w) for w in MAPW],
                ct=[ext(rng, w) for w in CTW], n=n, m=m,
                ofst=rng.choice([0, 0, 3, 40]),
                rh=[ext(rng, n) for _ in range(ng)] if n else [],
                rw=[ext(rng, m) for _ in range(ng)] if m else [])


def iono(rng, mt, gid):
    ss = sats(rng, SYS[mt], rng.choice([0, 1, 3, 8]))
    f = dict(gid=gid, pmi=rng.randrange(2), pgi=rng.randrange(2),
             rmi=rng.randrange(2), ofst=rng.choice([0, 0, 2, 30]),
             ng=rng.choice([0, 1, 4, 12]),
             rlen=rng.choice([0, 4, 9, 18, 23]), sf=rng.randrange(8))
    if f["rlen"] == 23:
        f["sf"] = rng.randrange(5)
    f["c"] = [[s, ext(rng, 17), ext(rng, 18), ext(rng, 18)] for s in ss]
    f["r"] = [[s, [ext(rng, f["rlen"]) if f["rlen"] else 0
                   for _ in range(f["ng"])]] for s in ss]
    return f


def enc_grid(rng, gid):
    alt = rng.random() < .6
    p = [[rng.randint(-600000, 600000), rng.randint(-1200000, 1200000),
          rng.randint(800, 3000)]]
    for _ in range(rng.choice([0, 1, 4, 25])):
        q = p[-1]
        p.append([q[0]+rng.randint(-20000, 20000),
                  q[1]+rng.randint(-20000, 20000),
                  max(0, q[2]+rng.randint(-400, 400))])
    for q in p:
        for k in range(3):
            q[k] += (q[k] % 10 == 5)
        if not alt:
            q[2] = 0
    return dict(gid=gid, alt=int(alt), ofst=rng.choice([0, 0, 5]), p=p)


def enc_trop(rng, gid):
    ng = rng.choice([0, 1, 6])
    n, m = rng.choice([(0, 14), (9, 12), (12, 0), (0, 10)])
    rmi = rng.randrange(2)
    if not rmi:
        ng = 0
    return dict(gid=gid, rmi=rmi, map=[fine(rng, w) for w in MAPW],
                ct=[fine(rng, w) for w in CTW], n=n, m=m,
                ofst=rng.choice([0, 0, 3]),
                rh=[fine(rng, n) for _ in range(ng)] if n else [],
                rw=[fine(rng, m) for _ in range(ng)] if m else [])


def enc_iono(rng, mt, gid):
    ss = sats(rng, SYS[mt], rng.choice([0, 1, 3, 8]))
    pgi = rng.randrange(2)
    f = dict(gid=gid, pmi=rng.randrange(2), pgi=pgi, rmi=rng.randrange(2),
             ofst=rng.choice([0, 0, 2]), ng=rng.choice([1, 3, 9]), rlen=18,
             sf=1)
    f["c"] = [[s, fine(rng, 17), fine(rng, 18), fine(rng, 18)] for s in ss]
    f["r"] = [[s, [fine(rng, 16) for _ in range(f["ng"])]] for s in ss]
    f["xy"] = [[rng.randint(0, 3), rng.randint(0, 3)] for _ in range(f["ng"])]
    if f["ofst"] == 0:
        f["xy"][0] = [0, 0]
    f["q"] = [[rng.randint(-300, 300)*rng.randrange(2) for _ in range(3)]
              if rng.random() < .6 else [] for _ in ss]
    return f


UNI = ["", "test", "Störung", "衛星障害 QZS-1", "€uro \U0001f6f0"]


def main(run):
    rng = run.rng
    run.assumptions += [
        "grid definitions of type 2, satellite antenna, metadata and "
        "extended phase bias messages (drafts) are not covered",
        "a GLONASS bias of -655.36 m (not available) is not used",
        "encoded values are not at ties of rounding"]
    edges = run.model_check("Sta_MC", emit=True)
    for cfg, evs in run.paths(edges, maxlen=40,
                              budget=1200 if run.quick else 40000):
        d = Dut(run)
        for e in evs:
            f = dict(e["f"])
            if e["mt"] == 1230:
                f.setdefault("mask", [])
            d.msg(e["mt"], f, e["mode"])
    for h in range(40 if run.quick else 1500):
        d = Dut(run)
        gids = [rng.randrange(33), rng.choice([33, 64, 1023]),
                rng.randrange(1024)]
        refs = [0, 4095, rng.randrange(4096)]
        for k in range(25):
            r = rng.random()
            gid, ref = rng.choice(gids[:2+(h % 2)]), rng.choice(refs)
            mode = rng.choices(["full", "scan", "skip"], [8, 1, 1])[0]
            if r < .25:
                mt = rng.choice(STA)
                d.msg(mt, station(rng, mt, ref), mode)
            elif r < .4:
                mt = rng.choice(RES)
                d.msg(mt, residual(rng, mt, ref), mode)
            elif r < .45:
                d.msg(1029, dict(text=list(rng.choice(UNI).encode())), mode)
            elif r < .53:
                d.msg(61, grid(rng, gid), mode)
            elif r < .63:
                d.msg(95, trop(rng, gid), mode)
            elif r < .82:
                mt = rng.randint(96, 100)
                d.msg(mt, iono(rng, mt, gid), mode)
            elif r < .87:
                d.enc(61, enc_grid(rng, gid))
            elif r < .92:
                d.enc(95, enc_trop(rng, gid))
            else:
                mt = rng.randint(96, 100)
                d.enc(mt, enc_iono(rng, mt, gid))
    run.validate("Sta_Trace")
