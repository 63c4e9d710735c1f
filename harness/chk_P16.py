"""P16: broadcast navigation messages (raw)."""
import gn
import navfmt as nf
from navfmt import Msg, FMT, SCALE, WIDTH, PI, near
from vlib import BADTYPE, toint
from cssrlib.rawnav import RawNav

KINDS = dict(inav="E", fnav="E", lnav="GJ", cnav="GJ", cnav2="GJ", b1c="C",
             b2a="C", b2b="C", d1="C", d2="C", irn="I", irnl1="I",
             gloca="R", glol1="R", glol3="R", sbs="S")
CALL = dict(inav="gal_inav", fnav="gal_fnav", lnav="gps_lnav",
            cnav="gps_cnav", cnav2="gps_cnav2", b1c="bds_b1c", b2a="bds_b2a",
            b2b="bds_b2b", d1="bds_d1", d2="bds_d2", irn="irn_lnav",
            irnl1="irn_l1nav", gloca="glo_fdma", glol1="glo_l1oc",
            glol3="glo_l3oc", sbs="sbs_l1")
# order of transmission and seconds per part
CYCLE = dict(inav=([2, 4, 1, 3, 5], 2), fnav=([1, 2, 3, 4], 10),
             lnav=([1, 2, 3, 4, 5], 6), cnav=([1, 2, 3, 4], 12),
             cnav2=([1], 18), b1c=([1], 18), b2a=([10, 11, 30, 34, 40], 3),
             b2b=([10, 30, 40], 1), d1=([1, 2, 3], 6), d2=(list(range(1, 11)),
                                                           3),
             irn=([0, 1, 2, 3], 12), irnl1=([1], 18),
             gloca=([1, 2, 3, 4, 5], 2), glol1=([10, 11, 12], 2),
             glol3=([10, 11, 12, 16], 3), sbs=([1], 120))
TOEU = dict(inav=60, fnav=60, lnav=16, cnav=300, cnav2=300, b1c=300, b2a=300,
            b2b=300, d1=8, d2=8, irn=16, irnl1=300)


# ------------------------------------------------------------- messages
def message(e, rng):
    m, p, f = e["m"], e["p"], e["f"]
    n = dict(inav=128, fnav=244, lnav=320, cnav=300, cnav2=1800, b1c=880,
             b2a=288, b2b=498, d1=300, d2=300, irn=292, irnl1=1800, gloca=96,
             glol1=250, glol3=300, sbs=250)[m]
    b = Msg(n, rng)
    pre = e.get("pre", 1)
    if m == "inav":
        b.put(0, 6, p)
    elif m == "fnav":
        b.put(0, 6, p)
    elif m == "lnav":
        b.put(2, 8, 0x8b if pre else 0x74).put(53, 3, p)
    elif m == "cnav":
        prn = e.get("prn", e["s"] % 1000)
        b.put(0, 8, 0x8b if pre else 0x8a).put(8, 6, prn % 192)
        b.put(14, 6, {1: 10, 2: 11, 3: f.get("mt", 0)}.get(p, e.get("mt", 12)))
    elif m == "b2a":
        b.put(0, 6, e["s"] % 1000 % 64).put(6, 6, p)
    elif m == "b2b":
        b.put(12, 6, p)
    elif m in ("d1", "d2"):
        b.put(0, 11, 0x712 if pre else 0x713).put(15, 3, p)
        if m == "d2":
            b.put(15, 3, e.get("frame", 1)).put(42, 4, p)
    elif m == "irn":
        b.put(27, 2, p)
    elif m == "irnl1":
        b.put(1252, 6, rng.choice([0, 5, 6, 8, 10, 17, 63]))
    elif m == "gloca":
        b.put(1, 4, p)
    elif m == "glol1":
        b.put(0, 12, 0x5f1 if pre else 0x5f0).put(12, 6, p)
    elif m == "glol3":
        b.put(0, 20, 0x494e if pre else 0x494f).put(20, 6, p)
    elif m == "sbs":
        b.put(0, 8, rng.choice([0x53, 0x9a, 0xc6]) if pre else 0x54)
        b.put(8, 6, p if p > 1 else 9)
    for x in FMT[m].get(p, []):
        if x[0] in f:
            b.field(x, nf.unpack(f[x[0]]))
    if m == "inav":
        w = Msg(240, rng)
        w.b[2:114] = b.b[:112]
        w.b[122:138] = b.b[112:128]
        b = w
    return b.bytes(pad=dict(b2b=0, b2a=4).get(m, 8))


# ----------------------------------------------------------- projections
def bit(x, k, n=1):
    try:
        return (int(x) >> k) & ((1 << n)-1)
    except Exception:
        return BADTYPE


def same(*v):
    return toint(v[0]) if all(toint(x) == toint(v[0]) for x in v) else BADTYPE


def eph_fields(m, e, s, names):
    W = WIDTH[m]
    r = {}
    sys = s//1000
    for n in names:
        w = W.get(n, 1)
        if n in SCALE.get(m, {}) or n == "sqrtA":
            ex, sc = SCALE[m][n]
            k = 2.0**-ex*(PI if sc else 1)
            if n == "sqrtA":
                try:
                    v = near(float(e.A)**.5, k, w)
                except Exception:
                    v = BADTYPE
            elif n == "OMGd" and m in ("cnav", "cnav2"):
                v = near(e.OMGd, k, w, -2.6e-9*PI)
            elif n == "tgdb":
                v = near(e.tgd_b, k, w)
            elif n.startswith("isc"):
                v = near(e.isc[int(n[3])], k, w)
            else:
                v = near(getattr(e, n), k, w)
        elif n == "dA":
            a0 = {1: 26559710., 5: 42164200., 7: 42164200.}.get(
                sys, 27906100. if e.sattype == 3 else 42162200.)
            v = near(e.A, 2.0**-9, w, a0)
        elif n in ("tgd", "tgdb"):            # D1/D2
            v = near(e.tgd if n == "tgd" else e.tgd_b, 1e-10, w)
        elif n == "iod":
            v = same(e.iode, e.iodc)
        elif n == "iode" and m in ("irn", "irnl1"):
            v = same(e.iode, e.iodc)
        elif n in ("iode", "iodc", "svh", "code", "l2p", "sismai"):
            v = toint(getattr(e, n))
        elif n == "sisa":
            v = nf.inv(e.sva, nf.SISA)
        elif n == "ura":
            v = toint(e.urai) if m == "irnl1" else nf.inv(e.sva, nf.SVAL)
        elif n == "stype":
            v = toint(e.sattype)
        elif n in ("e5bhs", "e5bdvs", "e1bhs", "e1bdvs", "e5ahs", "e5advs"):
            k, q = dict(e5bhs=(7, 2), e5bdvs=(6, 1), e1bhs=(1, 2),
                        e1bdvs=(0, 1), e5ahs=(4, 2), e5advs=(3, 1))[n]
            v = bit(e.svh, k, q)
        elif n in ("alert", "esf", "isf"):
            k = dict(alert=2, esf=1, isf=0)[n]
            v = bit(e.integ, k)
        elif n in ("ued", "u0", "u1", "u2"):
            v = toint(e.urai[dict(ued=3, u0=0, u1=1, u2=2)[n]])
        elif n in ("oe", "oc0", "oc1", "oc2"):
            v = toint(e.sisai[dict(oe=0, oc0=1, oc1=2, oc2=3)[n]])
        elif n == "top":
            v = near(e.tops, 300, w)
        elif n in ("ia", "ib"):
            v = bit(e.integ, 3 if n == "ia" else 0, 3)
        elif n in ("integ", "rsf"):
            v = toint(e.integ)
        elif n == "toe":
            v = near(e.toes, TOEU[m], w)
        else:
            raise KeyError(n)
        r[n] = v
    return r


def geph_fields(m, g, names):
    W = WIDTH[m]
    r = {}
    cd = m != "gloca"
    for n in names:
        w = W[n]
        if n[0] in "xva" and n[1:] in "012":
            a = dict(x=g.pos, v=g.vel, a=g.acc)[n[0]]
            if m == "sbs":
                k = dict(x=(.08, .08, .4), v=(6.25e-4, 6.25e-4, 4e-3),
                         a=(1.25e-5, 1.25e-5, 6.25e-5))[n[0]][int(n[1])]
            else:
                k = 1e3*2.0**-dict(x=20 if cd else 11, v=30 if cd else 20,
                                   a=39 if cd else 30)[n[0]]
            v = near(a[int(n[1])], k, w)
        elif n in ("tau", "dtau", "gam", "beta", "tauc", "dtauc", "taug"):
            k = dict(tau=38, gam=48, beta=57, tauc=31, dtauc=49, taug=38) \
                if cd else dict(tau=30, dtau=30, gam=40, tauc=31, taug=30)
            a = dict(tau="taun", dtau="dtaun", gam="gamn", beta="beta",
                     tauc="tau_c", dtauc="dtau_c", taug="tau_gps")[n]
            v = near(getattr(g, a), 2.0**-k[n], w)
        elif n in ("d0", "d1", "d2"):
            v = near(g.dpos[int(n[1])], 2.0**-10, w)
        elif n == "isc":
            v = near(g.isc[1 if m == "glol1" else 2], 2.0**-38, w)
        elif n in ("af0", "af1"):
            v = near(getattr(g, n), 2.0**-(31 if n == "af0" else 40), w)
        elif n in ("tb", "bn", "en", "ft", "svh", "valid", "iodn"):
            a = dict(tb="iode", bn="svh", en="age", ft="sva", svh="svh",
                     valid="status", iodn="iodn")[n]
            v = toint(getattr(g, a))
        elif n == "p2" and cd:
            v = toint(g.flag)
        elif n in ("m", "p4", "p3", "p2", "p1", "p") and not cd:
            k, q = dict(m=(7, 2), p4=(6, 1), p3=(5, 1), p2=(4, 1), p1=(2, 2),
                        p=(0, 2))[n]
            v = bit(g.flag, k, q)
        elif n == "m":
            v = toint(g.sattype)
        elif n in ("fe", "ft"):
            v = toint(g.urai[0 if n == "fe" else 1])
        elif n in ("ee", "et"):
            v = near(g.aode if n == "ee" else g.aodc, .25, w)
        elif n in ("re", "rt"):
            v = bit(g.src, 2 if n == "re" else 0, 2)
        elif n == "psi":
            v = near(g.psi, 2.0**-14*PI, w)
        elif n in ("win", "wmax", "dw"):
            v = near(getattr(g, n), 2.0**-(30 if n == "dw" else 26)*PI, w)
        elif n in ("tin", "tau1", "tau2"):
            v = near(getattr(g, n), 2.0**-5, w)
        elif n == "sn":
            v = toint(g.sn)
        elif n == "ura":
            v = nf.inv(g.sva, nf.SVAS)
            if toint(g.svh) != (1 if v == 15 else 0):
                v = BADTYPE
        else:
            raise KeyError(n)
        r[n] = v
    if cd and "ft" in names and m != "sbs":
        r["ft"] = toint(g.urai[1])
    return r


def wt(t):
    """<<GPS week, second of week>>"""
    try:
        x = t.time-gn.GPS0
        if t.sec != int(t.sec):
            return [BADTYPE, 0]
        x += int(t.sec)
        return [x//604800, x % 604800]
    except Exception:
        return [BADTYPE, 0]


DROP = {"toe", "toc", "wn", "tow", "svid", "toi", "itow", "wnop", "page",
        "mt", "how", "soh", "sow", "toeh", "toel", "prn", "rx", "tkh", "tkm",
        "tks", "ts", "n4", "nt", "t0"}
MORE = dict(d2=["af1", "cuc", "e", "cic", "i0", "OMGd", "omg"])


def names(m, g, s):
    r = []
    for p, fs in FMT[m].items():
        r += [f[0] for f in fs if f[0] not in DROP]
    r = [x for x in dict.fromkeys(r)
         if not (m == "d2" and x[-1] in "hl" and x[:-1] in nf.SPLIT)]
    if m == "cnav" or m == "cnav2":
        r = [x for x in r if x != "top"]
    if m == "cnav2" and s//1000 == 1:
        r.remove("esf")
    if m == "gloca" and not g["5"]:
        r = [x for x in r if x not in ("tauc", "taug")]
    if m == "glol3" and not g["16"]:
        r = [x for x in r if x not in ("tin", "psi", "sn", "wmax", "win",
                                       "dw", "tau1", "tau2")]
    if m == "b2a" and False:
        pass
    if m == "irnl1":
        r = [x for x in r if x != "ura"]
    return r+MORE.get(m, [])


def view(m, r, g, s):
    if r is None:
        return dict(ok=0, s=0)
    o = dict(ok=1, s=gn.unsat(r.sat), mode=toint(r.mode))
    n = names(m, g, s)
    if m in ("gloca", "glol1", "glol3"):
        o["f"] = geph_fields(m, r, n)
        o["toe"], o["tof"] = wt(r.toe), wt(r.tof)
    elif m == "sbs":
        o["f"] = geph_fields(m, r, n)
        o["toe"], o["tof"] = wt(r.t0), wt(r.tof)
    else:
        o["f"] = eph_fields(m, r, s, n)
        o["toe"], o["toc"], o["tot"] = wt(r.toe), wt(r.toc), wt(r.tot)
        o["week"] = toint(r.week)
        if m in ("inav", "fnav"):
            o["code"] = toint(r.code)
        if m in ("cnav", "cnav2"):
            o["top"] = wt(r.top)
    return o


class Dut:
    def __init__(self, run):
        self.run = run
        self.d = RawNav()
        self.got = {}

    def do(self, e):
        run, m = self.run, e["m"]
        msg = message(e, run.rng)
        g = self.got.setdefault((m, e["s"]), {"5": 0, "16": 0})
        if e["op"] == "sub" and str(e["p"]) in g:
            g[str(e["p"])] = 1
        f = getattr(self.d, "decode_"+CALL[m])
        sat = gn.sat(e["s"])
        a = [e["w"], e["t"], sat]
        if m == "inav" or m == "fnav":
            a.append(e["src"])
        a.append(bytes(msg) if run.rng.random() < .5 else msg)
        r, exc = run.call(f, *a)
        out = {}
        if not exc:
            out, x = run.call(view, m, r, g, e["s"])
            if x:
                out, exc = {}, "view:"+x
        run.ev(e["op"], out=out, exc=exc, **{
            k: v for k, v in e.items() if k not in ("op", "out", "exc")})


# ------------------------------------------------------------ generation
def val(rng, k, n):
    x = rng.random()
    if k == "u":
        v = 0 if x < .05 else (1 << n)-1 if x < .1 else rng.randrange(1 << n)
    else:
        h = 1 << (n-1)
        lo = -h if k == "s" else 1-h
        v = lo if x < .05 else h-1 if x < .1 else -1 if x < .13 else \
            0 if x < .16 else rng.randrange(lo, h)
    return nf.pack(v, n)


class Tx:
    """one satellite transmitting one kind of message"""
    def __init__(self, rng, m, s, t):
        self.rng, self.m, self.s = rng, m, s
        self.order, self.dt = CYCLE[m]
        per = self.dt*len(self.order)
        self.week, tow = divmod(t, 604800)
        self.t = self.week*604800+tow-tow % per
        self.k = 0
        self.ref = {}
        self.issues = [rng.randrange(256) for _ in range(2)]
        self.new()

    def new(self):
        """a new data set"""
        rng, m = self.rng, self.m
        self.v = {p: {f[0]: val(rng, f[1], f[2]) for f in fs}
                  for p, fs in FMT[m].items()}
        if m == "glol1":    # the string ends within this field
            h, l = self.v[11]["v1"]
            v = (h << 16)+l
            v = v-v % 64 if v >= 0 else -(-v-(-v) % 64)
            self.v[11]["v1"] = [v >> 16, v & 0xffff]
        self.iod = rng.choice(self.issues)
        self.sid = rng.choice([30, 30, 30, 31, 32, 33, 35, 37])
        if self.s//1000 == 5 and rng.random() < .3:
            self.sid = 61
        if m in TOEU:
            u = TOEU[m]
            n = 604800//u
            x = (self.t//u+rng.randint(-7200//u, 7200//u))
            self.toe = x*u
            y = x+rng.choice([0, 0, 0, 1, -1])
            if y//n != x//n or m in ("cnav", "cnav2"):
                y = x
            self.toc = y*u
            # one issue, one reference time
            self.toe, self.toc = self.ref.setdefault(self.iod,
                                                     (self.toe, self.toc))

    def fields(self, p):
        rng, m, t = self.rng, self.m, self.t
        f = dict(self.v.get(p, {}))
        iod = self.iod
        gw, tow = divmod(t, 604800)
        if m in TOEU:
            u = TOEU[m]
            toe, toc = self.toe % 604800//u, self.toc % 604800//u
            if "toe" in f:
                f["toe"] = toe
            if "toc" in f:
                f["toc"] = toc
            if "toeh" in f:
                f["toeh"] = toe >> 15
            if "toel" in f:
                f["toel"] = toe & 32767
        if "iod" in f:
            f["iod"] = iod*3
        if "iode" in f and m not in ("d1", "d2", "irn", "irnl1"):
            f["iode"] = iod
        if "iodc" in f and m in ("lnav", "b1c", "b2a"):
            f["iodc"] = iod+256*rng.randrange(4) if m != "lnav" else iod+256
        if m in ("inav", "fnav"):
            if "wn" in f:
                f["wn"], f["tow"] = gw-1024, tow
            if "sisa" in f:
                f["sisa"] = rng.choice([0, 49, 50, 74, 75, 99, 100, 125, 255,
                                        rng.randrange(126)])
            if "svid" in f:
                f["svid"] = self.s % 1000
        elif m == "lnav" and p == 1:
            f["wn"], f["tow"] = gw % 1024, tow//6
        elif m == "cnav":
            if p == 1:
                f["wn"], f["tow"] = gw, tow//6
                f["M0"] = f["M0"]
            if p == 3:
                f["mt"] = self.sid
                if self.s//1000 == 1 and f["mt"] == 61:
                    f["mt"] = 30
        elif m == "cnav2":
            f["wn"], f["itow"], f["toi"] = gw, tow//7200, tow % 7200//18
            f["page"] = rng.choice([1, 1, 1, 61, 2, 3, 4, 6])
        elif m == "irnl1":
            f["wn"], f["itow"], f["toi"] = gw-1024, tow//7200, tow % 7200//18
            f["prn"] = self.s % 1000
            if rng.random() < .05:
                f["prn"] = rng.randrange(15)
        elif m == "b1c":
            f["wn"], f["how"], f["soh"] = gw-1356, tow//3600, tow % 3600//18
            f["page"] = rng.choice([1, 1, 1, 2, 3, 4])
            if rng.random() < .1:
                f["iode"] = rng.randrange(256)
        elif m in ("b2a", "b2b", "d1", "d2"):
            if "sow" in f:
                f["sow"] = tow//3 if m == "b2a" else tow
            if "wn" in f:
                f["wn"] = gw-1356
        elif m == "irn":
            f["tow"] = tow//12
            if p == 0:
                f["wn"] = gw % 1024
        elif m == "gloca":
            if p == 1:
                x = (t+10800-18) % 86400
                f["tkh"], f["tkm"] = x//3600, x % 3600//60
                f["tks"] = x % 60//30
            if p == 2:
                f["tb"] = max(1, min(95, (t+10800-18) % 86400//900
                                     + rng.choice([0, 0, 1])))
            f["rx"] = tow
        elif m in ("glol1", "glol3"):
            x = (t+10800) % 86400
            f["ts"] = x//self.dt
            if p == 10:
                d = t//86400-5839
                f["n4"], f["nt"] = d//1461+1, d % 1461+1
                f["tb"] = min(959, x//90+rng.choice([0, 5, 10]))
            if "fe" in f:
                f["fe"], f["ft"] = val(rng, "g", 5), val(rng, "g", 5)
        elif m == "sbs":
            f["t0"] = max(0, min(5399, tow % 86400//16 +
                                 rng.choice([-8, 0, 4, 5400-8, -5400+8])))
        return f

    def next(self, skip=0):
        """the next message on the air (skip: lost ones before it)"""
        rng, m = self.rng, self.m
        for _ in range(skip+1):
            self.k += 1
            self.t += self.dt
            if self.k >= len(self.order):
                self.k = 0
                if rng.random() < .35:
                    self.new()
        p = self.order[self.k]
        if m == "cnav" and p == 4:
            return self.msg("sub", 4, {"x": 0}, mt=rng.choice([12, 15]))
        f = self.fields(p)
        if m in ("lnav",) and p > 3:
            f = {"x": 0}
        return self.msg("sub", p, f)

    def msg(self, op, p, f, **kw):
        rng = self.rng
        w, t = divmod(self.t, 604800)
        if self.m == "irn":
            w += rng.randint(-3, 3)
        return dict(op=op, m=self.m, s=self.s, p=p, f=f, w=w, t=t,
                    src=rng.choice([0, 2]) if self.m == "inav" else 0, **kw)

    def junk(self):
        rng, m = self.rng, self.m
        p = rng.choice(self.order)
        f = self.fields(p) if m != "cnav" or p < 4 else {"x": 0}
        if m == "lnav" and p > 3:
            f = {"x": 0}
        if m in ("lnav", "d1", "d2", "glol1", "glol3", "sbs"):
            if m == "d2" and rng.random() < .5:
                return self.msg("junk", p, f, frame=rng.choice([2, 3, 5]))
            if m == "d1" and rng.random() < .5:
                return self.msg("junk", rng.choice([4, 5, 6, 7]), {})
            if m == "glol1" and rng.random() < .5:
                return self.msg("junk", rng.choice([16, 25, 31, 50]), {})
            if m == "glol3" and rng.random() < .5:
                return self.msg("junk", rng.choice([31, 32, 60]), {})
            if m == "sbs" and rng.random() < .5:
                return self.msg("junk", rng.choice([1 << 5, 8, 10, 63]), {})
            return self.msg("junk", p, f, pre=0)
        if m == "cnav":
            x = rng.random()
            if x < .4:
                return self.msg("junk", p, f, pre=0)
            if x < .7:
                a, b = gn.RANGE[gn.LET[self.s//1000]]
                q = rng.choice([x for x in range(a, min(b, 202)+1)
                                if x != self.s % 1000])
                return self.msg("junk", p, f, prn=q)
            return self.msg("junk", 9, {"x": 0}, mt=rng.choice(
                [0, 9, 13, 14, 38, 62]))
        if m in ("inav", "fnav", "b2a", "b2b", "gloca"):
            bad = dict(inav=[0, 6, 7, 10, 17, 63], fnav=[5, 6], b2a=[31, 32,
                       33, 0, 63], b2b=[0, 11, 8, 63], gloca=[0, 6, 10, 15])
            return self.msg("junk", rng.choice(bad[m]), {})
        return None


def sats(rng, m, n):
    L = rng.choice(KINDS[m])
    a, b = gn.RANGE[L]
    if L == "J":
        b = 202
    if m == "d2":
        r = [1, 2, 3, 4, 5, 59, 60, 61]
    elif m == "irn":
        r = range(1, 15)
    else:
        r = range(a, b+1)
    r = [p for p in r]
    if m == "glol3" or m == "glol1":
        r = [p for p in r if p <= 24]
    k = rng.randrange(len(r))
    return [gn.sid(L, r[(k+j) % len(r)]) for j in range(min(n, len(r)))]


def main(run):
    rng = run.rng
    run.assumptions.append(
        "week numbers of 10 bits are completed with the caller's week; all "
        "other epochs are those of the message")
    run.model_check("RawNav_MC")
    kinds = list(KINDS)
    n = 12 if run.quick else 240
    for h in range(n*len(kinds)):
        run.hist(x=0)
        m = kinds[h % len(kinds)]
        d = Dut(run)
        t = rng.randrange(2150, 2900)*604800
        if rng.random() < .5:
            t += rng.randrange(604800)
        else:
            t += rng.choice([-120, -60, -10, 0, 604800-3600]) + \
                rng.randrange(60)
        ks = [m]
        if rng.random() < .4:
            # (a satellite transmits D1 or D2, not both)
            ks.append(rng.choice([x for x in kinds if KINDS[x] == KINDS[m]
                                  and {m, x} != {"d1", "d2"}]))
        tx = [Tx(rng, k, s, t) for k in dict.fromkeys(ks)
              for s in sats(rng, k, rng.choice([1, 2]))]
        loss = rng.choice([0, 0, .1, .3])
        jk = rng.choice([0, .1])
        for _ in range(rng.randint(15, 30 if m != "d2" else 60)):
            x = rng.choice(tx)
            for _ in range(rng.choice([1, 1, 3, len(x.order)])):
                if rng.random() < jk:
                    j = x.junk()
                    if j:
                        d.do(j)
                d.do(x.next(1+rng.randrange(4) if rng.random() < loss else 0))
    run.validate("RawNav_Trace")
