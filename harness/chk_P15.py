"""P15: QZSS navigation message authentication."""
import os
import random
from cryptography.hazmat.primitives import hashes, serialization
from cryptography.hazmat.primitives.asymmetric import ec, utils
import gn
from vlib import Bits, toint, INEXACT
from cssrlib.gnss import uGNSS
from cssrlib.qznma import qznma, uNavId

NP = {1: 3, 2: 3, 3: 1, 4: 4, 5: 5}
SVOF = {1: 0, 3: 64, 6: 0, 5: 0}
KEYS = {}


def key(k):
    if k not in KEYS:
        KEYS[k] = ec.derive_private_key(1000003+7919*k, ec.SECP256R1())
    return KEYS[k]


def sign(sk, data):
    r, s = utils.decode_dss_signature(
        key(sk).sign(data, ec.ECDSA(hashes.SHA256())))
    return r.to_bytes(32, "big")+s.to_bytes(32, "big")


def put(bits, pos, n, v):
    bits[pos:pos+n] = [v >> (n-1-i) & 1 for i in range(n)]


def get(bits, pos, n):
    return int("".join(map(str, bits[pos:pos+n])), 2)


def tob(bits, n=0):
    bits = bits+[0]*(-len(bits) % 8)
    b = bytes(get(bits, i, 8) for i in range(0, len(bits), 8))
    return b+bytes(max(0, n-len(b)))


def rnd(seed, n):
    r = random.Random(seed)
    return [r.getrandbits(1) for _ in range(n)]


def only(bits, n, keep):
    """bits of a part, those not signed are zero"""
    out = [0]*n
    for a, b in keep:
        out[a:b] = bits[a:b]
    return out


# bits covered by a signature (first, last + 1), of 300 (LNAV: ten words of 30
# bits), 276 of 300 (CNAV), 244 (F/NAV), 128 (I/NAV)
def words(w):
    return [(30*k+a, 30*k+b) for k, r in enumerate(w) for a, b in r]


W24 = [(0, 24)]
LNAV_Q = [words([[(0, 22)], [(0, 17)]]+[W24]*7+[[(0, 22)]])]*3
LNAV_G = [words([[(0, 8), (22, 24)], [(0, 22)]]+[W24]*7+[[(0, w)]])
          for w in (22, 17, 22)]
CNAV_Q = [[(0, 8), (14, 37), (38, 271), (272, 276)],
          [(0, 8), (14, 37), (38, 276)], [(0, 8), (14, 37), (38, 127)]]
CNAV_G = [[(0, 14), (20, 276)], [(0, 14), (20, 276)], [(0, 14), (20, 127)]]
FNAV = [[(0, 214), (238, 244)]]*4


def mnav(mt, parts, qzs, tow):
    """signed form of a message; tow: time counts put into the parts"""
    out = []
    cov = {(1, True): LNAV_Q, (1, False): LNAV_G, (2, True): CNAV_Q,
           (2, False): CNAV_G}.get((mt, qzs))
    for k, p in enumerate(parts):
        if mt in (1, 2):
            x = only(p, 300, cov[k])
            put(x, 30 if mt == 1 else 20, 17, tow[k])
        elif mt == 3:
            x = [*p[:9], *only(p[9:], 600, [(0, 32), (33, 565), (566, 576)])]
        elif mt == 4:
            x = only(p, 244, FNAV[k])
            put(x, (167, 194, 186, 189)[k], 20, tow[k])
        else:
            x = list(p)
            if k == 4:
                put(x, 85, 20, tow[k])
        out += x
    return out


class Nav:
    """bits of the messages: a content number determines them"""

    def __init__(self, h):
        self.h = h
        self.tab = {}

    def part(self, sat, mt, k, iod, c):
        prn = sat % 1000
        n = {1: 300, 2: 300, 4: 244, 5: 128}[mt]
        b = rnd(f"{self.h}/{sat}/{mt}/{k}/{iod}/{c}", n)
        if mt == 1:
            put(b, 0, 8, 0x8b)
            put(b, 49, 3, k)
            if k == 1:
                put(b, 60+22, 2, iod >> 8)
                put(b, 210, 8, iod & 255)
            else:
                put(b, 60 if k == 2 else 270, 8, iod & 255)
        elif mt == 2:
            put(b, 0, 8, 0x8b)
            put(b, 8, 6, prn)
            put(b, 14, 6, (10, 11, [30, 31, 32, 33, 35, 36, 37, 61]
                           [(iod+c) % 8])[k-1])
            put(b, (70, 38, 60)[k-1], 11, iod)
        elif mt == 4:
            put(b, 0, 6, k)
            put(b, 12 if k == 1 else 6, 10, iod)
            if k == 1:
                put(b, 6, 6, prn)
        else:
            put(b, 0, 6, k)
            if k < 5:
                put(b, 6, 10, iod)
        i = iod & 255 if mt == 1 else iod
        self.tab[(sat, mt, k, i, self.store(mt, b))] = c
        return b

    @staticmethod
    def store(mt, b):
        """as kept by the receiver"""
        if mt == 1:
            x = []
            for w in range(10):
                x += [0, 0]+b[30*w:30*w+30]
            return tob(x)
        return tob(b)


class Qz:
    """messages of QZSS satellites"""

    def __init__(self, h, mode):
        self.h, self.mode = h, mode

    def part(self, sat, k, c, tow):
        """bits of content c at time tow (k: place where it is signed)"""
        if self.mode == 3:
            b = rnd(f"q/{self.h}/{sat}/{c}", 609)
            put(b, 0, 9, tow % 7200//18)
            put(b, 9+13, 8, tow//7200)
            return b
        b = rnd(f"q/{self.h}/{sat}/{c}", 300)
        if self.mode == 1:
            put(b, 30, 17, tow//6)
            put(b, 49, 3, 1+c % 3)
        else:
            put(b, 14, 6, (10, 11, 30, 32, 61)[c % 5])
            put(b, 20, 17, tow//6)
        return b

    def msg(self, sat, c, tow, rng):
        b = self.part(sat, 0, c, tow)
        if self.mode == 3:
            return self.frame(b, rng, rng.choice([1, 2, 59, 61]), 0)
        cov = LNAV_Q[0] if self.mode == 1 else CNAV_Q[2]
        free = set(range(300))-{i for a, z in cov for i in range(a, z)}
        if self.mode == 2:       # what every place leaves open
            free -= set(range(127, 276))
        free -= set(range(49, 52)) if self.mode == 1 else set()
        for i in free:           # bits not signed
            b[i] = rng.getrandbits(1)
        return Nav.store(self.mode, b)

    def frame(self, b, rng, page, seq, data=None):
        """L1C frame: SF1 (52 symbols), SF2, SF3"""
        f = [rng.getrandbits(1) for _ in range(1528)]
        f[0:9] = b[0:9]
        f[52:652] = b[9:]
        f[52+32] = rng.getrandbits(1)
        f[52+565] = rng.getrandbits(1)
        put(f, 1252, 8, 193)
        put(f, 1260, 6, page)
        put(f, 1266, 2, seq)
        if data:
            f[1268:1268+234] = data
        return tob(f)

    def rds(self, sat, d, rng):
        """bits of an RDS: key, signature, salt"""
        m = []
        for k, (c, t) in enumerate(d["m"]):
            m.append(self.part(sat, k+1, c, t))
        x = mnav(self.mode, m, True, [t//6 for _, t in d["m"]])
        salt = rng.getrandbits(16)
        r = Bits()
        r.u(d["kid"], 8)
        for v in x:
            r.u(v, 1)
        r.u(salt, 16)
        sg = sign(d["sk"], r.tobytes({1: 116, 2: 137, 3: 100}[self.mode]))
        b = []
        for v in bytes([d["kid"]])+sg+salt.to_bytes(2, "big"):
            b += [v >> (7-i) & 1 for i in range(8)]
        if d["bad"]:
            b[rng.randrange(8, 8+512+16)] ^= 1
        n = {1: 540, 2: 708, 3: 702}[self.mode]
        return b+[rng.getrandbits(1) for _ in range(n-len(b))]

    def piece(self, sat, bits, part, tow, rng):
        if self.mode == 1:
            b = [rng.getrandbits(1) for _ in range(300)]
            put(b, 30, 17, tow//6)
            put(b, 49, 3, rng.choice([4, 5]))
            put(b, 60, 8, rng.randrange(4) << 6 | 60)
            put(b, 68, 2, part)
            d = bits[180*part-180:180*part]
            b[70:84] = d[:14]
            for k in range(7):
                w = d[14+24*k:38+24*k]
                b[90+30*k:90+30*k+len(w)] = w
            return Nav.store(1, b)
        if self.mode == 2:
            b = [rng.getrandbits(1) for _ in range(300)]
            put(b, 8, 6, sat % 1000-192)
            put(b, 14, 6, 60)
            put(b, 20, 17, tow//6)
            put(b, 38, 2, part)
            b[40:276] = bits[236*part-236:236*part]
            return tob(b)
        return self.frame(self.part(sat, 0, 99, tow), rng, 60, part,
                          bits[234*part-234:234*part])


class Dut:
    def __init__(self, run, cfg, h):
        self.run, self.cfg = run, cfg
        self.n = qznma()
        self.n.monlevel = 0
        d = os.path.join(run.tmp, "qzkeys")
        self.n.pubk_bdir = d
        if not os.path.isdir(d):
            os.makedirs(d)
            for k in (1, 2, 200):
                with open(f"{d}/{k:03d}.der", "wb") as f:
                    f.write(key(k).public_key().public_bytes(
                        serialization.Encoding.DER,
                        serialization.PublicFormat.SubjectPublicKeyInfo))
        self.nav = Nav(h)
        self.qz = Qz(h, cfg["mode"])
        self.rds = {}

    def load(self, e):
        run = self.run
        mt = e["mt"]
        fn = os.path.join(run.tmp, "qz.txt")
        with open(fn, "w") as f:
            for j, (s, k, iod, c) in enumerate(e["rows"]):
                b = self.nav.part(s, mt, k, e["full"][j], c)
                if mt == 5:
                    x = [0, 0]+b[:112]+rnd(j, 8)+b[112:]+rnd(j, 102)
                else:
                    x = b
                m = Nav.store(1, b) if mt == 1 else tob(x)
                f.write(f"2300 {1000+j} {s % 1000} 0 {len(m)} {m.hex()}\n")
        return [self.n.load_navmsg_lnav, self.n.load_navmsg_cnav, None,
                self.n.load_navmsg_fnav, self.n.load_navmsg_inav][mt-1](fn)

    def l6(self, e):
        rng = self.run.rng
        b = Bits()
        b.u(0x1acffc1d, 32).u(rng.choice([193, 199]), 8).u(e["vendor"], 3)
        b.u(rng.getrandbits(6), 6)
        for r in e["rds"]:
            s, mt = r["sat"], r["mt"]
            sv = r["raw"] if s == 0 else s % 1000+SVOF[s//1000]
            par = [self.nav.part(s, mt, k+1, r["full"], c)
                   for k, c in enumerate(r["m"])] if s else []
            rt = r["rtow"]
            tw = {1: [rt, rt+1, rt+2], 2: [rt, rt+1, rt+2],
                  4: [rt, rt+10, rt+20, rt+30], 5: [0]*4+[rt]}.get(mt, [])
            x = mnav(mt, par, False, tw) if s else []
            h = [(0, 4), (rt, 20), (sv, 8), (mt, 4), (r["iod"], 11),
                 (r["iode2"], 11), (r["iodc"], 11), (r["kid"], 8)]
            d = Bits()
            for v, n in h:
                d.u(v, n)
            for v in x:
                d.u(v, 1)
            salt = rng.getrandbits(16)
            d.u(salt, 16)
            sg = bytearray(sign(r["sk"], d.tobytes({2: 125, 1: 125, 3: 89}
                                                   .get(mt, 0))))
            if r["bad"]:
                w = rng.choice(["ds", "rtow", "iode2", "iodc", "salt"])
                if w == "ds":
                    sg[rng.randrange(64)] ^= 1 << rng.randrange(8)
                elif w == "salt":
                    salt ^= 1 << rng.randrange(16)
                else:
                    i = ["", "rtow", "", "", "", "iode2", "iodc"].index(w)
                    h[i] = (h[i][0] ^ 1 << rng.randrange(8), h[i][1])
            for v, n in h:
                b.u(v, n)
            for v in sg:
                b.u(v, 8)
            b.u(salt, 16)
        while b.n < 2000:
            b.u(rng.randrange(2), 1)
        return self.n.decode(rng.randrange(604800), None, b.tobytes(250))

    def act(self, e):
        op, rng, n = e["op"], self.run.rng, self.n
        if op == "load":
            return self.load(e)
        if op == "l6":
            return self.l6(e)
        if op == "piece":
            k = (e["sat"], e["id"])
            if k not in self.rds:
                self.rds[k] = self.qz.rds(e["sat"],
                                          self.cfg["rds"][e["id"]-1], rng)
            m = self.qz.piece(e["sat"], self.rds[k], e["part"], e["tow"], rng)
        elif op == "part":
            m = self.qz.msg(e["sat"], e["c"], e["tow"], rng)
        else:
            m = self.other(e)
        mode = {1: uNavId.GPS_LNAV, 2: uNavId.GPS_CNAV,
                3: uNavId.GPS_CNAV2}[self.cfg["mode"]]
        return n.decode(e["tow"], m, None, gn.sat(e["sat"]), mode)

    def other(self, e):
        """subframe or page that is no part of it"""
        rng = self.run.rng
        m = self.qz.mode
        if m == 1:
            b = [rng.getrandbits(1) for _ in range(300)]
            put(b, 30, 17, e["tow"]//6)
            put(b, 49, 3, rng.choice([4, 5]))
            put(b, 62, 6, rng.choice([1, 51, 56, 63, 0]))
            return Nav.store(1, b)
        b = self.qz.part(e["sat"], 0, 98, e["tow"])
        if m == 3:
            return self.qz.frame(b, rng, rng.choice([1, 59, 61]), 3)
        return tob(b)

    def view(self, e):
        n = self.n
        auth = [[gn.unsat(s), toint(i), toint(v)]
                for s, d in n.vstatus.items() for i, v in d.items()]
        out = dict(auth=gn.uset(auth), valid=toint(n.count_valid_sat()),
                   nsat=[toint(n.nsat[s]) for s in (uGNSS.GPS, uGNSS.GAL,
                                                    uGNSS.QZS)])
        if e["op"] == "load":
            rows = []
            for s, d in n.navmsg.items():
                i = gn.unsat(s)
                if i//1000 == 5:
                    continue
                for iod, q in d.items():
                    for mt, m in q.items():
                        w, z = {1: (40, 40), 2: (38, 38), 4: (31, 31),
                                5: (16, 16)}[mt]
                        r = [i, int(mt), toint(iod)]
                        for k in range(NP[mt]):
                            p = bytes(m.msg[w*k:w*k+z])
                            c = [self.nav.tab[x] for x in self.nav.tab
                                 if x[:3] == (i, int(mt), k+1) and x[4] == p]
                            r.append(c[0] if c and m.iodn == iod and
                                     int(m.navid) == mt else INEXACT)
                        rows.append(r)
            out["store"] = gn.uset(rows)
        return out

    def do(self, e):
        run = self.run
        _, exc = run.call(self.act, e)
        out = {}
        if not exc:
            out, x = run.call(self.view, e)
            if x:
                out, exc = {}, "view:"+x
        a = {k: v for k, v in e.items() if k not in ("op", "out", "exc",
                                                     "full")}
        run.ev(e["op"], out=out, exc=exc, **a)


class Gen:
    """GPS and Galileo messages and their L6 RDSs"""

    def __init__(self, rng):
        self.rng = rng
        self.sats = [1000+p for p in rng.sample(range(1, 33), 2)] + \
            [3000+p for p in rng.sample(range(1, 37), 2)]
        self.msgs = []      # sat, mt, iod, full issue, contents

    def load(self):
        rng = self.rng
        mt = rng.choice([1, 2, 4, 5])
        ss = [s for s in self.sats if (s//1000 == 1) == (mt < 4)]
        rows, full = [], []
        per = {s: [] for s in ss}
        for _ in range(rng.randint(1, 4)):
            s = rng.choice(ss)
            fu = rng.choice([rng.randrange(1024), 5, 7])
            iod = fu & 255 if mt == 1 else fu
            cs = [rng.randint(1, 3)]*NP[mt]
            old = [m for m in self.msgs if m[:3] == (s, mt, iod)]
            if old and rng.random() < .8:
                fu, cs = old[0][3], list(old[0][4])
            elif rng.random() < .2:
                cs[rng.randrange(NP[mt])] += 3
            ks = list(range(1, NP[mt]+1))
            z = rng.random()
            if z < .12:
                ks.pop(rng.randrange(len(ks)))
            elif z < .2 and mt in (1, 2, 4):
                rng.shuffle(ks)
            for k in ks:
                per[s].append((k, iod, cs[k-1], fu))
            if not old and len(ks) == NP[mt]:
                self.msgs.append((s, mt, iod, fu, tuple(cs)))
        # satellites are read one after another
        q = [(s, x) for s in sorted(per) for x in per[s]]
        if rng.random() < .5:       # interleaved in the file
            o = [s for s in per for _ in per[s]]
            rng.shuffle(o)
            it = {s: iter(per[s]) for s in per}
            q = [(s, next(it[s])) for s in o]
        for s, (k, iod, c, fu) in q:
            rows.append([s, k, iod, c])
            full.append(fu)
        if len(rows) < 2:
            return self.load()
        return dict(op="load", mt=mt, rows=rows, full=full)

    def rds(self):
        rng = self.rng
        r = dict(kid=rng.choice([1, 1, 1, 2]), bad=rng.random() < .12,
                 rtow=rng.randrange(100000), iode2=rng.randrange(2048),
                 iodc=rng.randrange(2048), raw=0)
        r["sk"] = r["kid"] if rng.random() < .85 else rng.choice([1, 2, 9])
        if rng.random() < .06:
            r["kid"] = rng.choice([9, 200])
        z = rng.random()
        if z < .06 or not self.msgs:
            r.update(sat=0, mt=rng.choice([0, 1, 5, 15]), m=[], iod=rng.randrange(2048),
                     raw=rng.choice([0, 33, 63, 64, 110, 130, 190, 203, 255]),
                     full=0)
            return r
        s, mt, iod, fu, cs = rng.choice(self.msgs)
        cs = list(cs)
        if z < .16:
            cs[rng.randrange(len(cs))] = 9
        elif z < .2:
            iod = (iod+1) % 256
            cs = [c+20 for c in cs]
        r.update(sat=s, mt=mt, iod=iod, m=cs, full=fu)
        return r

    def l6(self):
        rng = self.rng
        return dict(op="l6", vendor=3 if rng.random() < .93 else
                    rng.choice([1, 2, 5, 7]), rds=[self.rds(), self.rds()])


def gnss(run, rng, h):
    cfg = dict(mode=1, keys=[1, 2, 200], rds=[])
    run.hist(**cfg)
    d = Dut(run, cfg, h)
    g = Gen(rng)
    d.do(g.load())
    for _ in range(rng.randint(4, 14)):
        d.do(g.load() if rng.random() < .3 else g.l6())


def qzss(run, rng, h):
    """broadcast of QZSS satellites with losses, replays and forgeries"""
    mode = rng.choice([1, 2, 3])
    st = 18 if mode == 3 else 6
    sats = rng.sample([5193, 5194, 5195, 5196, 5199], rng.choice([1, 2]))
    t0 = rng.choice([0, st, 604800-5*st, rng.randrange(604800//st)*st])
    t0 -= t0 % st
    rds, evs = [], []
    for s in sats:
        t = t0
        c = 3*rng.randrange(3)+1
        for _ in range(rng.randint(2, 4)):
            T = [(t+k*st) % 604800 for k in range(12)]
            # pieces in three messages, then those that are signed
            n = 1 if mode == 3 else 3
            gap = rng.random() < .5 and mode != 3
            tp = [0, 4, 8] if gap else [0, 1, 2]
            tm = [tp[2]+1+k for k in range(n)]
            cs = [c+k for k in range(n)]
            kid = rng.choice([1, 1, 2])
            r = dict(kid=kid, sk=kid, bad=False,
                     m=[[cs[k], T[tm[k]]] for k in range(n)])
            z = rng.random()
            if z < .08:
                r["bad"] = True
            elif z < .16:
                r["sk"] = rng.choice([1, 2, 9])
            elif z < .2:
                r["kid"] = 9
            elif z < .26:
                r["m"][rng.randrange(n)][0] += 50
            elif z < .3:
                k = rng.randrange(n)
                r["m"][k][1] = (r["m"][k][1]+st) % 604800
            rds.append(r)
            id = len(rds)
            seq = []
            for j in range(tm[-1]+1):
                if j in tp:
                    seq.append(dict(op="piece", sat=s, part=tp.index(j)+1,
                                    id=id, tow=T[j]))
                elif j in tm or mode != 2 and rng.random() < .5 and mode != 3:
                    seq.append(dict(op="part", sat=s, tow=T[j],
                                    c=cs[tm.index(j)] if j in tm else 70))
                else:
                    seq.append(dict(op="other", sat=s, tow=T[j]) if mode != 2
                               else dict(op="part", sat=s, c=71, tow=T[j]))
            out = []
            for e in seq:
                z = rng.random()
                if z < .05:
                    continue                     # lost
                if z < .08 and e["op"] == "part":
                    e["c"] += 100                # altered
                out.append(e)
                if z > .97:
                    out.append(dict(e))          # received twice
            evs.append(out)
            t = (t+st*(tm[-1]+1)) % 604800
            if rng.random() < .4:
                c += 3
    cfg = dict(mode=mode, keys=[1, 2, 200], rds=rds)
    run.hist(**cfg)
    d = Dut(run, cfg, h)
    q = {}
    for o in evs:
        if o:
            q.setdefault(o[0]["sat"], []).extend(o)
    q = {s: v for s, v in q.items() if v}
    while q:
        s = rng.choice(list(q))
        d.do(q[s].pop(0))
        if not q[s]:
            del q[s]


def main(run):
    rng = run.rng
    run.assumptions += [
        "bits covered by the signatures and length of the signed data as in "
        "the code's reading of the interface",
        "pieces of an RDS are sent in order; one signal of a QZSS satellite "
        "is used; messages of a type and issue do not change within a file"]
    run.model_check("Qznma_MC")
    edges = run.model_check("Qznma_MC", emit=True)
    for cfg, evs in run.paths(edges, maxlen=30,
                              budget=80 if run.quick else 1500):
        run.hist(**cfg)
        d = Dut(run, cfg, "m")
        for e in evs:
            if e["op"] == "load":
                e = dict(e, full=[r[2] for r in e["rows"]])
            elif e["op"] == "l6":
                e = dict(e, rds=[dict(r, full=r["iod"], rtow=100, iode2=0,
                                      iodc=0) for r in e["rds"]])
            d.do(e)
    run.validate("Qznma_Trace", label="model")
    for h in range(250 if run.quick else 4000):
        (gnss if h % 2 else qzss)(run, rng, f"h{h}")
    run.validate("Qznma_Trace")
