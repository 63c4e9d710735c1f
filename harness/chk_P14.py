"""P14: Galileo OSNMA.  The operator, the adversary and the channel are played
here with real cryptography; what was signed by whom is told symbolically."""
import hashlib
import hmac as hmac_
import os
from binascii import hexlify

from cryptography.hazmat.primitives import cmac, hashes, serialization
from cryptography.hazmat.primitives.asymmetric import ec, utils
from cryptography.hazmat.primitives.ciphers import algorithms

from vlib import Bits
import gn

from cssrlib.gnss import gtime_t, time2gpst
from cssrlib.osnma import osnma, uOSNMA

KLEN = [96, 104, 112, 120, 128, 160, 192, 224, 256]
TLEN = {6: 24, 8: 32, 9: 40}
TABS = {6: [27, 33, 34, 35], 5: [31, 36, 37, 38], 4: [39, 40, 41]}
MODE = {27: "SEEESE SEESSE", 31: "SEESE SEESS", 33: "SESESE SEESEE",
        34: "SFSFSE SFESEE", 35: "SFSFSF SFFSFF", 36: "SFSFS SFESE",
        37: "SESES SEESE", 38: "SFSFS SFFSF", 39: "SFSF SFES",
        40: "SESS SEEE", 41: "SFSF SFFS"}
MODE[27] = "SEEESE SEESSE"
ADKD = {27: [0, 0, 0, 0, 12, 0, 0, 0, 0, 4, 12, 0],
        31: [0, 0, 0, 12, 0, 0, 0, 0, 12, 4],
        33: [0, 0, 4, 0, 12, 0, 0, 0, 0, 12, 0, 12],
        34: [0, 0, 4, 0, 12, 0, 0, 0, 0, 12, 0, 12],
        35: [0, 0, 4, 0, 12, 0, 0, 0, 0, 12, 0, 0],
        36: [0, 0, 4, 0, 12, 0, 0, 0, 12, 12],
        37: [0, 0, 4, 0, 12, 0, 0, 0, 12, 0],
        38: [0, 0, 4, 0, 12, 0, 0, 0, 12, 0],
        39: [0, 0, 4, 0, 0, 0, 0, 12], 40: [0, 0, 4, 12, 0, 0, 0, 12],
        41: [0, 0, 4, 0, 0, 0, 0, 12]}
MODE36 = {36: [1, 2, 1, 2, 1, 1, 2, 0, 1, 0]}
MODES = {k: [dict(S=1, E=0, F=2)[c] for c in v.replace(" ", "")]
         for k, v in MODE.items()}
MODES.update(MODE36)
HF = {0: hashlib.sha256, 2: hashlib.sha3_256}


def keypair(k, curve=None):
    return ec.derive_private_key(1000+k, curve or ec.SECP256R1())


def point(priv):
    return priv.public_key().public_bytes(
        serialization.Encoding.X962,
        serialization.PublicFormat.CompressedPoint)


def flipped(b, rng, lo=0, hi=None):
    b = bytearray(b)
    k = rng.randrange(lo, hi if hi is not None else 8*len(b))
    b[k//8] ^= 0x80 >> k % 8
    return bytes(b)


class World:
    """the constants of a history and the byte strings of its symbols"""

    def __init__(self, rng):
        self.rng = rng
        while True:
            self.ks = rng.choice([4, 4, 0, 5, 6, 7, 8])
            self.ts = rng.choice([9, 9, 8, 6])
            self.nt = (480-KLEN[self.ks])//(TLEN[self.ts]+16)
            if self.nt in TABS:
                break
        self.lk = KLEN[self.ks]//8
        self.lt = TLEN[self.ts]//8
        self.tab = rng.choice(TABS[self.nt])
        self.hf = rng.choice([0, 0, 2])
        self.mf = rng.choice([0, 1]) if self.lk in (16, 24, 32) else 0
        # subframe number 0
        w = rng.randrange(1250, 2000)
        self.t0 = w*604800 + rng.choice([
            rng.randrange(20160)*30, rng.choice([-60, -90, -120, -150]),
            604800-30*rng.randrange(10)])
        self.par = self.t0//30 % 2
        self.top = 40
        self.chains = {}      # c -> (alpha, {i: key})
        self.ids = {}         # contents of words
        self.dsm = []
        self.blk = {}
        self.priv = {}
        # Merkle tree of 16 leaves
        self.leaf = []
        for i in range(16):
            if i == 15:
                self.leaf.append((4, 0, 0, None))
                continue
            curve = rng.choice([1, 1, 1, 3])
            p = self.key(100+i, curve)
            self.leaf.append((curve, i+1, 100+i, point(p)))
        self.oamnb = rng.choice([13, 14])
        self.oam = bytes(rng.randrange(256)
                         for _ in range((104*self.oamnb-1040)//8))
        self.nodes = [[hashlib.sha256(self.mi(i)).digest()
                       for i in range(16)]]
        while len(self.nodes[-1]) > 1:
            x = self.nodes[-1]
            self.nodes.append([hashlib.sha256(x[i]+x[i+1]).digest()
                               for i in range(0, len(x), 2)])

    def key(self, tok, curve=1):
        if tok not in self.priv:
            self.priv[tok] = keypair(tok, ec.SECP521R1() if curve == 3
                                     else ec.SECP256R1())
        return self.priv[tok]

    def mi(self, i):
        t, pid, _, npk = self.leaf[i]
        return bytes([t << 4 | pid])+(npk if t != 4 else self.oam)

    def gst(self, n):
        t = self.t0+30*n
        return Bits().u(t//604800 % 4096, 12).u(t % 604800, 20).tobytes()

    def wt(self, n):
        """GPS week and time of week"""
        t = self.t0+30*n
        return 1024+t//604800, t % 604800

    # --- chains
    def chain(self, c, t0, like=None, future=False):
        """chain with keys t0-1 (root) .. top"""
        alpha = self.chains[like][0] if like else \
            bytes(self.rng.randrange(256) for _ in range(6))
        top = max(self.top, t0+5)
        k = bytes(self.rng.randrange(256) for _ in range(self.lk))
        keys = {top: k}
        for i in range(top-1, t0-2, -1):
            k = HF[self.hf](k+self.gst(i)+alpha).digest()[:self.lk]
            keys[i] = k
        self.chains[c] = (alpha, keys)

    def bid(self, b):
        """number of the content of a block"""
        return self.blk.setdefault(bytes(b), len(self.blk)+1)

    def kb(self, key):
        return self.chains[key[0]][1].get(key[1], bytes(self.lk))

    # --- messages
    def adddsm(self, d):
        """d: symbolic description; its bytes are made here"""
        rng = self.rng
        if d["kind"] == "kroot":
            alpha, keys = self.chains[d["c"]]
            wn, tow = self.wt(d["t0"])
            nb = d["nb"]
            f = d.pop("fmt", {})
            # the chain ID makes the first blocks of messages differ in what
            # is signed (the first byte is not)
            b = Bits().u(nb-6, 4).u(d["pkid"], 4).u(len(self.dsm) % 4, 2)
            b.u(0, 2).u(f.get("hf", self.hf), 2).u(f.get("mf", self.mf), 2)
            b.u(f.get("ks", self.ks), 4).u(f.get("ts", self.ts), 4)
            b.u(d["lt"], 8).u(0, 4).u((wn-1024) % 4096, 12).u(tow//3600, 8)
            b = b.tobytes()+alpha+keys[d["t0"]-1]
            lk = self.lk
            if f.get("ks", self.ks) != self.ks and f["ks"] < 9:
                lk = KLEN[f["ks"]]//8
                b = (b+rng.randbytes(40))[:13+lk]
            m = bytes([d["hdr"]])+b[1:]
            sg = self.key(d["pk"] if d["pk"] else 7777).sign(
                m, ec.ECDSA({0: hashes.SHA256,
                             2: hashes.SHA3_256}[self.hf]()))
            r, s = utils.decode_dss_signature(sg)
            ds = r.to_bytes(32, "big")+s.to_bytes(32, "big")
            if d["bad"]:
                ds = flipped(ds, rng)
            b += ds
            n = nb*13-len(b)
            h = HF[self.hf](m+ds).digest()[:n]
            h += bytes(max(0, n-len(h)))
            if not d["pdk"] and n > 0:
                h = flipped(h, rng)
            b += h
        else:
            i = d.pop("leaf")
            t, pid, tok, npk = self.leaf[i]
            b = bytes([d["nb"]-6 << 4 | i])
            x = i
            itn = b""
            for lv in range(4):
                itn += self.nodes[lv][x ^ 1]
                x >>= 1
            mi = self.mi(i)
            pdp = hashlib.sha256(self.nodes[4][0]+mi).digest()
            n = d["nb"]*13-1-128-len(mi)
            if d["bad"]:
                k = d.pop("how")
                if k == 0:
                    itn = flipped(itn, rng)
                elif k == 1:     # another key, consistent otherwise
                    mi = bytes([t << 4 | pid])+(
                        point(self.key(555, t)) if t != 4 else
                        bytes(len(mi)-1))
                    pdp = hashlib.sha256(self.nodes[4][0]+mi).digest()
                elif k == 2:
                    b = bytes([b[0] ^ 1 << rng.randrange(4)])
                else:
                    pdp = flipped(pdp, rng, 0, 8*min(n, 32)) if n else \
                        pdp
                    if not n:
                        itn = flipped(itn, rng)
            b += itn+mi+pdp[:n]
        b += bytes(max(0, d["nb"]*13-len(b)))
        d["bytes"] = b
        d["ids"] = [self.bid(b[13*i:13*i+13]) for i in range(d["nb"])]
        self.dsm.append(d)
        return len(self.dsm)

    # --- navigation words
    LEN = {1: 110, 2: 110, 3: 112, 4: 110, 5: 67, 6: 99, 10: 42}

    def content(self, mt, x):
        if (mt, x) not in self.ids:
            self.ids[mt, x] = self.rng.getrandbits(self.LEN.get(mt, 100))
        return self.ids[mt, x]

    def variant(self, mt, x):
        """a word differing by one authenticated bit"""
        y = 100000+len(self.ids)
        self.ids[mt, y] = self.content(mt, x) ^ 1 << self.rng.randrange(
            self.LEN[mt])
        return y

    def auth(self, mt, iod, x):
        """the authenticated part of a word"""
        b = Bits()
        if mt <= 4:
            b.u(iod, 10)
        return b.u(self.content(mt, x), self.LEN[mt])

    def word(self, mt, iod, x):
        b = Bits().u(mt, 6)
        if mt in self.LEN:
            if mt == 10:
                b.u(self.rng.getrandbits(80), 80)
            b.cat(self.auth(mt, iod, x))
        return b.u(self.rng.getrandbits(128-b.n), 128-b.n)

    # --- MACs
    def mac(self, key, msg):
        k = self.kb(key)
        if self.mf == 0:
            return hmac_.new(k, msg, hashlib.sha256).digest()
        c = cmac.CMAC(algorithms.AES(k))
        c.update(msg)
        return c.finalize()

    def tag(self, t, i):
        m = t["m"]
        if not m["dat"]:
            return self.rng.randbytes(self.lt)
        b = Bits()
        if i > 1:
            b.u(m["a"] if m["d"] == 255 else m["d"], 8)
        b.u(m["a"], 8)
        b.cat(Bits().u(int.from_bytes(self.gst(m["sf"]), "big"), 32))
        b.u(m["i"], 8).u(m["nmas"], 2)
        if t["k"] == 4:
            b.cat(self.auth(6, 0, m["dat"][0]))
            b.cat(self.auth(10, 0, m["dat"][1]))
        else:
            for j in range(5):
                b.cat(self.auth(j+1, m["dat"][0], m["dat"][j+1]))
        x = self.mac(t["key"], b.tobytes())[:self.lt]
        return flipped(x, self.rng) if t["bad"] else x

    def mack(self, m):
        b = b""
        q = m["seq"]
        s = bytes([q["a"]])+self.gst(q["sf"])
        fl = list(q["fl"])
        for d, k in fl:
            s += bytes([d, k << 4 | (d*7+k) % 16])
        mq = int.from_bytes(self.mac(q["key"], s)[:2], "big") >> 4
        if q["bad"]:
            mq ^= 1 << self.rng.randrange(12)
        for i, t in enumerate(m["tags"]):
            b += self.tag(t, i+1)
            if i == 0:
                b += (mq << 4 | self.rng.randrange(16)).to_bytes(2, "big")
            else:
                b += bytes([t["d"], t["k"] << 4 | (t["d"]*7+t["k"]) % 16])
        k = self.kb(m["key"])
        if m["kbad"]:
            k = flipped(k, self.rng)
        return (b+k).ljust(60, b"\0")


def tree_xml(w, fn, keys, root):
    L = ["<signalData><header/><body><MerkleTree>",
         "<N>16</N><HashFunction>SHA-256</HashFunction>"]
    for pid, tok in keys:
        L.append(f"<PublicKey><i>0</i><PKID>{pid}</PKID>"
                 "<lengthInBits>264</lengthInBits>"
                 f"<point>{hexlify(point(w.key(tok))).decode()}</point>"
                 "<PKType>ECDSA P-256/SHA-256</PKType></PublicKey>")
    for j, lv in enumerate(w.nodes):
        for i, x in enumerate(lv):
            if j == 4 and not root:
                continue
            L.append(f"<TreeNode><j>{j}</j><i>{i}</i><lengthInBits>256"
                     f"</lengthInBits><x_ji>{hexlify(x).decode()}</x_ji>"
                     "</TreeNode>")
    L.append("</MerkleTree></body></signalData>")
    with open(fn, "w") as f:
        f.write("\n".join(L))


class Dut:
    def __init__(self, run, w, keys, root, slow, vmin):
        self.run, self.w = run, w
        cfg = dict(par=w.par, keys=[list(k) for k in keys], root=root,
                   slow=slow, vmin=vmin,
                   dsm=[{k: v for k, v in d.items() if k != "bytes"}
                        for d in w.dsm])
        run.hist(**cfg)
        tree_xml(w, os.path.join(run.tmp, "mt.xml"), keys, root)
        self.o = o = osnma(logfile=os.path.join(run.tmp, "osnma.log"))
        o.monlevel = 0
        o.vcnt_min = vmin
        o.flg_slowmac = slow
        o.load_mt(os.path.join(run.tmp, "mt.xml"))
        o.pubk_bdir = run.tmp+"/"

    def view(self):
        o = self.o

        def f(x):
            return bool(o.status & x)
        return dict(rl=f(uOSNMA.ROOTKEY_LOADED),
                    rv=f(uOSNMA.ROOTKEY_VERIFIED),
                    kc=f(uOSNMA.KEYCHAIN_VERIFIED),
                    utc=f(uOSNMA.UTC_VERIFIED), pos=f(uOSNMA.POS_AUTH),
                    pkr=f(uOSNMA.PKR_UPDATED),
                    vs=[[int(p), int(i), int(o.vstatus[p][i])]
                        for p in o.vstatus for i in o.vstatus[p]],
                    pk=[int(k) for k in o.pk_list])

    def pk(self, pid, tok):
        pem = self.w.key(tok).public_key().public_bytes(
            serialization.Encoding.PEM,
            serialization.PublicFormat.SubjectPublicKeyInfo)
        with open(os.path.join(self.run.tmp, "pk.pem"), "wb") as f:
            f.write(pem)

        def go():
            self.o.load_pubkey_pkid("pk.pem", pid)
            return self.view()
        out, exc = self.run.call(go)
        self.run.ev("pk", out=out, exc=exc, id=pid, tok=tok)

    def subframe(self, n, S):
        """S: per satellite dict(a, pages, words, hk, mack)"""
        w, rng = self.w, self.run.rng
        wn, tow = w.wt(n)
        navs, osn, fin = [], {}, []
        raw = {}
        for s in S:
            a = s["a"]
            ws = []
            for k in range(15):
                x = s["words"][k]
                if s["pages"][k] and x and 0 < x[0] <= 10:
                    ws.append(list(x))
            navs.append(dict(s=a, first=bool(s["pages"][0]), w=ws))
            raw[a] = (self.hkbytes(s["hk"]), w.mack(s["mack"]))
        navs = [r for r, s in zip(navs, S) if any(s["pages"])]
        self.run.ev("navs", out={}, r=navs)
        for k in range(15):
            order = list(S)
            rng.shuffle(order)
            for s in order:
                if not s["pages"][k]:
                    continue
                a = s["a"]
                hk, mk = raw[a]
                x = s["words"][k]
                wd = w.word(*x) if x else \
                    Bits().u(0, 6).u(rng.getrandbits(122), 122)
                wd.n == 128
                nma = bytes([hk[k]])+mk[4*k:4*k+4]
                page = Bits().u(0, 2).u(wd.v >> 16, 112).u(0, 6)
                page.u(2, 2).u(wd.v & 0xffff, 16)
                page.u(int.from_bytes(nma, "big"), 40)
                page.u(rng.getrandbits(62-0), 62)
                msg = page.tobytes()

                def go():
                    nav, nb = self.o.load_gal_inav(bytearray(msg))
                    self.o.save_gal_inav(nav, a, tow+2*k+1)
                    self.o.prn_a = a
                    self.o.decode(nb, wn, tow+2*k+1, a)
                    return self.view()
                out, exc = self.run.call(go)
                last = max(i for i in range(15) if s["pages"][i])
                if k == last or exc:
                    h = s["hk"]
                    self.run.ev("osn", out=out, exc=exc, a=a, n=n,
                                full=all(s["pages"]), hk=h,
                                mack=self.sym(s["mack"]))
                    if exc:
                        return False
        return True

    @staticmethod
    def sym(m):
        return dict(key=m["key"] if not m["kbad"] else [0, -77],
                    seq=m["seq"],
                    tags=[dict(d=t["d"], k=t["k"], key=t["key"], m=t["m"],
                               bad=t["bad"]) for t in m["tags"]])

    def hkbytes(self, h):
        d = self.w.dsm[h["d"]-1]
        b = Bits().u(h["nmas"], 2).u(h["cid"], 2).u(h["cpks"], 3).u(0, 1)
        assert b.v == h["hdr"]
        b.u(h["did"], 4).u(h["bid"], 4)
        x = d["bytes"][13*h["bid"]:13*h["bid"]+13]
        if len(x) < 13:
            x = bytes(self.w.rng.randrange(256) for _ in range(13))
        h["x"] = self.w.bid(x)
        return b.tobytes()+x

    def chk(self, p, iod):
        out, exc = self.run.call(lambda: dict(ok=bool(self.o.chk_nav(p,
                                                                    iod))))
        self.run.ev("chk", out=out if not exc else {}, exc=exc, p=p, iod=iod)


def hdr(nmas, cid, cpks):
    return nmas << 6 | cid << 4 | cpks << 1


def flow(run):
    rng = run.rng
    w = World(rng)
    slow = rng.random() < .35
    N = rng.randint(12, 18) if slow else rng.randint(5, 11)
    vmin = rng.choice([1, 1, 1, 2, 3])
    H = hdr(rng.choice([1, 2]), 1, 1)
    nmas = H >> 6
    # root key of the operator's chain: at an hour
    tod = w.t0 % 3600//30
    t0 = -tod - 120*rng.choice([0, 0, 1, 5, 167, 168, 400])
    w.chain(1, t0)
    w.chain(2, t0, like=1)             # adversary, same seed
    w.chain(3, -tod+120*2)             # not yet started
    lk = w.lk
    nb0 = -(-(13+lk+64)//13)
    nb0 = max(7, nb0)

    def kr(**k):
        d = dict(kind="kroot", did=0, nb=nb0,
                 hb=-(-(13+lk)//13), pkid=1, pk=1, hdr=H, bad=False,
                 pdk=True, oam=False, c=1, t0=t0, lt=w.tab)
        d.update(k)
        if 13*d["nb"] == 13+lk+64:
            if not d["pdk"]:
                d["nb"] += 1
        return w.adddsm(d)
    keys = [(1, 1)]
    if rng.random() < .5:
        keys.append((2, 2))
    root = rng.random() < .85
    viapkr = None
    if rng.random() < .25:       # the key arrives by renewal
        lf = rng.choice([i for i in range(15) if w.leaf[i][0] == 1])
        viapkr = lf
        _, pid, tok, _ = w.leaf[lf]
        keys = [(3 if pid != 3 else 4, 2)]
        D1 = kr(did=rng.randrange(12), pkid=pid, pk=tok)
    else:
        D1 = kr(did=rng.randrange(12))
    did1 = w.dsm[D1-1]["did"]
    others = []
    # forged root keys: not signed by a known key, or altered
    for _ in range(rng.choice([0, 1, 2])):
        k = rng.randrange(6)
        did = rng.choice([x for x in range(12) if x != did1])
        if rng.random() < .3:
            did = did1
        if k == 0:
            others.append(kr(did=did, c=2, pk=0))
        elif k == 1:
            others.append(kr(did=did, c=2, bad=True))
        elif k == 2:
            others.append(kr(did=did, c=2, pk=0, pkid=9))
        elif k == 3:
            others.append(kr(did=did, c=2, pk=0, pdk=False))
        elif k == 4:
            others.append(kr(did=did, c=1, hdr=H ^ 0x10))
        else:
            f = rng.choice([dict(hf=1), dict(hf=3), dict(ks=12), dict(ts=1),
                            dict(mf=3), dict(ks=(w.ks+1) % 9)])
            others.append(kr(did=did, c=2, pk=0, pdk=False, fmt=f))
    if rng.random() < .2:
        others.append(kr(did=(did1+1) % 12, c=3, t0=-tod+240))
    good2 = None
    if rng.random() < .25:             # renewed root key of the same chain
        b = kr(did=(did1+2) % 12, t0=t0+120*rng.choice([0, 0, -0]),
               pkid=w.dsm[D1-1]["pkid"], pk=w.dsm[D1-1]["pk"])
        good2 = b
    pkrs = []
    for _ in range(rng.choice([0, 0, 1, 2]) + (viapkr is not None)):
        first = viapkr is not None and not pkrs
        lf = viapkr if first else rng.randrange(16)
        t, pid, tok, _ = w.leaf[lf]
        bad = not first and rng.random() < .6
        d = dict(kind="pkr", did=12+len(pkrs),
                 nb={1: 13, 3: 16, 4: w.oamnb}[t], hb=0, pkid=pid, pk=tok,
                 hdr=H, bad=bad, pdk=True, oam=t == 4, c=0, t0=0, lt=0,
                 leaf=lf)
        if bad:
            d["how"] = rng.randrange(4)
        pkrs.append(w.adddsm(d))
    d = Dut(run, w, keys, root, slow, vmin)
    sats = rng.sample(getattr(run, "satpool", range(1, 37)),
                      rng.choice([2, 4, 5, 6]))
    evil = set(rng.sample(sats, rng.choice([0, 0, 1, 1, 2])))
    ploss = rng.choice([0, 0, 0, .01, .05])
    pbad = rng.choice([0, 0, .05, .15])
    iod = {a: rng.randrange(1024) for a in sats}
    xs = {a: rng.randrange(1, 50000) for a in sats}
    utcx = rng.randrange(1, 50000)
    hist = {}                         # (a, n) -> transmitted data tuple
    hist6 = {}
    last = {}
    plan = [pkrs[0]]*2 if viapkr is not None else []
    seqs = {}
    stopn = rng.randrange(3, N) if rng.random() < .15 else None
    prev = {}
    for n in range(N):
        if rng.random() < .15:
            for a in sats:
                if rng.random() < .5:
                    iod[a] = rng.randrange(1024)
                    xs[a] = rng.randrange(1, 50000)
        if rng.random() < .1:
            utcx = rng.randrange(1, 50000)
        S = []
        order = list(sats)
        rng.shuffle(order)
        nm = nmas
        if stopn is not None and stopn <= n < stopn+2:
            nm = rng.choice([0, 3])
        cpks = 0 if rng.random() < .03 else (H >> 1) & 7
        for a in sats:
            hist[a, n] = [iod[a]]+[xs[a]]*5
            hist6[n] = [utcx, utcx]
        for a in order:
            if rng.random() < .06:
                continue
            fake = a in evil and n >= 2 and rng.random() < .8
            # navigation words
            y = [[1, iod[a], xs[a]], [2, iod[a], xs[a]], [3, iod[a], xs[a]],
                 [4, iod[a], xs[a]], [5, 0, xs[a]], [6, 0, utcx],
                 [10, 0, utcx], [7, 0, 1], [8, 0, 1]]
            if rng.random() < .1:
                y = y[:5]+rng.sample(y[5:], 2)
            alt = None
            if fake and rng.random() < .7:
                q = rng.randrange(5)
                x2 = 60000+a*100+n
                y[q] = [q+1, y[q][1], w.variant(q+1, xs[a])]
                alt = x2
            elif rng.random() < pbad:
                q = rng.randrange(len(y))
                if q < 4 and rng.random() < .3:
                    y[q] = [y[q][0], (iod[a]+1) % 1024, y[q][2]]
                elif y[q][0] in w.LEN:
                    y[q] = [y[q][0], y[q][1], w.variant(y[q][0], y[q][2])]
            words = y+[None]*(15-len(y))
            rng.shuffle(words)
            # data the tags are computed for: the slot before
            sent = {x[0]: x for x in y}
            hist[a, n, "rx"] = [sent[1][1] if all(
                sent[k][1] == sent[1][1] for k in range(2, 5)) else -1] + \
                [sent[k][2] for k in range(1, 6)]

            def dat(d_, k, fk):
                if k == 4:
                    return list(hist6.get(n-1, []))
                if fk:
                    return list(hist.get((d_, n-1, "rx"), []))
                return list(hist.get((d_, n-1), []))
            ch = 2 if fake and rng.random() < .7 else 1
            key = [ch, n+1]
            modes, adkd = MODES[w.tab], ADKD[w.tab]
            half = len(modes)//2
            o = half if (n+w.par) % 2 else 0
            tags = []
            for i in range(half):
                k, md = adkd[o+i], modes[o+i]
                if md == 2:
                    k = rng.choice([0, 0, 4, 12])
                dd = a if md == 1 else rng.choice(sats+[99])
                if md == 2 and k == 0 and dd == a:
                    dd = rng.choice([x for x in sats if x != a])
                if k == 4 and rng.random() < .8:
                    dd = 255 if md != 1 else a
                if i and rng.random() < .01:
                    k = rng.choice([0, 4, 12, 7])
                if i and k == 0 and dd == a:
                    dd = rng.choice([x for x in sats if x != a])
                dt = dat(dd, k, fake) if k in (0, 4, 12) else []
                kk = [ch, n+11] if k == 12 else list(key)
                if dt and dt[0] < 0:
                    dt = []
                t = dict(d=dd, k=k, key=kk, bad=False,
                         m=dict(d=dd, a=a, sf=n, i=i+1, nmas=nm, dat=dt))
                if dt and rng.random() < pbad/2:
                    r = rng.randrange(6)
                    if r == 0:
                        t["bad"] = True
                    elif r == 1:
                        t["m"]["i"] += 1
                    elif r == 2:
                        t["m"]["sf"] -= 2
                    elif r == 3:
                        t["m"]["nmas"] ^= 3
                    elif r == 4:
                        t["m"]["a"] = rng.choice(sats)
                        if i == 0 or dd == 255:
                            t["m"]["d"] = t["m"]["a"] if i == 0 else dd
                    else:
                        t["key"] = [t["key"][0], t["key"][1]-1]
                tags.append(t)
            fl = [[t["d"], t["k"]] for i, t in enumerate(tags)
                  if modes[o+i] == 2]
            m = dict(tags=tags, key=[ch, n], kbad=False,
                     seq=dict(a=a, sf=n, key=list(key), fl=fl, bad=False))
            if rng.random() < pbad/4:
                m["seq"]["bad"] = True
            if rng.random() < pbad/4:
                m["kbad"] = True
            if fake and rng.random() < .1:
                # the root key itself, of a chain not yet started
                m["key"] = [3, -tod+240-1]
            if rng.random() < .02 and n:
                m["key"] = [1, n-1]
            if rng.random() < pbad/8 and fl:
                m["seq"]["fl"] = fl[::-1] if fl != fl[::-1] else \
                    [[1, 1]]*len(fl)
            if fake and rng.random() < .15 and (a, "mack") in last:
                m = last[a, "mack"]          # replay
            if fake and rng.random() < .15 and prev:
                m = rng.choice(list(prev.values()))   # of another satellite
            last[a, "mack"] = m
            # HKROOT
            D = None
            if fake and others and rng.random() < .6:
                D = rng.choice(others)
            else:
                z = rng.random()
                D = D1
                if plan and z < .7:
                    D = plan[0]
                elif z < .1 and pkrs:
                    D = rng.choice(pkrs)
                elif z < .2 and others:
                    D = rng.choice(others)
                elif z < .4 and good2 and n > 3:
                    D = good2
            dd = w.dsm[D-1]
            b = seqs.get(D, 0)
            seqs[D] = (b+1) % dd["nb"]
            if rng.random() < .02:
                b = rng.randrange(dd["nb"], 16) if dd["nb"] < 16 else b
            hk = dict(nmas=nm, cid=(H >> 4) & 3, cpks=cpks, did=dd["did"],
                      bid=b, d=D)
            if fake and rng.random() < .05:
                hk["cid"] = rng.randrange(4)
            hk["hdr"] = hdr(hk["nmas"], hk["cid"], hk["cpks"])
            pages = [rng.random() >= ploss for _ in range(15)]
            S.append(dict(a=a, pages=pages, words=words, hk=hk, mack=m))
        for s in S:
            prev[s["a"]] = s["mack"]
        if plan and seqs.get(plan[0], 0) == 0 and n:
            plan = []
        S = [s for s in S if any(s["pages"])]
        if S and not d.subframe(n, S):
            return
        if rng.random() < .05:
            d.pk(rng.choice([1, 2, 9]), rng.choice([1, 2]))
        for _ in range(2):
            a = rng.choice(sats+[37])
            d.chk(a, iod.get(a, 0))


def main(run):
    run.assumptions.append(
        "cryptographic primitives are ideal: symbolic MACs, signatures and "
        "hashes; their bytes are made by independent implementations")
    run.assumptions.append(
        "tag lengths of 20 and 28 bits are not covered (the decoder rejects "
        "them)")
    run.model_check("Osnma_MC", env={} if run.quick else dict(DEEP="1"))
    for _ in range(60 if run.quick else 900):
        flow(run)
    run.validate("Osnma_Trace")
