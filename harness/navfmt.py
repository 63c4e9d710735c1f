"""Layouts and scales of the raw navigation messages (written from the
interface documents, independently of the decoder).

A field is (name, kind, bits, [(position, length), ...]); kind u unsigned,
s two's complement, g sign and magnitude."""
import math
from vlib import NAN, BADTYPE, INEXACT

PI = 3.1415926535898


def seq(pos, txt):
    r = []
    for w in txt.split():
        n, k = w.split(":")
        b = int(k[1:])
        if n != "_":
            r.append((n, k[0], b, [(pos, b)]))
        pos += b
    return r


def fld(n, k, *pl):
    return (n, k, sum(b for _, b in pl), list(pl))


class Msg:
    def __init__(self, nbits, rng):
        self.b = [rng.randrange(2) for _ in range(nbits)]

    def put(self, pos, n, v):
        for k in range(n):
            self.b[pos+k] = (v >> (n-1-k)) & 1
        return self

    def field(self, f, v):
        _, k, n, pl = f
        if k == "s":
            v &= (1 << n)-1
        elif k == "g" and v < 0:
            v = -v | (1 << (n-1))
        assert 0 <= v < (1 << n), f
        for p, b in pl:
            n -= b
            self.put(p, b, (v >> n) & ((1 << b)-1))
        return self

    def bytes(self, pad=0):
        b = self.b+[0]*(-len(self.b) % 8)
        r = bytearray(int("".join(map(str, b[i:i+8])), 2)
                      for i in range(0, len(b), 8))
        return r+bytearray(pad)


def pack(v, n):
    """values of more than 31 bits travel as <<high, low 16 bits>>"""
    return v if n < 32 else [v >> 16, v & 0xffff]


def unpack(v):
    return v if isinstance(v, int) else (v[0] << 16) | v[1]


def near(x, scale, n, off=0.0):
    """float to the integer number of LSB"""
    try:
        x = float(x)
        if math.isnan(x):
            return NAN
        q = (x-off)/scale
        r = round(q)
    except Exception:
        return BADTYPE
    if abs(q-r) > max(1e-5, abs(q)*4e-15):
        return INEXACT
    if abs(r) >= 1 << max(n, 31):
        return BADTYPE
    return pack(r, n)


def kepler(**k):
    """scales of Keplerian elements: exponents of two, 'c' = semicircles"""
    return k


KEP = "deln M0 e OMG0 i0 omg OMGd idot cuc cus crc crs cic cis"
# name -> (exponent, semicircle)
SC_LNAV = dict(M0=(31, 1), deln=(43, 1), e=(33, 0), sqrtA=(19, 0),
               OMG0=(31, 1), i0=(31, 1), omg=(31, 1), OMGd=(43, 1),
               idot=(43, 1), cuc=(29, 0), cus=(29, 0), crc=(5, 0),
               crs=(5, 0), cic=(29, 0), cis=(29, 0))
SC_CNAV = dict(Adot=(21, 0), deln=(44, 1), delnd=(57, 1), M0=(32, 1),
               e=(34, 0), omg=(32, 1), OMG0=(32, 1), i0=(32, 1),
               OMGd=(44, 1), idot=(44, 1), cis=(30, 0), cic=(30, 0),
               crs=(8, 0), crc=(8, 0), cus=(30, 0), cuc=(30, 0))
SC_D1 = dict(SC_LNAV, cuc=(31, 0), cus=(31, 0), cic=(31, 0), cis=(31, 0),
             crc=(6, 0), crs=(6, 0))
SC_IRN = dict(SC_LNAV, deln=(41, 1), OMGd=(41, 1), cuc=(28, 0), cus=(28, 0),
              cic=(28, 0), cis=(28, 0), crc=(4, 0), crs=(4, 0))

CLKG = dict(af0=(34, 0), af1=(46, 0), af2=(59, 0))
SCALE = dict(
    inav=dict(SC_LNAV, **CLKG, tgd=(32, 0), tgdb=(32, 0)),
    fnav=dict(SC_LNAV, **CLKG, tgd=(32, 0)),
    lnav=dict(SC_LNAV, af0=(31, 0), af1=(43, 0), af2=(55, 0), tgd=(31, 0)),
    cnav=dict(SC_CNAV, af0=(35, 0), af1=(48, 0), af2=(60, 0), tgd=(35, 0),
              isc0=(35, 0), isc1=(35, 0), isc2=(35, 0), isc3=(35, 0)),
    b=dict(SC_CNAV, af0=(34, 0), af1=(50, 0), af2=(66, 0), tgd=(34, 0),
           tgdb=(34, 0), isc0=(34, 0), isc1=(34, 0)),
    d1=dict(SC_D1, af0=(33, 0), af1=(50, 0), af2=(66, 0)),
    irn=dict(SC_IRN, af0=(31, 0), af1=(43, 0), af2=(55, 0), tgd=(31, 0)),
    irnl1=dict(SC_CNAV, af0=(35, 0), af1=(50, 0), af2=(66, 0), tgd=(35, 0),
               isc4=(35, 0), isc5=(35, 0)),
)
SCALE["cnav2"] = dict(SCALE["cnav"], isc4=(35, 0), isc5=(35, 0))
for _k in ("b1c", "b2a", "b2b"):
    SCALE[_k] = SCALE["b"]
SCALE["d2"] = SCALE["d1"]

SVA_L = [2.0, 2.8, 4.0, 5.7, 8.0, 11.3, 16.0, 32.0, 64.0, 128.0, 256.0,
         512.0, 1024.0, 2048.0, 4096.0, 8192.0]


def sisa(k):
    if k < 50:
        return k*0.01
    if k < 75:
        return 0.5+(k-50)*0.02
    if k < 100:
        return 1+(k-75)*0.04
    if k < 126:
        return 2+(k-100)*0.16
    return -1.0 if k == 255 else None


def inv(x, tab):
    """index of a value in a table {index: value}"""
    try:
        for k, v in tab.items():
            if v is not None and abs(float(x)-v) < 1e-9:
                return k
    except Exception:
        pass
    return BADTYPE


SISA = {k: sisa(k) for k in range(256)}
SVAL = dict(enumerate(SVA_L))
SVAS = dict(enumerate(SVA_L[:14]+[4096., 0.]))
SVAS.update(enumerate([2, 2.8, 4, 5.7, 8, 11.3, 16, 32, 64, 128, 256, 512,
                       1024, 2048, 4096, 0]))

BE1 = "toe:u11 stype:u2 dA:s26 Adot:s25 deln:s17 delnd:s23 M0:s33 e:u33 omg:s33"
BE2 = ("OMG0:s33 i0:s33 OMGd:s19 idot:s15 cis:s16 cic:s16 crs:s24 crc:s24 "
       "cus:s21 cuc:s21")
BCK = "toc:u11 af0:s25 af1:s22 af2:s11"
BOC = "top:u11 oc0:s5 oc1:s3 oc2:s3"

FMT = {
    # Galileo: positions in the 128 bit word
    "inav": {
        1: seq(6, "iod:u10 toe:u14 M0:s32 e:u32 sqrtA:u32"),
        2: seq(6, "iod:u10 OMG0:s32 i0:s32 omg:s32 idot:s14"),
        3: seq(6, "iod:u10 OMGd:s24 deln:s16 cuc:s16 cus:s16 crc:s16 crs:s16 "
                  "sisa:u8"),
        4: seq(6, "iod:u10 svid:u6 cic:s16 cis:s16 toc:u14 af0:s31 af1:s21 "
                  "af2:s6"),
        5: seq(6, "_:s11 _:s11 _:s14 _:u5 tgdb:s10 tgd:s10 e5bhs:u2 e1bhs:u2 "
                  "e5bdvs:u1 e1bdvs:u1 wn:u12 tow:u20")},
    "fnav": {
        1: seq(6, "svid:u6 iod:u10 toc:u14 af0:s31 af1:s21 af2:s6 sisa:u8 "
                  "_:s11 _:s11 _:s14 _:u5 tgd:s10 e5ahs:u2 wn:u12 tow:u20 "
                  "e5advs:u1"),
        2: seq(6, "iod:u10 M0:s32 OMGd:s24 e:u32 sqrtA:u32 OMG0:s32 idot:s14"),
        3: seq(6, "iod:u10 i0:s32 omg:s32 deln:s16 cuc:s16 cus:s16 crc:s16 "
                  "crs:s16 toe:u14"),
        4: seq(6, "iod:u10 cic:s16 cis:s16")},
    "lnav": {
        1: seq(34, "tow:u17") + seq(66, "wn:u10 code:u2 ura:u4 svh:u6") +
        [fld("iodc", "u", (88-0, 2), (226, 8)), fld("l2p", "u", (98, 1)),
         fld("tgd", "s", (210, 8)), fld("toc", "u", (234, 16)),
         fld("af2", "s", (258, 8)), fld("af1", "s", (266, 16)),
         fld("af0", "s", (290, 22))],
        2: [fld("iode", "u", (66, 8)), fld("crs", "s", (74, 16)),
            fld("deln", "s", (98, 16)), fld("M0", "s", (114, 8), (130, 24)),
            fld("cuc", "s", (162, 16)), fld("e", "u", (178, 8), (194, 24)),
            fld("cus", "s", (226, 16)), fld("sqrtA", "u", (242, 8), (258, 24)),
            fld("toe", "u", (290, 16))],
        3: [fld("cic", "s", (66, 16)), fld("OMG0", "s", (82, 8), (98, 24)),
            fld("cis", "s", (130, 16)), fld("i0", "s", (146, 8), (162, 24)),
            fld("crc", "s", (194, 16)), fld("omg", "s", (210, 8), (226, 24)),
            fld("OMGd", "s", (258, 24)), fld("iode", "u", (290, 8)),
            fld("idot", "s", (298, 14))]},
    "cnav": {
        1: seq(20, "tow:u17 alert:u1 wn:u13 svh:u3 _:u11 ued:s5 toe:u11 "
                   "dA:s26 Adot:s25 deln:s17 delnd:s23 M0:s33 e:u33 omg:s33 "
                   "isf:u1 esf:u1"),
        2: seq(38, "toe:u11 OMG0:s33 i0:s33 OMGd:s17 idot:s15 cis:s16 cic:s16 "
                   "crs:s24 crc:s24 cus:s21 cuc:s21"),
        3: seq(38, "top:u11 u0:s5 u1:u3 u2:u3 toc:u11 af0:s26 af1:s20 af2:s10 "
                   "tgd:s13 isc0:s13 isc1:s13 isc2:s13 isc3:s13 _:u64 wnop:u8"),
    },
    "cnav2": {
        1: seq(0, "toi:u9") +
        seq(52, "wn:u13 itow:u8 top:u11 svh:u1 ued:s5 toe:u11 dA:s26 Adot:s25 "
                "deln:s17 delnd:s23 M0:s33 e:u33 omg:s33 OMG0:s33 i0:s33 "
                "OMGd:s17 idot:s15 cis:s16 cic:s16 crs:s24 crc:s24 cus:s21 "
                "cuc:s21 u0:s5 u1:u3 u2:u3 af0:s26 af1:s20 af2:s10 tgd:s13 "
                "isc5:s13 isc4:s13 isf:u1 wnop:u8 esf:u1") +
        seq(1252, "_:u8 page:u6 _:u98 _:u64 isc0:s13 isc1:s13 isc2:s13 "
                  "isc3:s13")},
    "b1c": {
        1: seq(872, "soh:u8") +
        seq(0, "wn:u13 how:u8 iodc:u10 iode:u8 "+BE1+" "+BE2+" "+BCK +
            " tgdb:s12 isc0:s12 tgd:s12") +
        seq(608, "page:u6 svh:u2 integ:u3 sismai:s4 oe:u5 "+BOC)},
    "b2a": {
        10: seq(12, "sow:u18 wn:u13 ia:u3 sismai:s4 ib:u3 iode:u8 "+BE1),
        11: seq(12, "sow:u18 svh:u2 _:u3 _:u4 _:u3 "+BE2),
        30: seq(12, "sow:u18 _:u2 _:u10 "+BCK+" iodc:u10 tgdb:s12 isc1:s12 "
                    "_:u74 tgd:s12"),
        34: seq(42, BOC),
        40: seq(42, "oe:u5 "+BOC)},
    "b2b": {     # after the 12 bits that precede the message
        10: seq(18, "sow:u20 _:u4 "+BE1+" "+BE2+" integ:u3 sismai:s4"),
        30: seq(18, "sow:u20 wn:u13 _:u4 "+BCK+" tgd:s12 _:u74 _:u97 _:u138 " +
                BOC+" oe:u5 svh:u2"),
        40: seq(18, "sow:u20")},
    "d1": {
        1: [fld("sow", "u", (18, 8), (30, 12))] +
        seq(42, "svh:u1 iodc:u5 ura:u4") + [
            fld("wn", "u", (60, 13)), fld("toc", "u", (73, 9), (90, 8)),
            fld("tgd", "s", (98, 10)), fld("tgdb", "s", (108, 4), (120, 6)),
            fld("af2", "s", (214, 11)), fld("af0", "s", (225, 7), (240, 17)),
            fld("af1", "s", (257, 5), (270, 17)), fld("iode", "u", (287, 5))],
        2: [fld("sow", "u", (18, 8), (30, 12)),
            fld("deln", "s", (42, 10), (60, 6)),
            fld("cuc", "s", (66, 16), (90, 2)),
            fld("M0", "s", (92, 20), (120, 12)),
            fld("e", "u", (132, 10), (150, 22)), fld("cus", "s", (180, 18)),
            fld("crc", "s", (198, 4), (210, 14)),
            fld("crs", "s", (224, 8), (240, 10)),
            fld("sqrtA", "u", (250, 12), (270, 20)),
            fld("toeh", "u", (290, 2))],
        3: [fld("sow", "u", (18, 8), (30, 12)),
            fld("toel", "u", (42, 10), (60, 5)),
            fld("i0", "s", (65, 17), (90, 15)),
            fld("cic", "s", (105, 7), (120, 11)),
            fld("OMGd", "s", (131, 11), (150, 13)),
            fld("cis", "s", (163, 9), (180, 9)),
            fld("idot", "s", (189, 13), (210, 1)),
            fld("OMG0", "s", (211, 21), (240, 11)),
            fld("omg", "s", (251, 11), (270, 21))]},
    "irn": {
        0: seq(8, "tow:u17") +
        seq(30, "wn:u10 af0:s22 af1:s16 af2:s8 ura:u4 toc:u16 tgd:s8 deln:s22 "
                "iode:u8 _:u10 svh:u2 cuc:s15 cus:s15 cic:s15 cis:s15 crc:s15 "
                "crs:s15 idot:s14"),
        1: seq(8, "tow:u17") +
        seq(30, "M0:s32 toe:u16 e:u32 sqrtA:u32 OMG0:s32 omg:s32 OMGd:s22 "
                "i0:s32"), 2: seq(8, "tow:u17"), 3: seq(8, "tow:u17")},
    "irnl1": {
        1: seq(0, "toi:u9") +
        seq(52, "wn:u13 itow:u8 _:u1 svh:u1 iode:u4 ura:s5 toe:u11 dA:s26 "
                "Adot:s26 deln:s19 delnd:s23 M0:s33 e:u33 omg:s33 OMG0:s33 "
                "OMGd:s25 i0:s33 idot:s15 cis:s16 cic:s16 crs:s24 crc:s24 "
                "cus:s21 cuc:s21 af0:s29 af1:s22 af2:s15 tgd:s12 isc5:s12 "
                "isc4:s12 rsf:u1 _:u3 prn:u6")},
    "gloca": {
        1: seq(7, "p1:u2 tkh:u5 tkm:u6 tks:u1 v0:g24 a0:g5 x0:g27"),
        2: seq(5, "bn:u3 p2:u1 tb:u7 _:u5 v1:g24 a1:g5 x1:g27"),
        3: seq(5, "p3:u1 gam:g11 _:u1 p:u2 _:u1 v2:g24 a2:g5 x2:g27"),
        4: seq(5, "tau:g22 dtau:g5 en:u5 _:u14 p4:u1 ft:u4 _:u3 _:u11 _:u5 "
                  "m:u2"),
        5: seq(5, "_:u11 tauc:g32 _:u1 _:u5 taug:g22")},
    "sbs": {
        1: seq(14, "iodn:u8 t0:u13 ura:u4 x0:s30 x1:s30 x2:s25 v0:s17 v1:s17 "
                   "v2:s18 a0:s10 a1:s10 a2:s10 af0:s12 af1:s8")},
}
L1S = "_:u6 svh:u1 valid:u1 _:u4 p2:u1 _:u2 _:u1 ts:u16 "
L3S = "ts:u15 _:u6 svh:u1 valid:u1 _:u4 p2:u1 _:u2 _:u1 "
C10 = ("n4:u5 nt:u11 m:u3 _:u6 tb:u10 ee:u8 et:u8 re:u2 rt:u2 fe:g5 ft:g5 "
       "tau:g32 gam:g19 beta:g15 tauc:g40 dtauc:g13")
C11 = "x0:g40 x1:g40 x2:g40 v0:g35 v1:g35"
C12 = "v2:g35 a0:g15 a1:g15 a2:g15 d0:g13 d1:g13 d2:g13 isc:g18 taug:g30"
C16 = "tin:u22 psi:u15 sn:u1 wmax:u17 win:u17 dw:u15 tau1:u13 tau2:u17"
for _m, _s, _p in (("glol1", L1S, 18), ("glol3", L3S, 26)):
    FMT[_m] = {10: seq(_p, _s+C10), 11: seq(_p, _s+C11), 12: seq(_p, _s+C12)}
FMT["glol3"][16] = seq(26, L3S+C16)
D2H = [fld("sow", "u", (18, 8), (30, 12))]
FMT["d2"] = {
    1: D2H + [fld("svh", "u", (46, 1)), fld("iodc", "u", (47, 5)),
              fld("ura", "u", (60, 4)), fld("wn", "u", (64, 13)),
              fld("toc", "u", (77, 5), (90, 12)), fld("tgd", "s", (102, 10)),
              fld("tgdb", "s", (120, 10))],
    2: D2H,
    3: D2H + [fld("af0", "s", (100, 12), (120, 12)),
              fld("af1h", "s", (132, 4))],
    4: D2H + [fld("af1l", "u", (46, 6), (60, 12)),
              fld("af2", "s", (72, 10), (90, 1)), fld("iode", "u", (91, 5)),
              fld("deln", "s", (96, 16)), fld("cuch", "s", (120, 14))],
    5: D2H + [fld("cucl", "u", (46, 4)),
              fld("M0", "s", (50, 2), (60, 22), (90, 8)),
              fld("cus", "s", (98, 14), (120, 4)), fld("eh", "u", (124, 10))],
    6: D2H + [fld("el", "u", (46, 6), (60, 16)),
              fld("sqrtA", "u", (76, 6), (90, 22), (120, 4)),
              fld("cich", "s", (124, 10))],
    7: D2H + [fld("cicl", "u", (46, 6), (60, 2)), fld("cis", "s", (62, 18)),
              fld("toe", "u", (80, 2), (90, 15)),
              fld("i0h", "s", (105, 7), (120, 14))],
    8: D2H + [fld("i0l", "u", (46, 6), (60, 5)),
              fld("crc", "s", (65, 17), (90, 1)), fld("crs", "s", (91, 18)),
              fld("OMGdh", "s", (109, 3), (120, 16))],
    9: D2H + [fld("OMGdl", "u", (46, 5)),
              fld("OMG0", "s", (51, 1), (60, 22), (90, 9)),
              fld("omgh", "s", (99, 13), (120, 14))],
    10: D2H + [fld("omgl", "u", (46, 5)),
               fld("idot", "s", (51, 1), (60, 13))],
}
# D2 elements split over two pages: name -> (bits of the lower half)
SPLIT = dict(af1=18, cuc=4, e=22, cic=8, i0=11, OMGd=5, omg=5)
WIDTH = {m: {f[0]: f[2] for p in FMT[m].values() for f in p} for m in FMT}
WIDTH["d2"].update(af1=22, cuc=18, e=32, cic=18, i0=32, OMGd=24, omg=32)
WIDTH["d1"]["toe"] = 17
