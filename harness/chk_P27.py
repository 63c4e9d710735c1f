"""P27: disaster messages (DC report, common alert message format)."""
import contextlib
import io
import json
import os
import re
import ewstab
from vlib import Bits, INEXACT
from cssrlib.gnss import epoch2time, time2epoch
from cssrlib.ewss import jmaDec, camfDec
from cssrlib.dgps import dgpsDec

HERE = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(HERE, "ews_tables.json"), encoding="utf-8") as f_:
    TAB = json.load(f_)


def toint(x, tol=1e-3):
    k = round(float(x))
    return k if abs(x-k) < tol else INEXACT


D2000 = 10957       # days from 1970 to 2000
MD = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
W = dict(d1=4, d2=3, d3=4, d4=4, d5=3, d6=4, d7=3, d8=4, d9=3, d10=3, d11=3,
         d12=3, d13=4, d14=5, d15=2, d16=3, d17=3, d18=2, d19=3, d20=3, d21=3,
         d22=3, d23=3, d24=3, d25=4, d26=5, d27=4, d28=3, d29=5, d30=4, d31=4,
         d32=2, d33=2, d34=2, d35=6, d36=3)
DET = {36: "d1 d2 d3 d4", 43: "d5", 44: "d5", 63: "d6", 71: "d6",
       80: "d7 d8 d9", 82: "d36 d8 d9", 79: "d8 d9 d11", 77: "d8 d9 d10 d16",
       70: "d12", 74: "d9 d13", 76: "d14 d13", 68: "d15", 72: "d16",
       81: "d8 d6", 64: "d8 d9 d16 d11", 69: "d17 d13", 75: "d13 d8",
       65: "d18", 33: "d19", 32: "d20", 47: "d8 d5", 37: "d21", 103: "d22",
       30: "d23", 16: "d24", 18: "d24", 21: "d24", 23: "d25", 51: "d26 d35",
       53: "d26 d35", 19: "d27", 15: "d28", 55: "d29", 56: "d29", 57: "d29",
       58: "d29", 60: "d29", 9: "d30", 10: "d30", 11: "d30", 5: "d31",
       4: "d32 d33", 6: "d34"}


def date(n):
    """day since 2000-01-01 to year, month, day"""
    y = 2000
    while n >= 365+(y % 4 == 0):
        n -= 365+(y % 4 == 0)
        y += 1
    for m in range(12):
        k = MD[m]+(m == 1 and y % 4 == 0)
        if n < k:
            return y, m+1, n+1
        n -= k


def gt(t):
    y, m, d = date(t[0])
    return epoch2time([y, m, d, t[1]//60, t[1] % 60, 0])


def day(t):
    """[day, minute] of a time"""
    s = int(t.time)
    if s % 60 or abs(t.sec) > 1e-6:
        return [INEXACT, s % 60]
    return [s//86400-D2000, s % 86400//60]


def tables(run):
    ewstab.install(run.tmp)
    j = os.path.join(run.tmp, "ews/data/ewss/jma/")
    for n in ewstab.JMA:
        with open(j+f"tab4_1_2_{n}.txt", "w", encoding="utf-8") as f:
            for k in range(1024):
                if k % 10 != 7:
                    f.write(f"{k}\tt{n}#{k}\n")
    c = os.path.join(run.tmp, "ews/data/ewss/camf/")
    for n in ("list_a", "list_b", "list_c", "region", "d14", "d35"):
        with open(c+n+".txt", "w", encoding="utf-8") as f:
            for k in range(1024):
                if k % 10 != 7:
                    f.write(f"{k}\t{n}#{k}\n")
    with open(c+"hazard.txt", "w", encoding="utf-8") as f:
        for k in [*range(1, 27), 30, *range(32, 111), 112, 113]:
            f.write(f"{k}\thazard#{k}\n")
    with open(c+"000323625.csv", "w", encoding="utf-8") as f:
        f.write("tiiki-code,ken-name,sityouson-name1,sityouson-name2,"
                "sityouson-name3\n")
        for k in range(1000, 48000):
            if k % 100 < 40:
                n = ["x", ""][k % 3 == 0], ["y", ""][k % 2], ["z", ""][k % 5 > 0]
                f.write(f"{k},K{k}K,{n[0]},{n[1]},{n[2]}\n")


class Dut:
    def __init__(self, cfg):
        self.mon = cfg["mon"]
        if cfg["path"] == 1:        # as part of the SLAS decoder
            self.d = dgpsDec()
            self.j, self.c = self.d.dcr, self.d.dcx
        else:
            self.d, self.j, self.c = None, jmaDec(), camfDec()
        self.j.monlevel = self.c.monlevel = 1 if self.mon else 0
        self.txt = {}

    # ------------------------------------------------------------ DC report
    def dcr(self, e, rng):
        def r(n):
            b.u(rng.getrandbits(n), n)
        b = Bits()
        b.u(0x53, 8).u(43, 6).u(e["rc"], 3).u(e["dc"], 4)
        b.u(e["mo"], 4).u(e["d"], 5).u(e["h"], 5).u(e["mi"], 6).u(e["it"], 2)
        x, dc = e["x"], e["dc"]
        r({1: 4, 8: 7}.get(dc, 10))

        def put(vals, ws):
            for v, w in zip(vals, ws):
                b.u(v, w)

        def t1():
            put(e["t1"], (5, 5, 6))

        def ang(v, w):
            put((v[0], v[1]//3600, v[1] % 3600//60, v[1] % 60), (1, w, 6, 6))
        rows = e["rows"]
        if dc == 1:
            r(6)
            put(x[:3], (9, 9, 9))
            t1()
            put(x[3:], (9, 7, 10, 4, 4))
            for k in range(80):
                b.u(int(k in e["regs"]), 1)
            r(4)
        elif dc == 2:
            put(x[:3], (9, 9, 9))
            t1()
            put(x[3:], (9, 7, 10))
            ang(e["lat"], 7)
            ang(e["lon"], 8)
            r(51)
        elif dc == 3:
            t1()
            for q in rows:
                put(q, (3, 6))
            r(1)
        elif dc == 4:
            b.u(x[0], 4)
            s = f"page {e['txt']:<13d}"
            self.txt[s.encode()] = e["txt"]
            for v in s.encode():
                b.u(v, 8)
            put(x[1:], (6, 6))
            r(1)
        elif dc == 5:
            put(x, (9, 9, 9, 4))
            for q in rows:
                put(q, (1, 5, 6, 4, 10))
        elif dc == 6:
            b.u(x[0], 3)
            for q in rows:
                put(q, (1, 5, 6, 9, 7))
            r(18)
        elif dc == 8:
            b.u(x[0], 3)
            t1()
            put(x[1:], (7, 12))
            for q in rows:
                b.u(q[0], 23)
            r(11)
        elif dc == 9:
            t1()
            put(x, (2, 12))
            for q in rows:
                put(q, (3, 3, 23))
            r(15)
        elif dc == 10:
            b.u(x[0], 3)
            for q in rows:
                put(q, (5, 19))
            r(14)
        elif dc == 11:
            for q in rows:
                put(q, (4, 20, 20))
            r(29)
        elif dc == 12:
            t1()
            b.u(x[0], 3)
            r(8)
            put(x[1:5], (7, 7, 4, 4))
            ang(e["lat"], 7)
            ang(e["lon"], 8)
            put(x[5:], (11, 7, 7))
            r(46)
        elif dc == 14:
            for q in rows:
                put(q, (5, 14))
            r(9)
        else:
            r(161)
        b.u(e["vn"], 6)
        while b.n < 256:
            b.u(rng.randrange(2), 1)
        return b.tobytes(32)

    def par(self, dc):
        p = self.j.params
        if dc == 1:
            de, ma, ep, a, b = p[1]
            return [de, toint(ma*10), ep, a, b]+list(p[0])
        if dc == 2:
            de, ma, ep = p[1]
            return list(p[0])+[de, toint(ma*10), ep]
        if dc == 3:
            return [v for q in zip(p[0], p[1]) for v in q]
        if dc == 4:
            return list(p[1])
        if dc == 5:
            return list(p[0])+list(p[1])
        if dc == 6:
            return [p[0]]
        if dc == 8:
            return list(p[:3])+list(p[3])
        if dc == 9:
            return list(p[:2])+[v for q in p[2:] for v in q]
        if dc == 10:
            return [p[0]]+[v for q in p[1:] for v in q]
        if dc == 11:
            return [v for a, q in p for v in (a, q >> 20, q & 0xfffff)]
        if dc == 12:
            return list(p)
        return [v for q in p for v in q]

    def view_dcr(self, e):
        j, dc = self.j, e["dc"]
        if e["ret"] == -1:
            return dict(ok=0)
        o = dict(ok=1, rc=j.rc, dc=j.dc, it=j.it, vn=j.vn, ta=day(j.ta),
                 year=j.year, par=[int(v) for v in self.par(dc)])
        if dc in (1, 2, 3, 8, 9, 12):
            o["tb"] = day(j.tb)
        if dc in (2, 12):
            o["pos"] = [toint(v*3600) for v in j.pos]
        if dc in (5, 6):
            q = j.params[2 if dc == 5 else 1:]
            o["arr"] = [day(t)+list(v) for t, v in zip(j.tb, q)
                        if dc == 5 or v != [0, 0]]
        if dc == 4:
            n = e["x"][2]
            o["full"] = int(n > 0 and j.pidx == (1 << n)-1)
            m = bytes(j.msg)
            o["text"] = [self.txt.get(m[18*k:18*k+18], INEXACT)
                         for k in range(n)] if o["full"] else []
        return o

    # ------------------------------------------------------------ alerts
    def camf(self, e, rng):
        b = Bits()
        b.u(0x9a, 8).u(44, 6).u(rng.getrandbits(10), 10)

        def put(vals, ws):
            for v, w in zip(vals, ws):
                b.u(v, w)
        put((e["mt"], e["regi"], e["pid"], e["hcat"], e["sev"], e["wn"],
             e["tow"], e["dur"], e["sel"], e["ver"]),
            (2, 9, 5, 7, 2, 1, 14, 2, 1, 3))
        put((e["ga"], e["gb"]), (5, 5) if e["sel"] == 0 else (2, 8))
        put((e["lat"], e["lon"], e["maj"], e["min"], e["az"], e["subj"]),
            (16, 17, 5, 5, 6, 2))
        n = b.n
        if e["subj"] == 3:
            put(e["c"], [W[k] for k in DET.get(e["hcat"], "").split()])
        else:
            put(e["c"], [(3, 3, 3, 3), (7, 7), (2, 3, 5, 5)][e["subj"]])
        while b.n < n+15:
            b.u(rng.randrange(2), 1)
        n = b.n
        x = e["ext"]
        if e["sel"] and e["pid"] == 1:
            put(x, (16, 1, 17, 17, 5, 5, 7, 6))
        elif e["sel"] and e["pid"] in (2, 3):
            b.u(e["ext8"], 1)
            if e["ext8"]:
                put(x, (16,)*4)
            else:
                for k in range(1, 48):
                    b.u(int(k in x), 1)
                b.u(rng.getrandbits(17), 17)
        while b.n < n+74 or b.n < 256:
            b.u(rng.randrange(2), 1)
        return b.tobytes(32)

    @staticmethod
    def idx(t, v):
        """code of a text"""
        if isinstance(t, dict):
            k = [int(a) for a, b in t.items() if b == v]
            return min(k) if k else -1
        return list(t).index(v) if v in t else -1

    @staticmethod
    def nr(name, v):
        m = re.fullmatch(name+r"#(\d+)", str(v))
        return int(m[1]) if m else -1

    def det(self, e):
        out = []
        for k in W:
            v = getattr(self.c, k, None)
            if v is None:
                continue
            if k in ("d14", "d35"):
                c = self.nr(k, v)
            elif k == "d3":
                c = toint(v/22.5)
            else:
                c = self.idx(TAB[k+"_t"], v)
            out.append([k, c])
        return out

    def ext(self, e, txt):
        x = [t for t in txt.splitlines() if t.startswith("[DCX-ext]")]
        if not x:
            return []
        x = x[-1]
        if e["pid"] == 1:
            f = [float(v) for v in x.split()[-6:]]
            r = [toint(v*1000) for v in f[2:4]]
            i = [R[v] if v in R else INEXACT for v in r]
            return [int(re.search(r"K(\d+)K", x)[1]), int("Head to" in x),
                    toint((f[0]+90)*131071/180), toint((f[1]-45)*131071/180),
                    i[0], i[1], toint((f[4]+90)*128/180), toint(f[5])]
        if e["ext8"]:
            return [int(v) for v in re.findall(r"K(\d+)K", x)]
        if "whole" in x:
            return list(range(1, 48))
        return [int(v) for v in re.findall(r"pref#(\d+)", x)]

    def view_camf(self, e, txt):
        c = self.c
        o = dict(mt=self.idx(TAB["mt"], c.mt), reg=self.nr("region", c.region),
                 pid=int(c.pid), haz=self.nr("hazard", c.hazard))
        if o["haz"] < 0:
            return o
        o.update(sev=self.idx(TAB["severity"], c.severity), th=day(c.th),
                 dur=self.idx(TAB["duration"], c.duration), sel=int(c.sel))
        if c.sel == 1 and e["regi"] != 111:
            return o
        if c.sel == 0:
            o["guid"] = [self.nr("list_a", c.gmsg_a), self.nr("list_b", c.gmsg_b)]
        else:
            t = TAB["guid_la" if e["pid"] in (2, 3) else "guid"]
            o["guid"] = [self.idx(TAB["inst"], c.inst), self.idx(t, c.guid)]
        o.update(ver=int(c.ver), lat=toint((c.lat+90)*65535/180*8, tol=.02),
                 lon=toint((c.lon+180)*131071/360*8, tol=.02),
                 maj=toint(c.LM*8000), min=toint(c.Lm*8000),
                 az=toint((c.az+90)*64/180),
                 off=[toint((v+10)*6.4) for v in (c.dlat, c.dlon)],
                 sec=[toint(c.dist*1000), toint(c.LMs*4000), toint(c.Lms*4000),
                      toint(c.theta/11.25)], det=self.det(e))
        if self.mon:
            o["ext"] = self.ext(e, txt)
        return o

    def act(self, e, rng):
        msg = (self.dcr if e["op"] == "dcr" else self.camf)(e, rng)
        t = gt(e["now"])
        with contextlib.redirect_stdout(io.StringIO()) as f:
            if self.d is not None:
                self.d.time = t
                self.d.decode_cssr(msg)
                e["ret"] = 0
                if e["op"] == "dcr" and (e["dc"] not in KINDS or
                                         e["rc"] not in (3, 7)):
                    e["ret"] = -1
            elif e["op"] == "dcr":
                self.j.time = t
                e["ret"] = self.j.decode(msg, 14)
                if e["ret"] != -1:
                    self.j.gen_msg(e["dc"])
            else:
                self.c.time = t
                self.c.decode(msg, 24)
                self.c.decode_ext(msg, 146)
        return f.getvalue()

    def do(self, run, e):
        txt, exc = run.call(self.act, e, run.rng)
        out = {}
        if not exc:
            if e["op"] == "dcr":
                out, x = run.call(self.view_dcr, e)
            else:
                out, x = run.call(self.view_camf, e, txt)
            if x:
                out, exc = {}, "view:"+x
        a = {k: v for k, v in e.items() if k not in ("op", "ret")}
        run.ev(e["op"], out=out, exc=exc, **a)


KINDS = (1, 2, 3, 4, 5, 6, 8, 9, 10, 11, 12, 14)
R_ = [216, 292, 395, 535, 723, 978, 1322, 1788, 2418, 3269, 4421, 5979, 8085,
      10933, 14784, 19992, 27035, 36559, 49439, 66855, 90407, 122255, 165324,
      223564, 302322, 408824, 552846, 747603, 1010970, 1367116, 1848727,
      2500000]
R = {v: k for k, v in enumerate(R_)}


def some_time(rng):
    y = rng.randrange(2018, 2036)
    z = rng.random()
    n = (y-2000)*365+(y-1997)//4
    if z < .3:
        n += rng.randint(-2, 2)
    elif z < .5 and y % 4 == 0:
        n += 59+rng.randint(-2, 2)
    elif z < .7:
        n += [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334][
            rng.randrange(12)]+rng.randint(-2, 2)
    else:
        n += rng.randrange(365)
    return [n, rng.randrange(1440)]


def shift(t, m):
    k = t[0]*1440+t[1]+m
    return [k//1440, k % 1440]


def dcr(rng, now, dc=None):
    z = rng.random()
    rep = shift(now, -rng.randrange(4320) if z < .8 else rng.randrange(10)
                if z < .9 else -rng.randrange(100*1440))
    occ = shift(rep, rng.randint(-13*1440, 13*1440) if rng.random() < .5 else
                -rng.randrange(1440))
    y, m, d = date(rep[0])
    dc = dc or rng.choice(KINDS)
    if rng.random() < .03:
        dc = rng.choice([0, 7, 13, 15])
    g = rng.randrange
    e = dict(op="dcr", now=now, rc=3 if rng.random() < .9 else 7, dc=dc, mo=m,
             d=d, h=rep[1]//60, mi=rep[1] % 60, it=rng.choice([0, 0, 2, 1, 3]),
             vn=g(64), t1=[date(occ[0])[2], occ[1]//60, occ[1] % 60], x=[],
             rows=[], regs=[], lat=[g(2), g(90*3600)], lon=[g(2), g(180*3600)],
             txt=0)
    if rng.random() < .03:
        e["rc"] = rng.choice([0, 1, 2, 4, 5, 6])

    def rows(n, f, zero, p=.35):
        return [list(zero) if rng.random() < p else f() for _ in range(n)]
    e["x"] = {1: [g(512), g(512), g(512), g(512), g(128), g(1024), g(16), g(16)],
              2: [g(512), g(512), g(512), g(512), g(128), g(1024)],
              5: [g(512), g(512), g(512), g(16)], 6: [g(8)],
              4: [g(16), 1, 1],
              8: [g(8), g(128), g(4096)], 9: [g(4), g(4096)], 10: [g(8)],
              12: [g(8), g(128), g(128), g(16), g(16), g(2048), g(128),
                   g(128)]}.get(dc, [])
    if dc == 1:
        e["regs"] = sorted(rng.sample(range(80), g(12)))
    elif dc == 3:
        e["rows"] = rows(16, lambda: [g(8), g(64)], (0, 0))
    elif dc == 5:
        e["rows"] = rows(5, lambda: [g(2), g(24), g(60), g(16), g(1024)],
                         (0,)*5)
    elif dc == 6:
        e["rows"] = rows(5, lambda: [g(2), g(24), g(60), g(512), 1+g(127)],
                         (0,)*5)
    elif dc == 8:
        e["rows"] = rows(5, lambda: [g(1 << 23)], (0,))
    elif dc == 9:
        e["rows"] = rows(4, lambda: [g(8), g(8), g(1 << 23)], (0, 0, 0))
    elif dc == 10:
        e["rows"] = rows(6, lambda: [g(32), g(1 << 19)], (0, 0))
    elif dc == 11:
        e["rows"] = rows(3, lambda: [g(16), g(1 << 20), g(1 << 20)], (0, 0, 0))
    elif dc == 14:
        e["rows"] = rows(8, lambda: [g(32), g(1 << 14)], (0, 0))
    return e


def nankai(rng, now):
    """pages of some reports, lost, repeated and out of order"""
    out = []
    for k in range(rng.randint(1, 4)):
        n = rng.choice([1, 2, 3, 5, 30, 63])
        b = dcr(rng, now, 4)
        b.update(dc=4, rc=3, x=[b["x"][0] if len(b["x"]) == 3 else 1, 1, n])
        ps = list(range(1, n+1))
        if rng.random() < .4:
            rng.shuffle(ps)
        if rng.random() < .3:
            ps.pop(rng.randrange(n))
        if rng.random() < .4:
            ps += [rng.randrange(1, n+1) for _ in range(2)]
        if rng.random() < .2:
            ps.insert(0, rng.choice([0, min(n+1, 63)]))
        for p in ps:
            e = dict(b, x=[b["x"][0], p, n], txt=1000*(k+1)+p)
            out.append(e)
    if rng.random() < .2:        # mixed
        rng.shuffle(out)
    return out


def camf(rng, now):
    g = rng.randrange
    hc = rng.choice(list(DET)) if rng.random() < .75 else g(128)
    sel = int(rng.random() < .6)
    regi = 111 if sel and rng.random() < .93 else g(512)
    if regi % 10 == 7:
        regi = 111
    pid = rng.choice([1, 2, 3, 4, g(32)])
    e = dict(op="camf", now=now, mt=g(4), regi=regi, pid=pid, hcat=hc,
             sev=g(4), wn=g(2), tow=1+(g(10080) if rng.random() < .7 else
                                       rng.choice([0, 10079, 8639, 8640])),
             dur=g(4), sel=sel, ver=g(8), lat=g(1 << 16), lon=g(1 << 17),
             maj=g(32), min=g(32), az=g(64),
             subj=3 if rng.random() < .5 else g(4), ext8=g(2))
    if sel:
        e["ga"] = g(4)
        e["gb"] = rng.choice([*range(10), 127, *range(126, 140), 255, g(256)])
    else:
        e["ga"], e["gb"] = g(32), g(32)
    if e["subj"] == 3:
        ks = DET.get(hc, "").split()
        e["c"] = [g(1 << W[k]) for k in ks] or [0]
    else:
        e["c"] = [[g(8) for _ in range(4)], [g(128), g(128)],
                  [g(4), g(8), g(32), g(32)]][e["subj"]]
    if pid == 1:
        e["ext"] = [rng.choice([0, 1000*(1+g(47))+g(60), 46221]), g(2),
                    g(1 << 17), g(1 << 17), g(32), g(32), g(128), g(64)]
    elif e["ext8"]:
        e["ext"] = [rng.choice([0, 1000*(1+g(47))+g(45)]) for _ in range(4)]
    else:
        e["ext"] = sorted(rng.sample(range(1, 48), rng.choice([0, 1, 5, 46, 47])))
    return e


def main(run):
    rng = run.rng
    run.assumptions += [
        "tables of names are not part of the repository: synthetic ones with "
        "gaps; texts of codes kept in the code as they are (pinned)",
        "field widths of alert details as in the code's reading; dates and "
        "times of day are valid; arrival times relative to the report's day"]
    tables(run)
    run.model_check("Ews_MC")
    edges = run.model_check("Ews_MC", emit=True)
    for cfg, evs in run.paths(edges, maxlen=40, budget=20 if run.quick else 100):
        run.hist(**cfg)
        d = Dut(cfg)
        for e in evs:
            d.do(run, dict(e))
    run.validate("Ews_Trace", label="model")
    for h in range(150 if run.quick else 3000):
        cfg = dict(path=rng.choice([0, 0, 1]), mon=int(rng.random() < .7))
        run.hist(**cfg)
        d = Dut(cfg)
        now = some_time(rng)
        q = nankai(rng, now) if rng.random() < .3 else []
        n = rng.randint(4, 25)
        while q or n > 0:
            if q and (rng.random() < .8 or n <= 0):
                e = q.pop(0)
            else:
                n -= 1
                now = shift(now, rng.choice([0, 1, 20, 600, 6000]))
                e = (dcr if rng.random() < .5 else camf)(rng, now)
            e["now"] = e["now"] if e["op"] == "dcr" and e["dc"] == 4 else now
            d.do(run, e)
    run.validate("Ews_Trace")
