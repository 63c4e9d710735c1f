"""P02: time scales."""
import datetime as dt
import gn
from vlib import toint, BADTYPE, INEXACT
from cssrlib import gnss as G
from cssrlib.gnss import gtime_t

MSD = 86400000
D0 = dt.date(1970, 1, 1)


def mk(t):
    return gtime_t(t[0]*86400+t[1]//1000, (t[1] % 1000)/1000)


def ms(x):
    """float seconds -> integer ms"""
    v = x*1000
    return int(round(v)) if abs(v-round(v)) < 1e-2 else INEXACT


def inst(t):
    try:
        m = ms(float(t.sec))
        if m == INEXACT or int(t.time) != t.time:
            return dict(d=INEXACT, ms=0)
        v = int(t.time)*1000+m
        return dict(d=v//MSD, ms=v % MSD)
    except Exception:
        return dict(d=BADTYPE, ms=0)


W2T = dict(gps=(G.gpst2time, G.time2gpst), gst=(G.gst2time, G.time2gst),
           bdt=(G.bdt2time, G.time2bdt))
LEAPS = [(y, m) for y, m in [(1981, 7), (1982, 7), (1983, 7), (1985, 7),
                             (1988, 1), (1990, 1), (1991, 1), (1992, 7),
                             (1993, 7), (1994, 7), (1996, 1), (1997, 7),
                             (1999, 1), (2006, 1), (2009, 1), (2012, 7),
                             (2015, 7), (2017, 1)]]
LNUM = [(dt.date(y, m, 1)-D0).days for y, m in LEAPS]


class P:
    def __init__(self, run):
        self.run = run

    def go(self, op, fn, args, proj=inst, **kw):
        r, exc = self.run.call(fn, *args)
        out = {}
        if not exc:
            try:
                out = proj(r)
            except Exception:
                out = dict(d=BADTYPE)
        self.run.ev(op, out=out, exc=exc, **kw)

    def instant(self, t, full=True):
        """all conversions of one instant"""
        rng, go = self.run.rng, self.go
        day, m = t
        c = D0+dt.timedelta(days=day)
        ep = [c.year, c.month, c.day, m//3600000, m//60000 % 60, m % 60000]
        go("e2t", G.epoch2time, (ep[:5]+[ep[5]/1000],), ep=ep)
        if rng.random() < .4:
            z = f"#>{ep[0]:4d} {ep[1]:02d} {ep[2]:02d} {ep[3]:2d} {ep[4]:2d}" \
                f"{ep[5]/1000:11.7f}  junk"
            go("e2t", G.str2time, (z, 2, 27), ep=ep)
        go("t2e", G.time2epoch, (mk(t),),
           lambda r: dict(ep=[toint(x) for x in r[:5]]+[ms(r[5])]), t=t)
        go("doy", G.time2doy, (mk(t),), self.doy, t=t)
        if not full:
            return
        for s, (f, g) in W2T.items():
            go("t2w", g, (mk(t),),
               lambda r: dict(w=toint(r[0]), tow=ms(r[1])), s=s, t=t)\
                if day >= dict(gps=3657, gst=10825, bdt=13149)[s] else None
        # a leap second itself has no UTC representation of its own
        k = sum(1 for i, n in enumerate(LNUM) if (day, m) >= (n, 1000*(i+1)))
        if not any(n == day and 1000*i <= m < 1000*(i+1)
                   for i, n in enumerate(LNUM)):
            go("utc", G.gpst2utc, (mk(t),), t=t)
        go("gps", G.utc2gpst, (mk(t),), t=t)
        if k >= 0 and not any(abs(day-n) < 2 for n in LNUM):
            tod = rng.randrange(MSD)
            u = (m-1000*k+10800000) % MSD
            if abs((tod-u) % MSD-MSD//2) > 2:
                go("glo", G.glo2time, (mk(t), tod/1000), t=t, tod=tod)
        go("g2b", G.gpst2bdt, (mk(t),), t=t)
        go("b2g", G.bdt2gpst, (mk(t),), t=t)

    @staticmethod
    def doy(r):
        v = round((float(r))*MSD)
        return dict(doy=v//MSD, ms=v % MSD)

    def pair(self, a):
        rng, go = self.run.rng, self.go
        dd = rng.choice([0, 0, 0, 1, -1, 7, -7, rng.randint(-20000, 20000)])
        dms = rng.choice([0, 1, -1, MSD-1, -MSD+1, 500,
                          rng.randint(-MSD, MSD)])
        b0 = a[0]*MSD+a[1]+dd*MSD+dms
        b = [b0//MSD, b0 % MSD]
        if not 3657 <= b[0] <= 47481:
            return
        go("add", G.timeadd, (mk(a), dd*86400+dms/1000), t=a, dd=dd, dms=dms)

        def pd(r):
            v = ms(r)
            return dict(d=v//MSD, ms=v % MSD) if v != INEXACT else dict(d=v)
        go("diff", G.timediff, (mk(a), mk(b)), pd, a=a, b=b)
        go("gt", lambda x, y: x > y, (mk(a), mk(b)),
           lambda r: dict(r=int(r)), a=a, b=b)

    def adjust(self, ref):
        rng, go = self.run.rng, self.go
        for days in (7, 1):
            half = days*MSD//2
            o = rng.choice([0, half-1, -half+1, half+1, -half-1,
                            rng.randint(-3*half+1, 3*half-1)])
            v = ref[0]*MSD+ref[1]+o
            t = [v//MSD, v % MSD]
            kw = {} if days == 7 else dict(dt=86400)
            r, exc = self.run.call(G.adjtime, mk(t), mk(ref), **kw)
            self.run.ev("adj", out=inst(r) if not exc else {}, exc=exc, t=t,
                        ref=ref, days=days)
        tod = rng.choice([0, MSD-1, rng.randrange(MSD)])
        if abs((tod-ref[1]) % MSD-MSD//2) > 2 and ref[0] > 3660:
            go("tod", G.tod2tow, (tod/1000, mk(ref)), t=ref, tod=tod)

    def week(self):
        rng, go = self.run.rng, self.go
        s = rng.choice(list(W2T))
        w = rng.choice([0, 1, 1023, 1024, 2047, 2048, rng.randrange(2500)])
        tow = rng.choice([0, 1, 999, 604799999, 604800000-500, 302400000,
                          rng.randrange(604800000)])
        go("w2t", W2T[s][0], (w, tow/1000), s=s, w=w, tow=tow)


def main(run):
    rng = run.rng
    run.model_check("Time_MC")
    p = P(run)
    first, last = 3657, (dt.date(2099, 12, 31)-D0).days
    # around every month boundary and every leap second
    days = set()
    for y in range(1980, 2100):
        for m in range(1, 13):
            n = (dt.date(y, m, 1)-D0).days
            days |= {n-1, n} if m != 3 else {n-2, n-1, n}
    days |= {n+k for n in LNUM for k in (-1, 0, 1)}
    if not run.quick:
        days = set(range(first, last+1))
    days = sorted(d for d in days if first <= d <= last)
    for i in range(0, len(days), 40):
        run.hist(x=0)
        for d in days[i:i+40]:
            p.instant([d, rng.choice([0, MSD-1, rng.randrange(MSD)])],
                      full=False)
    for i, n in enumerate(LNUM):
        run.hist(x=0)
        for d, m in [(n-1, MSD-1), (n-1, MSD-1000), (n, 0), (n, 1),
                     (n, 1000*i-1), (n, 1000*(i+1)), (n, 1000*(i+1)+1),
                     (n, 20000), (n-1, 70000000)]:
            if m >= 0:
                p.instant([d, m])
    for _ in range(60 if run.quick else 1500):
        run.hist(x=0)
        for _ in range(8):
            a = [rng.choice([rng.randint(first, last), rng.choice(days)]),
                 rng.choice([0, 1, MSD-1, MSD-999, rng.randrange(MSD)])]
            p.instant(a)
            p.pair(a)
            p.adjust(a)
            p.week()
    run.validate("Time_Trace")
