"""Flows over instances which have no check of their own: estimators and the
decoders fed with messages of random content."""
import hashlib
import os

import numpy as np

import ewstab

import cssrlib.rinex as rn
import cssrlib.gnss as gn
from cssrlib.gnss import rSigRnx, gpst2time
from cssrlib.pppssr import pppos
from cssrlib.pntpos import stdpos
from cssrlib.rtk import rtkpos
from cssrlib.peph import atxdec, searchpcv

REPO = os.environ.get("VERIF_REPO", "/repo")
DATA = os.path.join(REPO, "src/cssrlib/data/")
POS = [-3962108.673, 3381309.574, 3668678.638]


def num(x):
    x = np.asarray(x, dtype=float).ravel()
    return [float(v).hex() for v in x]


def settings(nav):
    r = {}
    for k in sorted(vars(nav)):
        v = getattr(nav, k)
        if k.startswith("_") or k in ("eph", "geph", "seph", "fout", "x", "P",
                                      "xa", "Pa", "logfile"):
            continue
        if isinstance(v, (bool, int, float, str, np.floating, np.integer)):
            r[k] = repr(float(v)) if not isinstance(v, str) else v
        elif isinstance(v, (list, tuple, np.ndarray)) and len(str(v)) < 2000:
            r[k] = str(v)
    r["nx"] = int(nav.nx)
    r["P"] = num([nav.P.trace()])
    return r


def signals(b):
    s = "X" if b else "C"
    q = "X" if b else "Q"
    return [rSigRnx(x) for x in
            ("GC1C", "GC2W", "EC1"+s, "EC5"+q, "GL1C", "GL2W", "GS1C", "GS2W",
             "EL1"+s, "EL5"+q, "ES1"+s, "ES5"+q)]


def receiver():
    """nav, rover and base decoders on the sample files"""
    dec, decb = rn.rnxdec(), rn.rnxdec()
    dec.setSignals(signals(False))
    nav = gn.Nav()
    dec.decode_nav(DATA+"SEPT078M.21P", nav)
    decb.setSignals(signals(True))
    dec.decode_obsh(DATA+"SEPT078M1.21O")
    decb.decode_obsh(DATA+"3034078M1.21O")
    dec.ant = "{:16s}{:4s}".format("JAVRINGANT_DM", "SCIS")
    decb.ant = "{:16s}{:4s}".format("TRM59800.80", "NONE")
    atx = atxdec()
    atx.readpcv(DATA+"test.atx")
    nav.rcv_ant = searchpcv(atx.pcvr, dec.ant, dec.ts)
    nav.rcv_ant_b = searchpcv(atx.pcvr, decb.ant, decb.ts)
    nav.rb = [-3959400.631, 3385704.533, 3667523.111]
    return nav, dec, decb


def result(nav):
    sol = nav.xa[0:3] if nav.smode == 4 else nav.x[0:3]
    return dict(x=num(sol), P=num(np.diag(nav.P)[0:3]), smode=int(nav.smode),
                t=[int(nav.t.time), num([nav.t.sec])])


def est(run, kind):
    rng = run.rng
    for _ in range(50):
        run.hist(x=0)
        opt = {}
        if kind in ("ppp", "spp"):
            for k in ("trop_opt", "iono_opt"):
                if rng.random() < .5:
                    opt[k] = rng.choice([0, 1, 2])
        if kind == "ppp" and rng.random() < .5:
            opt["phw_opt"] = rng.choice([0, 1, 2])
        if kind == "ppp" and rng.random() < .3:
            opt["config"] = dict(nav=dict(
                trop_opt=rng.choice([0, 1, 2]), iono_opt=rng.choice([0, 1]),
                elmin=rng.choice([5, 10]), err=[0, .003, .003],
                excl_sat=rng.choice([[], ["G01"]])))
        if kind == "ppp":
            nav = gn.Nav(nf=rng.choice([1, 2, 3]))
            nav.pmode = rng.choice([0, 1])
            cls = rng.choice([pppos, stdpos])
            if cls is stdpos:
                opt.pop("phw_opt", None)

            def go():
                cls(nav, np.array(POS), logfile=os.path.join(
                    run.tmp, "p.log"), **opt)
                return settings(nav)
            out, exc = run.call(go)
            run.ev("new", out=out, exc=exc, opt=str(opt))
            continue
        nav, dec, decb = receiver()
        log = os.path.join(run.tmp, "p.log")

        def go():
            p = rtkpos(nav, dec.pos, log) if kind == "rtk" else \
                stdpos(nav, np.array(dec.pos), log, **opt)
            return p, settings(nav)
        res, exc = run.call(go)
        run.ev("new", out=None if exc else res[1], exc=exc, opt=str(opt))
        if exc:
            continue
        p = res[0]
        for k in range(5):
            obs, obsb = rn.sync_obs(dec, decb)
            if k == 0:
                nav.t = obs.t

            def step():
                if kind == "rtk":
                    p.process(obs, obsb=obsb)
                else:
                    p.process(obs)
                return result(nav)
            out, exc = run.call(step)
            run.ev("process", out=out, exc=exc)
        dec.fobs.close()
        decb.fobs.close()


def walk(x, depth=0):
    """public state of an object"""
    if depth > 6:
        return "..."
    if isinstance(x, (bool, int, str, type(None))):
        return x
    if isinstance(x, (bytes, bytearray)):
        return bytes(x).hex()
    if isinstance(x, (float, np.floating)):
        return float(x).hex()
    if isinstance(x, np.generic):
        return str(x.item())
    if isinstance(x, np.ndarray):
        return walk(x.tolist(), depth+1)
    if isinstance(x, (dict, list, tuple)) and len(x) > 300:
        return f"{len(x)} items"      # tables
    if isinstance(x, dict):
        return sorted(([str(k), walk(v, depth+1)] for k, v in x.items()),
                      key=lambda r: r[0])
    if isinstance(x, (list, tuple)):
        return [walk(v, depth+1) for v in x]
    if isinstance(x, (set, frozenset)):
        return sorted(map(str, x))
    if not type(x).__module__.startswith("cssrlib"):
        return type(x).__name__
    # attributes, own or of the class
    r = []
    for k in sorted(set(dir(x))):
        if k.startswith("_"):
            continue
        try:
            v = getattr(x, k)
        except Exception:
            continue
        if not callable(v):
            r.append([k, walk(v, depth+1)])
    return r


def state(x):
    return hashlib.sha1(repr(walk(x)).encode()).hexdigest()


def rnd(rng, n):
    return bytes(rng.randrange(256) for _ in range(n))


def decs(run, kind):
    rng = run.rng
    from cssrlib.sbas import sbasDec
    from cssrlib.cssr_mdc import cssr_mdc
    from cssrlib.cssr_pvs import cssr_pvs
    from cssrlib.dgps import dgpsDec
    from cssrlib.ewss import jmaDec, camfDec
    from cssrlib.qznma import qznma
    from cssrlib.rtcm import rtcm
    cwd = os.getcwd()
    here = os.path.join(run.tmp, "f")
    os.makedirs(here)
    ewstab.install(here)
    home = os.getcwd()
    os.chdir(cwd)
    for _ in range(40):
        run.hist(x=0)

        def new():
            old = os.getcwd()
            os.chdir(home)
            try:
                d = dict(sbas=sbasDec, mdc=cssr_mdc, pvs=cssr_pvs,
                         dgps=dgpsDec, jma=jmaDec, camf=camfDec, qznma=qznma,
                         rtcm=rtcm)[kind]
                d = d(year=2023) if kind in ("jma", "camf") else d()
            finally:
                os.chdir(old)
            if hasattr(d, "monlevel"):
                d.monlevel = 0
            if kind in ("sbas", "pvs", "mdc", "dgps", "rtcm"):
                d.week = 2200
                d.time = gpst2time(2200, 86400)
            return d
        d, exc = run.call(new)
        run.ev("new", out={} if exc else dict(s=state(d)), exc=exc)
        if exc:
            continue
        if kind == "qznma":
            d.npr = {}
        for _ in range(10):
            m = bytearray(rnd(rng, 80))
            mt = 0
            if kind == "sbas":
                mt = rng.choice([1, 2, 3, 6, 7, 9, 12, 17, 18, 24, 25, 26, 28,
                                 31, 32, 34, 35, 36, 37, 39, 40, 47, 20])
                m[0] = 0x53
                m[1] = mt << 2 | m[1] & 3
            elif kind == "pvs":
                mt = rng.choice([31, 32, 34, 37, 39, 40])
                m[0] = 0x53
                m[1] = mt << 2 | m[1] & 3
            elif kind == "jma":
                m[0] = 0x53
                m[1] = 43 << 2 | m[1] & 3
            elif kind == "dgps":
                mt = rng.choice([43, 44, 47, 48, 49, 50, 51])
                m[0] = 0x53
                m[1] = mt << 2 | m[1] & 3

            def go():
                if kind in ("sbas", "pvs"):
                    d.decode_cssr(bytes(m), 0)
                elif kind == "dgps":
                    d.decode_cssr(bytes(m), 0)
                elif kind in ("jma", "camf"):
                    d.decode(bytes(m), 0)
                elif kind == "mdc":
                    d.decode_cssr(bytes(m), 0)
                elif kind == "qznma":
                    d.decode_gnss_rds(100, bytes(m), 0)
                return dict(s=state(d))
            out, exc = run.call(go)
            if exc:
                out = None
            run.ev("msg", out=out, exc=exc, m=m.hex(), mt=mt)
            if exc:
                s, _ = run.call(lambda: state(d))
                run.ev("after", out=dict(s=str(s)))


def main(run, kind):
    if kind in ("rtk", "spp", "ppp"):
        est(run, kind)
    else:
        decs(run, kind)
