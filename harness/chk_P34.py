"""P34: solid earth tide, sun and moon."""
import numpy as np
from vlib import BADTYPE
from cssrlib import ppp, peph
from cssrlib.gnss import epoch2time, xyz2enu

GME, RE = 3.986004415e14, 6378137.0
LAT = [[10000, 0], [8000, 6000], [8000, -6000], [6000, 8000], [0, 10000],
       [0, -10000], [2800, 9600], [9600, 2800], [9600, -2800]]
LON = [[10000, 0], [0, 10000], [-10000, 0], [0, -10000], [6000, 8000],
       [-6000, 8000], [2800, -9600], [-9600, -2800], [-8000, -6000]]
LOW = [[10000, 0], [9600, 2800], [9600, -2800]]
FACTS = [
    ("mar", (2000, 3, 20, 7, 35)), ("jun", (2000, 6, 21, 1, 48)),
    ("sep", (2000, 9, 22, 17, 28)), ("dec", (2000, 12, 21, 13, 37)),
    ("mar", (2021, 3, 20, 9, 37)), ("jun", (2021, 6, 21, 3, 32)),
    ("sep", (2021, 9, 22, 19, 21)), ("dec", (2021, 12, 21, 15, 59)),
    ("mar", (2024, 3, 20, 3, 6)), ("jun", (2024, 6, 20, 20, 51)),
    ("sep", (2024, 9, 22, 12, 44)), ("dec", (2024, 12, 21, 9, 20)),
    ("mar", (2030, 3, 20, 13, 52)), ("jun", (2030, 6, 21, 7, 31)),
    ("perih", (2024, 1, 3, 0, 38)), ("aph", (2024, 7, 5, 5, 6)),
    ("nov3", (2023, 11, 3, 12, 0)), ("feb11", (2023, 2, 11, 12, 0)),
    ("apr15", (2023, 4, 15, 12, 0)), ("dec25", (2023, 12, 25, 12, 0)),
    ("new", (2017, 8, 21, 18, 26)), ("new", (2024, 4, 8, 18, 17)),
    ("new", (2019, 7, 2, 19, 23)), ("full", (2019, 1, 21, 5, 12)),
    ("full", (2022, 11, 8, 10, 59)), ("full", (2025, 3, 14, 6, 59)),
    ("perig", (2016, 11, 14, 11, 23)), ("apog", (2024, 10, 2, 19, 39))]


def i32(x, q=1.):
    v = float(x)*q
    return round(v) if np.isfinite(v) and abs(v) < 2e9 else BADTYPE


def unit(lat, lon):
    return np.array([lat[0]*lon[0], lat[0]*lon[1], lat[1]*1e4])*1e-8


class Dut:
    def __init__(self, run):
        self.run = run
        run.hist(x=0)

    def tide(self, e):
        pos = np.array([np.arctan2(e["lat"][1], e["lat"][0]),
                        np.arctan2(e["lon"][1], e["lon"][0]), 30.])

        def body(b, gm):
            """vector at the distance at which the tide has its size"""
            if b["k2"] == 0:
                return np.array([1e30, 0, 0])
            r = (gm/GME*RE**4/(b["k2"]*1e-5))**(1/3)
            b["rr"] = round(RE/r*1e4)
            return unit(b["lat"], b["lon"])*r

        def f():
            e["sun"], e["moon"] = dict(e["sun"]), dict(e["moon"])
            s = body(e["sun"], 1.327124e20)
            m = body(e["moon"], 4.902801e12)
            g = np.arctan2(e["gmst"][1], e["gmst"][0])
            E = xyz2enu(pos)
            d = ppp.solid_tide(s, m, pos, E, g, e["perm"])
            return dict(d=[i32(x, 1e5) for x in d])
        out, exc = self.run.call(f)
        self.run.ev(out=out, exc=exc, **e)

    def sky(self, fact, ep, which):
        def f():
            t = epoch2time(list(ep)+[0.])
            if which:
                s, m, _ = peph.sunmoonpos(t, np.zeros(5), True, True)
            else:
                s, m, _ = ppp.sunmoonpos(t)
            r, q = np.linalg.norm(s), np.linalg.norm(m)
            return dict(
                decl=i32(np.rad2deg(np.arcsin(s[2]/r)), 100),
                dist=i32(r/149597870691., 1e4),
                lon=i32(np.rad2deg(np.arctan2(s[1], s[0])), 100),
                apart=i32(np.rad2deg(np.arccos(s@m/r/q)), 100),
                moon=i32(q, 1e-3))
        out, exc = self.run.call(f)
        self.run.ev("sky", out=out, exc=exc, fact=fact)


def main(run):
    rng = run.rng
    run.nudge = 3000
    run.assumptions += [
        "displacements within 0.25 mm; sun and moon within 0.1 to 2 degrees "
        "at 28 known instants of 2000 to 2030 (an approximate ephemeris)",
        "the conventional tide model (IERS step 1 and 2 as in RTKLIB); the "
        "PySolid wrapper is not judged"]
    edges = run.model_check("Tide_MC", emit=True)
    for cfg, evs in run.paths(edges, maxlen=1,
                              budget=600 if run.quick else 4000):
        d = Dut(run)
        for e in evs:
            d.tide(e)
    for w in (0, 1):
        d = Dut(run)
        for k, ep in FACTS:
            d.sky(k, ep, w)
    for h in range(100 if run.quick else 3000):
        d = Dut(run)
        for k in range(10):
            def b(k2):
                return dict(lat=rng.choice(LOW), lon=rng.choice(LON), rr=0,
                            k2=rng.choice([0, k2, k2, rng.randint(
                                k2*8//10, k2*12//10)]))
            d.tide(dict(op="tide", lat=rng.choice(LAT), lon=rng.choice(LON),
                        perm=rng.random() < .5, gmst=rng.choice(LON),
                        sun=b(16400), moon=b(35800)))
    run.validate("Tide_Trace")
