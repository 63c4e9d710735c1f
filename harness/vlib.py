"""Common machinery of the checks: recording traces from the real code,
validating them with TLC against the specifications in /verif/spec, model
checking the specifications and replaying TLC's behaviours.

Every check is a module chk_<ID>.py exposing  main(run)  and is started by
    /verif/check <ID> quick|thorough
"""
import contextlib
import hashlib
import io
import json
import math
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import traceback
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor
from fractions import Fraction

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
TLAJAR = "/opt/veriftools/tla/tla2tools.jar"
TLACP = TLAJAR + ":/opt/veriftools/tla/CommunityModules-deps.jar"

sys.path.insert(0, os.path.join(REPO, "src"))
sys.dont_write_bytecode = True

NAN = -999999999      # value recorded for "not available" (NaN)
INEXACT = -888888888  # a float that is not a multiple of its LSB
BADTYPE = -777777777  # something that is not a number at all


class Hang(Exception):
    pass


def _alarm(signum, frame):
    raise Hang()


class MachineryError(Exception):
    pass


def lsb(x, scale, tol=1e-6):
    """project a float to an integer number of LSBs; scale is the LSB."""
    try:
        x = float(x)
    except Exception:
        return BADTYPE
    if math.isnan(x):
        return NAN
    if math.isinf(x):
        return BADTYPE
    q = x/scale
    r = round(q)
    if abs(q-r) > max(tol, 1e-12*abs(q)*8):
        return INEXACT
    if abs(r) >= 2**31-1:
        return BADTYPE
    return int(r)


def toint(x):
    try:
        if isinstance(x, (bool,)):
            return int(x)
        f = float(x)
        if math.isnan(f):
            return NAN
        if f != int(f) or abs(f) >= 2**31:
            return INEXACT
        return int(f)
    except Exception:
        return BADTYPE


class Bits:
    """independent bit writer (most significant bit first)"""

    def __init__(self):
        self.v = 0
        self.n = 0

    def u(self, val, n):
        val = int(val)
        if not 0 <= val < (1 << n):
            raise ValueError(f"u{n} out of range: {val}")
        self.v = (self.v << n) | val
        self.n += n
        return self

    def s(self, val, n):
        val = int(val)
        if not -(1 << (n-1)) <= val < (1 << (n-1)):
            raise ValueError(f"s{n} out of range: {val}")
        return self.u(val & ((1 << n)-1), n)

    def sm(self, val, n):
        """sign-magnitude"""
        val = int(val)
        return self.u((1 << (n-1) if val < 0 else 0) | abs(val), n)

    def mask(self, items, n, ofst=0):
        """bit mask, first item is the most significant bit"""
        m = 0
        for k in items:
            m |= 1 << (n-1-(k-ofst))
        return self.u(m, n)

    def cat(self, other):
        self.v = (self.v << other.n) | other.v
        self.n += other.n
        return self

    def pad(self, n, bit=0):
        while self.n < n:
            self.u(bit, 1)
        return self

    def tobytes(self, minlen=0):
        k = (-self.n) % 8
        b = (self.v << k).to_bytes((self.n+k)//8, "big") if self.n else b""
        return b + bytes(max(0, minlen-len(b)))

    def bits(self):
        return format(self.v, f"0{self.n}b") if self.n else ""


class Run:
    nudge = 1     # corruption of recorded values (beyond tolerances)
    def __init__(self, prop, tier=None, seed=None):
        self.prop = prop
        self.tier = tier or os.environ.get("VERIF_TIER", "quick")
        self.seed = int(seed if seed is not None
                        else os.environ.get("VERIF_SEED", "1"))
        self.rng = random.Random(f"{prop}-{self.seed}")
        self.tmp = tempfile.mkdtemp(prefix=f"verif-{prop}-")
        self.t_start = time.time()
        self.hists = []          # list of histories (lists of events)
        self.cur = None
        self.stats = dict(states=0, transitions=0, distinct=0)
        self.models = []
        self.nval = 0
        self.nev = 0
        self.samples = []
        self.hangs = 0
        self.violations = []
        self.known_hit = []
        self.assumptions = []
        self.notes = {}
        self.known = load_known().get(prop, [])
        self.quick = self.tier != "thorough"

    # ------------------------------------------------------------ recording
    def hist(self, **cfg):
        """start a new history; cfg is given to the specification's Start"""
        self.cur = [dict(op="reset", cfg=cfg)]
        self.hists.append(self.cur)
        return self.cur

    def ev(self, op, out=None, exc="", **args):
        e = dict(op=op)
        e.update(args)
        e["exc"] = exc
        e["out"] = clean(out) if out is not None and not exc else {}
        self.cur.append(e)
        return e

    def call(self, fn, *a, timeout=20, **kw):
        """call code under test -> (result, exc)"""
        if self.hangs >= 3:
            timeout = min(timeout, 1)
        old = signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, timeout)
        try:
            with contextlib.redirect_stdout(io.StringIO()), \
                    contextlib.redirect_stderr(io.StringIO()):
                return fn(*a, **kw), ""
        except Hang:
            self.hangs += 1
            return None, "hang"
        except SystemExit:
            return None, "SystemExit"
        except Exception as ex:
            self.last_exc = ex
            return None, type(ex).__name__
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)

    # ----------------------------------------------------------- validation
    def validate(self, module, cfg=None, nproc=6, label=None, timeout=800,
                 heap="2g"):
        """validate all recorded histories with spec/<module>.tla"""
        hs = [h for h in self.hists if len(h) > 1]
        self.hists = []
        self.cur = None
        if not hs:
            return []
        total = sum(len(h) for h in hs)
        nch = max(1, min(nproc, total//150+1))
        order = sorted(range(len(hs)), key=lambda i: -len(hs[i]))
        chunks = [[] for _ in range(nch)]
        load = [0]*nch
        for i in order:
            k = load.index(min(load))
            chunks[k].append(i)
            load[k] += len(hs[i])
        chunks = [c for c in chunks if c]
        cfgf = cfg or f"{module}.cfg"

        def one(k):
            idx = chunks[k]
            d = os.path.join(self.tmp, f"{module}-{label or ''}-{len(self.models)}-{k}-{self.nval}")
            os.makedirs(d)
            fn = os.path.join(d, "trace.ndjson")
            lines = []
            where = []
            with open(fn, "w") as f:
                for hi in idx:
                    for j, e in enumerate(hs[hi]):
                        f.write(json.dumps(e, separators=(",", ":"))+"\n")
                        where.append((hi, j))
            out = self.tlc(module, cfgf, d, env=dict(TRACE=fn), workers=1,
                           timeout=timeout, heap=heap)
            mism = []
            consumed = 0
            for ln in out.splitlines():
                if ln.startswith('"MISMATCH '):
                    mism.append(json.loads(json.loads(ln)[len("MISMATCH "):]))
                elif ln.startswith('"CONSUMED '):
                    consumed = int(json.loads(ln).split()[1])
            if consumed != len(where) or "Error:" in out:
                # the evaluation of one event failed (e.g. the code returned
                # something of another type): localise it if we can
                # the evaluation of one event failed: the recorded outcome
                # has no place in the specification (e.g. a value of another
                # type).  Reported as a disagreement at that event.
                x = re.findall(r"tl = (\d+)", out)
                j = int(x[-1]) if x and "tlc2.TLC" not in out[-200:] else 0
                if not 1 <= j <= len(where) or where[j-1][1] == 0 \
                        or "Evaluating" not in out \
                        and "evaluat" not in out:
                    raise MachineryError(
                        f"trace validation of {module} did not complete "
                        f"({consumed}/{len(where)}):\n" + out[-3000:])
                i = out.find("Error:")
                mism.append(dict(l=j, clauses=["evaluation"],
                                 expected=out[i:i+500]))
            return [(where[m["l"]-1], m) for m in mism]

        res = []
        with ThreadPoolExecutor(max_workers=nproc) as ex:
            for r in ex.map(one, range(len(chunks))):
                res += r
        if not res:
            self.binding(module, cfgf, hs, timeout, heap)
        self.nval += len(hs)
        self.nev += sum(len(h)-1 for h in hs)
        if len(self.samples) < 3:
            self.samples.append(dict(module=module,
                                     history=trim(hs[self.seed % len(hs)])))
        bad = []
        for (hi, j), m in res:
            h = hs[hi]
            self.report(module, h, j, m)
            bad.append((h, j, m))
        return bad

    def binding(self, module, cfgf, hs, timeout, heap):
        """demonstrate that the validation binds: corrupt one recorded value
        of a few histories; TLC has to reject (almost) all of them"""
        rng = random.Random(self.seed)
        cand = []
        for _ in range(200):
            h = rng.choice(hs)
            j = rng.randrange(1, len(h))
            sites = list(leaves(h[j].get("out", {})))
            if sites and not h[j].get("exc"):
                cand.append((h, j, rng.choice(sites)))
            if len(cand) == 6:
                break
        if not cand:
            return
        d = os.path.join(self.tmp, f"bind-{module}-{len(self.notes)}-{self.nval}")
        os.makedirs(d)
        fn = os.path.join(d, "trace.ndjson")
        n = 0
        with open(fn, "w") as f:
            for h, j, path in cand:
                for k, e in enumerate(h[:j+1]):
                    if k == j:
                        e = corrupt(json.loads(json.dumps(e)), path,
                                    self.nudge)
                    f.write(json.dumps(e, separators=(",", ":"))+"\n")
                    n += 1
        out = self.tlc(module, cfgf, d, env=dict(TRACE=fn), workers=1,
                       timeout=timeout, heap=heap)
        rej = len([x for x in out.splitlines()
                   if x.startswith('"MISMATCH ')])
        b = self.notes.setdefault("corrupted_records", dict(tried=0,
                                                            rejected=0))
        b["tried"] += len(cand)
        b["rejected"] += rej
        if rej == 0:
            raise MachineryError(f"{module} accepts corrupted records")

    def report(self, module, h, j, m):
        key = self.fingerprint(h, j, m)
        clauses = ",".join(sorted(m["clauses"]))
        for k in self.known:
            if matches(k, module, h, j, m):
                if k["id"] not in self.known_hit:
                    self.known_hit.append(k["id"])
                    print(f"KNOWN-FINDING: property={self.prop} {k['what']}")
                return
        os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
        fn = os.path.join(VERIF, "replay", f"{self.prop}-{key}.json")
        with open(fn, "w") as f:
            json.dump(dict(property=self.prop, module=module, seed=self.seed,
                           tier=self.tier, mismatch=m, event=h[j],
                           history=h[:j+1]), f, indent=1)
        self.violations.append(dict(module=module, clauses=m["clauses"],
                                    op=h[j]["op"], exc=h[j].get("exc", ""),
                                    replay=fn, length=j))
        if len(self.violations) <= 5:
            print(f"  mismatch [{module}] op={h[j]['op']} clauses={clauses} "
                  f"step {j} of a {len(h)-1}-event history")
            print(f"    recorded: {short(h[j])}")
            print(f"    expected: {str(m.get('expected', ''))[:600]}")

    def alien(self, tb):
        """an outcome without any interpretation"""
        os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
        fn = os.path.join(VERIF, "replay", f"{self.prop}-harness.json")
        with open(fn, "w") as f:
            json.dump(dict(property=self.prop, seed=self.seed, tier=self.tier,
                           traceback=tb, history=(self.hists or [[]])[-1]),
                      f, indent=1, default=str)
        self.violations.append(dict(module="", clauses=["uninterpretable"],
                                    op="", exc=tb.splitlines()[-1],
                                    replay=fn, length=0))

    @staticmethod
    def fingerprint(h, j, m):
        return hashlib.sha1(json.dumps([h[:j+1], m["clauses"]],
                                       sort_keys=True).encode()
                            ).hexdigest()[:10]

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg, d, env=None, workers=1, timeout=800, heap="2g",
            extra=()):
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss64m",
               "-XX:ParallelGCThreads=2", "-cp", TLACP,
               f"-DTLA-Library={SPEC}", "tlc2.TLC", "-workers", str(workers),
               "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE",
               "-deadlock", "-config", os.path.join(SPEC, cfg), *extra,
               os.path.join(SPEC, module+".tla")]
        try:
            p = subprocess.run(cmd, capture_output=True, text=True, env=e,
                               cwd=d, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise MachineryError(f"TLC timed out on {module}")
        return p.stdout + p.stderr

    def model_check(self, module, cfg=None, emit=False, workers=4,
                    timeout=800, heap="4g", env=None):
        """exhaustive exploration of spec/<module>.tla.  Returns the edges."""
        d = os.path.join(self.tmp, f"mc-{module}-{len(self.models)}")
        os.makedirs(d)
        ev = dict(EMIT="1" if emit else "0")
        ev.update(env or {})
        out = self.tlc(module, cfg or f"{module}.cfg", d, env=ev,
                       workers=1 if emit else workers, timeout=timeout,
                       heap=heap)
        m = re.search(r"(\d+) states generated, (\d+) distinct states", out)
        if m is None or "No error has been found" not in out:
            msg = "\n".join(x for x in out.splitlines()
                            if not x.startswith('"EDGE '))
            raise MachineryError(f"model checking of {module} failed:\n"
                                 + msg[-4000:])
        gen, dist = int(m.group(1)), int(m.group(2))
        self.models.append(dict(module=module, cfg=cfg or f"{module}.cfg",
                                states=dist, transitions=gen))
        self.stats["states"] += dist
        self.stats["transitions"] += gen
        edges = []
        if emit:
            for ln in out.splitlines():
                if ln.startswith('"EDGE '):
                    edges.append(json.loads(json.loads(ln)[5:]))
        return edges

    def paths(self, edges, maxlen=40, budget=None):
        """edge-covering set of behaviours [(cfg, [events])] of TLC's graph"""
        return cover(edges, self.rng, maxlen, budget, self.notes)

    # -------------------------------------------------------------- ending
    def finish(self, level="model_checking", extra=None):
        cov = dict(states=self.stats["states"],
                   transitions=self.stats["transitions"],
                   traces_validated_against_impl=self.nval,
                   events_validated=self.nev,
                   models=self.models, samples=self.samples[:3])
        cov.update(self.notes)
        cov.update(extra or {})
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed,
                  level=level, coverage=cov, assumptions=self.assumptions,
                  wall_s=round(time.time()-self.t_start, 2),
                  violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{self.prop}.json"),
                  "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for v in self.violations[:10]:
            print(f"VIOLATION property={self.prop} replay={v['replay']}")
        print(f"{self.prop}: {self.nval} histories / {self.nev} events "
              f"validated, model states {self.stats['states']}, "
              f"violations {len(self.violations)}, "
              f"{ev['wall_s']} s")
        return 1 if self.violations else 0

    def cleanup(self):
        shutil.rmtree(self.tmp, ignore_errors=True)


def clean(x):
    """values that JSON traces can carry (the rest is made recognisable)"""
    if isinstance(x, dict):
        return {str(k): clean(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [clean(v) for v in x]
    if isinstance(x, str) or isinstance(x, bool):
        return x
    if isinstance(x, int):
        return x if abs(x) < 2**31 else BADTYPE
    return toint(x)


def leaves(x, path=()):
    if isinstance(x, dict):
        for k, v in x.items():
            yield from leaves(v, path+(k,))
    elif isinstance(x, list):
        for k, v in enumerate(x):
            yield from leaves(v, path+(k,))
    elif isinstance(x, int) and not isinstance(x, bool):
        yield path


def corrupt(e, path, by=1):
    o = e["out"]
    for k in path[:-1]:
        o = o[k]
    o[path[-1]] += by
    return e


def trim(h, n=6, w=1500):
    s = []
    for e in h[:n]:
        t = json.dumps(e)
        s.append(e if len(t) < w else t[:w]+"...")
    return s


def short(e, n=900):
    return json.dumps(e)[:n]


def load_known():
    fn = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(fn):
        return {}
    res = {}
    for k in json.load(open(fn)).get("findings", []):
        res.setdefault(k["property"], []).append(k)
    return res


def matches(k, module, h, j, m):
    """a known finding is identified by the exact call that fails: module,
    operation, the sub-record `args` of the event and the failing clauses"""
    e = h[j]
    if k.get("module") not in (None, module) or k.get("op") != e["op"]:
        return False
    if sorted(k.get("clauses", [])) != sorted(m["clauses"]):
        return False
    return all(e.get(a) == v for a, v in k.get("args", {}).items())


def cover(edges, rng, maxlen, budget, notes=None):
    """greedy edge cover of a transition graph by paths from its initial
    states."""
    adj = {}
    targets = set()
    seen = set()
    for x in edges:
        c = json.dumps(x["c"], sort_keys=True)
        key = (c, x["f"], json.dumps(x["e"], sort_keys=True))
        if key in seen:
            continue
        seen.add(key)
        adj.setdefault((c, x["f"]), []).append((x["e"], (c, x["t"]), key))
        if x["t"] != x["f"]:
            targets.add((c, x["t"]))
    if not adj:
        return []
    first = {}
    for x in edges:      # TLC explores breadth first: first edge is initial
        c = json.dumps(x["c"], sort_keys=True)
        first.setdefault(c, (c, x["f"]))
    parent = {}
    order = []
    for c, root in first.items():
        parent[root] = None
        q = [root]
        while q:
            nq = []
            for u in q:
                order.append(u)
                for (e, v, key) in adj.get(u, ()):
                    if v not in parent:
                        parent[v] = (u, e, key)
                        nq.append(v)
            q = nq
    uncovered = {u: [a for a in adj[u]] for u in adj}
    for u in uncovered:
        rng.shuffle(uncovered[u])
    left = sum(len(v) for v in uncovered.values())
    total = left
    res = []
    done = set()
    states = [u for u in order if u in adj]
    states.reverse()      # deepest first: long prefixes cover the shallow ones
    for s in states:
        while uncovered[s]:
            if budget is not None and len(res) >= budget:
                break
            pre = []
            u = s
            while parent[u] is not None:
                p, e, key = parent[u]
                pre.append((p, e, key, u))
                u = p
            pre.reverse()
            path = []
            for (p, e, key, v) in pre:
                path.append(e)
                if key not in done:
                    done.add(key)
                    left -= 1
                    uncovered[p] = [a for a in uncovered[p] if a[2] != key]
            u = s
            while uncovered.get(u) and len(path) < maxlen + len(pre):
                e, v, key = uncovered[u].pop()
                if key in done:
                    continue
                done.add(key)
                left -= 1
                path.append(e)
                u = v
            res.append((json.loads(s[0]), path))
    if notes is not None:
        notes["model_edges"] = notes.get("model_edges", 0)+total
        notes["model_edges_replayed"] = notes.get("model_edges_replayed", 0) \
            + len(done)
    return res


def frac(x):
    return Fraction(x)


def main(argv):
    import importlib
    if len(argv) < 2:
        print("usage: check <ID> [quick|thorough]")
        return 2
    prop = argv[1]
    tier = argv[2] if len(argv) > 2 else None
    if tier is not None:
        os.environ["VERIF_TIER"] = tier
    run = Run(prop, tier)
    try:
        mod = importlib.import_module(f"chk_{prop}")
        mod.main(run)
        return run.finish()
    except MachineryError as ex:
        print(f"MACHINERY ERROR: {ex}")
        if run.violations:
            return run.finish()
        return 2
    except Exception:
        # the harness could not make sense of what the code returned: the
        # generators and projections are total for conforming outcomes
        tb = traceback.format_exc()
        print(tb)
        run.alien(tb)
        return run.finish()
    finally:
        run.cleanup()


if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    import vlib
    rc = vlib.main(sys.argv)
    sys.stdout.flush()
    os._exit(rc)
