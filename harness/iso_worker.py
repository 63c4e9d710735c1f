"""Worker of P28: runs flows, alone or interleaved by given schedules.

iso_worker.py JOB.json OUT.json
JOB: {"mode": "solo"|"mix", "flows": [[module, arg, seed], ...],
      "limit": N, "scheds": [[[kind, f], ...], ...]}
"""
import contextlib
import faulthandler
import hashlib
import importlib
import json
import os
import sys
import threading

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib                                                   # noqa: E402


OLD = []


class Stop(BaseException):
    pass


class Baton:
    """one thread at a time; a token of the schedule lets its flow run to the
    next call (op) or to the start of its next history (new), at most LONG
    calls"""
    LONG = 8

    def __init__(self, n, sched):
        self.cv = threading.Condition()
        self.sched = sched
        self.k = 0
        self.alive = set(range(n))
        self.cur = None
        self.advance()

    def advance(self):
        if not self.alive:
            self.cur = None
            return
        for _ in range(len(self.sched)+1):
            kind, f = self.sched[self.k % len(self.sched)]
            self.k += 1
            if f in self.alive:
                self.cur, self.kind, self.left = f, kind, self.LONG
                return
        self.cur, self.kind, self.left = min(self.alive), "op", 0

    def wait(self, f):
        with self.cv:
            while self.cur != f:
                self.cv.wait()

    def reach(self, f, what):
        """flow f has reached a call (op) or a new history (new)"""
        with self.cv:
            if self.kind != what:
                self.left -= 1
                if self.kind == "op" or self.left > 0:
                    return
            self.advance()
            self.cv.notify_all()
            while self.cur != f:
                self.cv.wait()

    def leave(self, f):
        with self.cv:
            self.alive.discard(f)
            self.advance()
            self.cv.notify_all()


class SubRun(vlib.Run):
    def __init__(self, flow, f, limit, baton, log):
        super().__init__(flow[0], "quick", flow[2])
        self.f, self.limit, self.baton, self.log = f, limit, baton, log
        self.count = 0
        self.satpool = range(1, 8)

    def hist(self, **cfg):
        self.hists = []
        super().hist(**cfg)
        if self.baton:
            self.baton.reach(self.f, "new")
        return self.cur

    def ev(self, op, out=None, exc="", **args):
        e = super().ev(op, out=out, exc=exc, **args)

        def dig(x):
            return hashlib.sha1(json.dumps(x, sort_keys=True, default=str)
                                .encode()).hexdigest()[:12]
        i = dig({k: v for k, v in e.items() if k not in ("out", "exc")})
        self.log.append((self.f, op, i, dig([e["out"], e["exc"]])))
        self.count += 1
        if self.count >= self.limit:
            raise Stop()
        return e

    def call(self, fn, *a, timeout=20, **kw):
        if self.baton:
            self.baton.reach(self.f, "op")
        try:
            return fn(*a, **kw), ""
        except SystemExit:
            return None, "SystemExit"
        except Exception as ex:
            self.last_exc = ex
            return None, type(ex).__name__

    def model_check(self, *a, **k):
        return []

    def paths(self, *a, **k):
        return []

    def validate(self, *a, **k):
        return []


def one(flow, f, limit, baton, log):
    if baton:
        baton.wait(f)
    run = SubRun(flow, f, limit, baton, log)
    try:
        m = importlib.import_module(flow[0])
        if flow[1]:
            m.main(run, flow[1])
        else:
            m.main(run)
    except Stop:
        pass
    except Exception as ex:
        import traceback
        log.append((f, "raise", "", type(ex).__name__))
        sys.stderr.write(traceback.format_exc())
    finally:
        OLD.append(run)      # the flows share the process and its directory
        if baton:
            baton.leave(f)


def main(job, out):
    faulthandler.enable()
    job = json.load(open(job))
    res = []
    flows, limit = job["flows"], job["limit"]
    for fl in flows:
        importlib.import_module(fl[0])
    real = sys.stdout
    with open(os.devnull, "w") as null, contextlib.redirect_stdout(null):
        if job["mode"] == "solo":
            log = []
            one(flows[0], 0, limit, None, log)
            res.append(log)
        else:
            for sched in job["scheds"]:
                log = []
                b = Baton(len(flows), sched)
                th = [threading.Thread(target=one, args=(fl, f, limit, b,
                                                         log), daemon=True)
                      for f, fl in enumerate(flows)]
                for t in th:
                    t.start()
                for t in th:
                    t.join()
                res.append(log)
                with open(out+".part", "w") as fo:
                    json.dump(res, fo)
    del real
    for r in OLD:
        r.cleanup()
    with open(out, "w") as fo:
        json.dump(res, fo)


if __name__ == "__main__":
    threading.stack_size(64*1024*1024)
    main(*sys.argv[1:])
