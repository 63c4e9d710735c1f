"""P28: instances are independent.  Flows of operations on instances (those of
the other checks, of the estimators and of the remaining decoders) run alone in
fresh processes and interleaved in one process by TLC's schedules."""
import json
import os
import random
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
OWN = ["P02", "P03", "P04", "P05", "P06", "P07", "P08", "P09", "P10", "P11",
       "P14", "P16", "P17", "P18", "P19", "P20", "P21", "P23", "P25"]
REST = ["ppp", "rtk", "spp", "sbas", "mdc", "pvs", "dgps", "jma", "camf",
        "qznma", "rtcm"]


def worker(run, name, job, timeout):
    fn = os.path.join(run.tmp, f"{name}.json")
    out = os.path.join(run.tmp, f"{name}.out")
    cwd = os.path.join(run.tmp, f"{name}.d")
    os.makedirs(cwd)
    with open(fn, "w") as f:
        json.dump(job, f)
    env = dict(os.environ, PYTHONHASHSEED="0", OMP_NUM_THREADS="1",
               OPENBLAS_NUM_THREADS="1", VERIF_TIER="quick")
    try:
        p = subprocess.run([sys.executable, os.path.join(HERE,
                                                         "iso_worker.py"),
                            fn, out], cwd=cwd, env=env, timeout=timeout,
                           capture_output=True, text=True)
        err = p.stderr[-600:]
    except subprocess.TimeoutExpired:
        err = "timeout"
    for f in (out, out+".part"):
        if os.path.exists(f):
            return json.load(open(f)), err
    return [], err


def main(run):
    rng = run.rng
    run.assumptions.append(
        "interleaving is at the granularity of the operations of the flows; "
        "operations are not preempted (the library is not thread safe)")
    scheds = [[[e["op"], e["f"]-1] for e in evs] for _, evs in
              run.paths(run.model_check("Isolation_MC", emit=True), maxlen=24)]
    scheds = [s for s in scheds if len({f for _, f in s}) == 2]
    run.model_check("Isolation_MC")
    limit = 40 if run.quick else 160
    seeds = [run.seed*10, run.seed*10+1] if run.quick else \
        [run.seed*10+k for k in range(4)]
    flows = [("chk_"+p, "", s) for p in OWN for s in seeds] + \
        [("iso_flows", k, s) for k in REST for s in seeds]
    tmo = 300 if run.quick else 800
    lim = {f: limit//2 if f[1] in ("rtk", "spp") else
           3*limit if f[0] == "chk_P14" else limit for f in flows}

    def solo(i):
        return worker(run, f"solo{i}", dict(mode="solo", flows=[flows[i]],
                                            limit=lim[flows[i]]), tmo)
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(solo, range(len(flows))))
    ref, lost = {}, []
    for f, (r, err) in zip(flows, res):
        if r and r[0] and not any(x[1] == "raise" for x in r[0]):
            ref[f] = r[0]
        else:
            lost.append([*f, err])
    run.notes["flows"] = len(ref)
    run.notes["flows_without_reference"] = lost
    good = [f for f in flows if f in ref]
    # pairs: the same class with two seeds, and different classes
    pairs = []
    by = {}
    for f in good:
        by.setdefault(f[:2], []).append(f)
    for k, v in by.items():
        n = len(v)
        if n > 1:
            pairs.append((v[0], v[1]))
        if not run.quick and n > 3:
            pairs.append((v[2], v[3]))
            pairs.append((v[1], v[2]))
    keys = list(by)
    rng.shuffle(keys)
    for a, b in zip(keys, keys[1:]+keys[:1]):
        if a != b:
            pairs.append((by[a][0], by[b][-1]))
    ns = 3 if run.quick else 12
    # every schedule of the model is used by some pair
    order = list(scheds)
    rng.shuffle(order)
    job, k = [], 0
    for p in pairs:
        s = []
        for _ in range(ns):
            s.append(order[k % len(order)])
            k += 1
        # long runs of one flow between creations of the other
        r = random.Random(k)
        s.append([["new", 0]]+[["op", 0]]*r.randrange(1, 9) +
                 [["new", 1]]+[["op", 1]]*r.randrange(1, 9))
        s.append([["op", 0]]*r.randrange(1, 4)+[["op", 1]]*r.randrange(1, 4))
        job.append(s)

    def mix(i):
        return worker(run, f"mix{i}", dict(
            mode="mix", flows=pairs[i], limit=min(lim[f] for f in pairs[i]),
            scheds=job[i]), tmo)
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(mix, range(len(pairs))))
    run.notes["pairs"] = len(pairs)
    run.notes["schedules"] = k+2*len(pairs)
    for p, sc, (r, err) in zip(pairs, job, res):
        n = min(lim[f] for f in p)
        run.hist(n=2, flows=[list(f) for f in p])
        for f in (0, 1):
            for x in ref[p[f]][:n]:
                run.ev("solo", out=dict(i=x[2], o=x[3]), f=f+1, what=x[1])
        for j, s in enumerate(sc):
            log = r[j] if j < len(r) else []
            run.ev("begin", out={}, sched=s)
            cnt = [0, 0]
            for f, op, i, o in log:
                run.ev("step", out=dict(i=i, o=o) if op != "raise" else {},
                       exc=o if op == "raise" else "", f=f+1, what=op)
                cnt[f] += op != "raise"
            for f in (0, 1):
                run.ev("end", out=dict(n=cnt[f]), f=f+1,
                       err=err if j >= len(r) else "")
    run.validate("Isolation_Trace")
