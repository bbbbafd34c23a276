"""C18: linters are independent of one another, repeatable, picklable, and freed."""
import concurrent.futures as cf
import ctypes
import gc
import json
import os
import pickle
import subprocess
import sys
import threading
import time
import weakref

from harness import core, drive, units
from harness.gen import *
from harness.props import anylib


def fresh(unitlist):
    """every unit alone in a process of its own; the processes differ in their hash seeds"""
    n = core.NCPU
    procs = []
    for k in range(n):
        env = dict(os.environ, PYTHONHASHSEED=str(k + 1))
        procs.append(subprocess.Popen([sys.executable, "-m", "harness.units"], cwd=core.VERIF, env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, encoding="utf-8"))
    outs = [None] * len(unitlist)

    def talk(k):
        p = procs[k]
        for j in range(k, len(unitlist), n):
            p.stdin.write(json.dumps(unitlist[j]) + "\n")
            p.stdin.flush()
            line = p.stdout.readline()
            outs[j] = json.loads(line) if line else {"error": "no answer"}
        p.stdin.close()
        p.wait()
    with cf.ThreadPoolExecutor(n) as pool:
        list(pool.map(talk, range(n)))
    return outs


def moves(rng_cuts, us, lens):
    """how many steps each move of a unit makes"""
    out = []
    for u, n in zip(us, lens):
        m = len(u.steps)
        cuts = sorted(x % (m + 1) for x in rng_cuts[:n - 1]) + [m]
        out.append([b - a for a, b in zip([0] + cuts, cuts)])
    return out


def interleaved(sc):
    us = [units.Unit(x) for x in sc["units"]]
    todo = moves(sc["cuts"], us, sc["lens"])
    for u in sc["sched"]:
        us[u - 1].run(todo[u - 1].pop(0))
    return us


class Baton:
    """one thread at a time, taking turns after so many lines of the library"""

    def __init__(self, n, sched, cuts):
        self.live = list(range(n))
        self.sems = [threading.Semaphore(0) for _ in range(n)]
        self.plan = [(u - 1, 1 + (c * (1 + k % 3) * (1 + 6 * (c % 4)))) for k, (u, c) in enumerate(zip(sched * len(cuts), cuts * len(sched)))]
        self.at, self.left, self.free = 0, self.plan[0][1], False
        self.sems[self.plan[0][0]].release()

    def next(self):
        while True:
            self.at = (self.at + 1) % len(self.plan)
            if self.plan[self.at][0] in self.live:
                self.left = self.plan[self.at][1]
                return self.plan[self.at][0]

    def wait(self, k):
        if not self.free and not self.sems[k].acquire(timeout=10):
            self.free = True        # something else holds the others up: let all run

    def tick(self, k):
        self.left -= 1
        if self.left <= 0 and not self.free:
            j = self.next()
            if j != k:
                self.sems[j].release()
                self.wait(k)

    def done(self, k):
        self.live.remove(k)
        if self.live and not self.free:
            self.sems[self.next()].release()

    def run(self, k, fn):
        self.wait(k)

        def local(frame, event, arg):
            if event == "line":
                self.tick(k)
            return local

        def trace(frame, event, arg):
            name = frame.f_code.co_filename
            if "/httplint/" in name:
                self.tick(k)
                return local
            if "/markdown/" in name:
                self.tick(k)
            return None
        sys.settrace(trace)
        try:
            return fn()
        finally:
            sys.settrace(None)
            self.done(k)


def in_threads(sc):
    """each unit in a thread of its own: in turns by the schedule, line by line, or all at once"""
    if sc["turns"] == "lines":
        baton = Baton(len(sc["units"]), sc["sched"], sc["cuts"])
        return together(sc["units"], lambda k, fn: baton.run(k, fn))
    if sc["turns"] == "steps":
        with cf.ThreadPoolExecutor(1) as a, cf.ThreadPoolExecutor(1) as b, cf.ThreadPoolExecutor(1) as c:
            ex = [a, b, c]
            us = [ex[k].submit(units.Unit, x).result() for k, x in enumerate(sc["units"])]
            todo = moves(sc["cuts"], us, sc["lens"])
            for u in sc["sched"]:
                ex[u - 1].submit(us[u - 1].run, todo[u - 1].pop(0)).result()
            return [ex[k].submit(u.facts).result() for k, u in enumerate(us)]
    gate = threading.Barrier(len(sc["units"]))

    def at_once(k, fn):
        gate.wait(20)
        return fn()
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        return together(sc["units"], at_once)
    finally:
        sys.setswitchinterval(old)


def together(lives, way):
    """what is known of each of the lives, led in threads; none of which may take longer than 30 seconds"""
    res = [{"raised": "never ended"}] * len(lives)

    def work(k):
        try:
            res[k] = way(k, lambda: units.Unit(lives[k]).run().facts())
        except Exception as e:
            res[k] = {"raised": f"{type(e).__name__}: {str(e)[:100]}"}
    ts = [threading.Thread(target=work, args=(k,), daemon=True) for k in range(len(lives))]
    end = time.time() + 30
    for t in ts:
        t.start()
    for t in ts:
        t.join(max(0, end - time.time()))
    res = list(res)
    for t in ts:
        if t.is_alive():
            ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(t.ident), ctypes.py_object(SystemExit))
    return res


def seen(v):
    """a variable as its value: text is text and a number a number, whatever their classes"""
    if isinstance(v, (str, bytes)):
        return "s" + drive.canon(str(v))[1:] if isinstance(v, str) else drive.canon(v)
    if v is not None and isinstance(v, (int, float)):
        return "n" + repr(float(v)) if abs(v) < 2 ** 53 else "n" + drive.canon(v)
    if isinstance(v, (list, tuple)):
        return type(v).__name__[:1] + "[" + ",".join(seen(x) for x in v) + "]"
    return drive.canon(v)


def identity(n):
    return units.digest([type(n).__name__, n.subject, sorted([k, seen(v)] for k, v in n.vars.items())])


def pairs(sc, one, others):
    """notes of one linter beside those of others: what they are, and whether they say they are equal"""
    out = []
    for ns in others:
        ns = list(ns)
        for k, a in enumerate(one):
            for j in {k, *(c * (k + 1) % (len(ns) or 1) for c in sc["cuts"][:2])}:
                if j < len(ns) and len(out) < 200:
                    out.append({"a": identity(a), "b": identity(ns[j]), "eq": bool(a == ns[j]), "ne": bool(a != ns[j])})
    return out


def observe(args):
    sc, _ = args
    drive.lib()
    out = {"units": [], "notes": [], "raised": ""}
    try:
        us = interleaved(sc)
        fs = [u.facts() for u in us]
        th = in_threads(sc)
        twice = interleaved(sc)
        again = [u.facts() for u in twice]
        for k, u in enumerate(us):
            main = u.ln[1]
            p = pickle.loads(pickle.dumps(main, sc["protocol"]))
            v = units.Unit.__new__(units.Unit)
            v.sc, v.ln = u.sc, [getattr(p, "request", None) if u.sc["kind"] == "response" else getattr(p, "response", None), p]
            r = {"sched": fs[k], "threads": th[k], "again": again[k], "pickled": v.facts(), "kept": u.facts(), "freed": True, "relpaired": []}
            r["pairs"] = pairs(sc, main.notes, [p.notes, twice[k].ln[1].notes, us[k - 1].ln[1].notes])
            if u.ln[0] is not None:
                r["relpaired"] = [drive.note_key(n) + "@" + str(n.subject) for n in u.ln[0].notes]
            out["units"].append(r)
        if sc["free"]:
            refs = [[weakref.ref(x) for x in u.ln if x is not None] for u in us]
            us = u = main = p = v = twice = None
            gc.collect()
            for r, ws in zip(out["units"], refs):
                r["freed"] = all(w() is None for w in ws)
    except Exception as e:
        import traceback
        out["raised"] = f"{type(e).__name__}: {str(e)[:200]} " + traceback.format_exc()[-300:]
    return out


def small(rng):
    while True:
        sc = anylib.anything(rng, .5)
        if len(json.dumps(sc)) < 8000:
            break
    for x in [sc, sc.get("related")]:
        if x and any(n.lower() == "set-cookie" for k in ("headers", "trailers") for n, _ in x.get(k, [])):
            x.setdefault("start", NOW)
    return sc


def dense(rng, kind=None):
    """a message with the fields of several: something is kept of every field at every moment"""
    while True:
        sc = small(rng)
        if kind in (None, sc["kind"]):
            break
    lines = list(sc.get("headers", []))
    for _ in range(pick(rng, [4, 8, 12])):
        x = pick(rng, anylib.gens()[:24])(rng)
        x = x[0] if isinstance(x, tuple) else x
        lines += [y for y in x.get("headers", []) if len(y[1]) < 300][:8]
    rng.shuffle(lines)
    sc = dict(sc, headers=lines[:60], start=sc.get("start") or NOW)
    sc.pop("chunks", None)
    return sc


def check(c):
    rng, th = c.rng, core.THOROUGH
    ks = c.model("MC_Inter")
    ks = ks * 3 if th else sample(rng, ks, 1000)
    pool = [small(rng) for _ in range(8000 if th else 1500)]
    scs = []
    thick = [dense(rng) for _ in range(len(pool) // 4)]
    for k in ks:
        turns = pick(rng, ["steps", "lines", "lines", "free"])
        us = [pick(rng, thick if turns == "lines" and rng.random() < .7 else pool) for _ in k["lens"]]
        if rng.random() < .3:
            us = [us[0]] * len(us)      # the same message in several linters
        scs.append({"units": us, "lens": k["lens"], "sched": k["sched"], "cuts": [rng.randrange(40) for _ in range(5)], "turns": turns, "free": rng.random() < .3, "protocol": pick(rng, [2, 4, 5])})
    pool += thick
    index = {id(u): k for k, u in enumerate(pool)}
    base = fresh(pool)
    c.lap(f"alone {len(pool)}")
    outs = core.execute(scs, [], observe)
    for sc, o in zip(scs, outs):
        for u, r in zip(sc["units"], o["units"]):
            a = base[index[id(u)]]
            if "error" in a:
                o["raised"] = "alone: " + a["error"]
                break
            r["alone"], r["relalone"] = a["facts"], a["rel"]
    c.lap(f"execute {len(scs)}")
    c.validate("Tr_Inter", scs, outs, "schedules", "JudgeC18")
