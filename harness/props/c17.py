"""C17: text is produced in the innermost locale of the context that produces it."""
import asyncio
import concurrent.futures as cf
import contextvars
import json
import os
import subprocess
import sys
import threading

from harness import core, drive, words
from harness.gen import *
from harness.props import c18

LOCALES = ["en", "es", "fr", "ja", "zh", "fr_CA", "zh_CN", "ja_JP.UTF-8", "es@x", "pt", "xx", "en_GB", "C", ""]


def references(msgs):
    """what a process that uses only one locale says: for each locale, the plain texts and the messages'"""
    def talk(loc):
        p = subprocess.Popen([sys.executable, "-m", "harness.words", loc], cwd=core.VERIF, env=dict(os.environ), stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, encoding="utf-8")
        out, _ = p.communicate("".join(json.dumps(x) + "\n" for x in [None] + msgs))
        return [json.loads(l) for l in out.splitlines()]
    with cf.ThreadPoolExecutor(core.NCPU) as pool:
        return dict(zip(LOCALES, pool.map(talk, LOCALES)))


class Leave(Exception):
    def __init__(self, n):
        self.n = n


class LeaveAll(BaseException):
    def __init__(self, n):
        self.n = n


class Host:
    """a thread with an event loop; its contexts are tasks, or copies of contexts"""

    def __init__(self, context=None):
        self.ready = threading.Event()
        run = (lambda: asyncio.run(self.main()))
        self.thread = threading.Thread(target=(lambda: context.run(run)) if context else run, daemon=True)
        self.thread.start()
        self.ready.wait(20)

    async def main(self):
        self.loop = asyncio.get_running_loop()
        self.first = Task(self)
        self.ready.set()
        try:
            await self.first.life(0)
        except asyncio.CancelledError:
            pass


class Task:
    def __init__(self, host):
        self.host, self.inbox = host, asyncio.Queue()

    def post(self, cmd):
        fut = cf.Future()
        self.host.loop.call_soon_threadsafe(self.inbox.put_nowait, (cmd, fut))
        return fut

    async def life(self, depth):
        from httplint.i18n import set_locale
        while True:
            cmd, fut = await self.inbox.get()
            op = cmd[0]
            if op == "stop":
                fut.set_result(None)
                raise asyncio.CancelledError
            if op == "exit":
                return fut
            if op == "raise":
                raise (Leave, LeaveAll)[cmd[2]](cmd[1]) from FutureOf(fut)
            if op == "enter":
                fut.set_result(None)
                left = None
                try:
                    with set_locale(cmd[1]):
                        left = await self.life(depth + 1)
                except (Leave, LeaveAll) as e:
                    e.n -= 1
                    if e.n:
                        raise
                    left = e.__cause__.fut
                left.set_result(None)
            else:
                try:
                    fut.set_result(self.do(*cmd))
                except Exception as e:
                    fut.set_exception(e)

    def do(self, op, arg):
        if op == "call":
            return arg()
        if arg == "task":
            t = Task(self.host)
            t.task = self.host.loop.create_task(t.life(0))
            return t
        if arg == "copy":
            return Copy(self.host)
        return Host(contextvars.copy_context() if arg == "worker" else None).first


class FutureOf(Exception):
    def __init__(self, fut):
        self.fut = fut


class Copy:
    """a copied context, entered for each of its steps"""

    def __init__(self, host):
        self.host, self.context, self.scopes = host, contextvars.copy_context(), []

    def post(self, cmd):
        fut = cf.Future()

        def go():
            try:
                fut.set_result(self.context.run(self.do, *cmd))
            except BaseException as e:
                fut.set_exception(e)
        self.host.loop.call_soon_threadsafe(go)
        return fut

    def do(self, op, *args):
        from httplint.i18n import set_locale
        if op == "enter":
            self.scopes.append(set_locale(args[0]))
            self.scopes[-1].__enter__()
        elif op == "exit":
            self.scopes.pop().__exit__(None, None, None)
        elif op == "raise":
            e = (Leave, LeaveAll)[args[1]](args[0])
            for _ in range(args[0]):
                self.scopes.pop().__exit__(type(e), e, None)
        elif op == "stop":
            while self.scopes:
                self.scopes.pop().__exit__(None, None, None)
        else:
            return Task.do(self, op, *args)


def look(made, items):
    """the texts of items, as they are here and now"""
    out = []
    for it in items:
        if it[0] == "plain":
            out.append(words.digest(words.plain()[it[1]]))
        else:
            n = made[it[0]][it[1]]
            out.append(words.digest(str(n.summary if it[2] == 0 else n.detail)))
    return out


def name(it):
    return "/".join(str(x) for x in it)


def observe(args):
    sc, _ = args
    drive.lib()
    rng = __import__("random").Random(sc["seed"])
    out = {"looks": [], "raised": "", "notes": []}
    made, ctxs, items = {}, [], [["plain", k] for k in range(len(words.plain()))]
    try:
        ctxs.append(Host().first)

        def make(k):
            made[k] = words.notes_of(sc["msgs"][k])[0]
        turn = 0

        def do(o):
            c = ctxs[o["c"] - 1]
            if o["op"] == "make":
                k = len(made)
                c.post(["call", lambda: make(k)]).result(30)
                items.extend([[k, j, w] for j in range(len(made[k])) for w in (0, 1)])
            elif o["op"] == "spawn":
                ctxs.append(c.post(["spawn", o["kind"]]).result(30))
            elif o["op"] == "enter":
                c.post(["enter", o["loc"] or (None if sc["none"] else "")]).result(30)
            elif o["op"] == "raise":
                c.post(["raise", o["n"], sc["base"]]).result(30)
            else:
                c.post(["exit"]).result(30)
        for k, o in enumerate(sc["ops"]):
            do(o)
            every = sc["few"] and k + 1 < len(sc["ops"])
            for j in [o["c"] - 1] if every else list(range(len(ctxs))):
                its = [pick(rng, items) for _ in range(2)]
                for it, d in zip(its, ctxs[j].post(["call", lambda: look(made, its)]).result(30)):
                    out["looks"].append([k + 1, j + 1, name(it), d])
        if sc["finale"]:
            out["looks"] += finale(sc, made, ctxs, items, rng)
    except Exception as e:
        import traceback
        out["raised"] = f"{type(e).__name__}: {str(e)[:200]} " + traceback.format_exc()[-300:]
    for c in reversed(ctxs):
        try:
            c.post(["stop"])
        except RuntimeError:
            pass
    return out


def finale(sc, made, ctxs, items, rng):
    """all the threads' contexts look at the same notes, taking turns line by line, or freely"""
    seen, who = set(), []
    for j, c in enumerate(ctxs):
        if id(c.host) not in seen:
            seen.add(id(c.host))
            who.append(j)
    its = [pick(rng, items) for _ in range(12)]
    if sc["finale"] == "lines":
        b = c18.Baton(len(who), [k + 1 for k in range(len(who))], sc["cuts"])
        futs = [ctxs[j].post(["call", lambda k=k: b.run(k, lambda: look(made, its))]) for k, j in enumerate(who)]
    else:
        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-5)
        futs = [ctxs[j].post(["call", lambda: look(made, its * 3)]) for j in who]
    out = []
    for j, f in zip(who, futs):
        for it, d in zip(its * 3, f.result(60)):
            out.append([len(sc["ops"]), j + 1, name(it), d])
    if sc["finale"] != "lines":
        sys.setswitchinterval(old)
    return out


def decorate(rng, ops, ren, makes):
    """the model's locales renamed, its tasks of all kinds, and messages made in between"""
    out = []
    for o in ops:
        o = dict(o)
        if o["op"] == "enter":
            o["loc"] = ren[o["loc"]]
        if o["op"] == "spawn" and o["kind"] == "task":
            o["kind"] = pick(rng, ["task", "task", "copy", "worker"])
        out.append(o)
    n = 1
    res = [MAKE(1)]
    for o in out:
        res.append(o)
        n += o["op"] == "spawn"
        if makes > 1 and rng.random() < .4:
            res.append(MAKE(rng.randrange(n) + 1))
            makes -= 1
    return res


def MAKE(c):
    return {"op": "make", "c": c, "loc": "", "n": 0, "kind": ""}


def walk(rng, n):
    """a longer history"""
    depth, out = [0], []
    while len(out) < n:
        c = rng.randrange(len(depth))
        op = pick(rng, ["enter", "enter", "enter", "exit", "exit", "raise", "spawn"])
        o = {"op": op, "c": c + 1, "loc": "", "n": 0, "kind": ""}
        if op == "enter":
            o["loc"] = pick(rng, LOCALES)
            depth[c] += 1
        elif op == "spawn":
            if len(depth) >= 6:
                continue
            o["kind"] = pick(rng, ["task", "copy", "worker", "thread"])
            depth.append(0)
        elif depth[c] == 0:
            continue
        elif op == "exit":
            depth[c] -= 1
        else:
            o["n"] = rng.randrange(depth[c]) + 1
            depth[c] -= o["n"]
        out.append(o)
    return out


def check(c):
    rng, th = c.rng, core.THOROUGH
    ks = c.model("MC_Locale", sub={"MaxOps": 6} if th else None)
    ks = sample(rng, ks, 30000 if th else 1000)
    drive.lib()
    pool = []
    while len(pool) < (1500 if th else 250):
        sc = c18.dense(rng) if rng.random() < .3 else c18.small(rng)
        pool.append(dict(sc, start=sc.get("start") or NOW))
    refs = references(pool)
    c.lap(f"alone {len(pool)} x {len(LOCALES)}")
    ts = []
    for loc in LOCALES:
        en = refs["en"]
        for k, r in enumerate(refs[loc]):
            for a in range(0, max(1, len(r["texts"])), 12):
                ts.append(({"loc": loc, "message": None if k == 0 else pool[k - 1]}, {"texts": r["texts"][a:a + 12], "digests": r["digests"], "english": en[k]["digests"], "raised": "", "notes": []}))
    if not th:
        ts = [x for x in ts if x[0]["message"] is None] + sample(rng, [x for x in ts if x[0]["message"] is not None], 4000)
    c.validate("Tr_Locale", [a for a, _ in ts], [b for _, b in ts], "texts", "JudgeC17Texts")
    scs = []
    for k, m in enumerate(ks + [None] * (8000 if th else 400)):
        ren = dict(zip("AB", rng.sample(LOCALES, 2)))
        ms = [rng.randrange(len(pool)) for _ in range(3)]
        ops = decorate(rng, m["ops"], ren, 3) if m else decorate(rng, walk(rng, pick(rng, [8, 15, 30])), {x: x for x in LOCALES}, 3)
        scs.append({"ops": ops, "msgs": [pool[x] for x in ms], "ms": ms, "seed": rng.randrange(1 << 30), "none": rng.random() < .5, "base": rng.randrange(2), "few": rng.random() < .3,
                    "finale": pick(rng, ["", "lines", "lines", "free"]), "cuts": [rng.randrange(40) for _ in range(5)]})
    outs = core.execute(scs, [], observe)
    for sc, o in zip(scs, outs):
        o["table"] = {}
        for l in o["looks"]:
            if l[2] not in o["table"]:
                it = l[2].split("/")
                if it[0] == "plain":
                    o["table"][l[2]] = {x: refs[x][0]["digests"][int(it[1])] for x in LOCALES}
                else:
                    o["table"][l[2]] = {x: refs[x][1 + sc["ms"][int(it[0])]]["digests"][int(it[1])][int(it[2])] for x in LOCALES}
    c.lap(f"execute {len(scs)}")
    c.validate("Tr_Locale", scs, outs, "histories", "JudgeC17")
