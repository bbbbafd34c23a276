"""Plants bugs for trying the checks out.

  plant.py make            regenerate seeded/<id>/ from tools/bugs.py against /repo's HEAD
  plant.py confirm ID...   in a scratch copy: patch applies, tests pass, demo passes clean and fails patched
  plant.py catch ID...     in a scratch copy: does the property's check report it?
  plant.py all ID...       both
"""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(V, "seeded")
BASE = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(V, "tools"))


def sh(cmd, cwd=None, env=None, timeout=900):
    e = dict(os.environ)
    e.update(env or {})
    return subprocess.run(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)


def make():
    import bugs
    for b in bugs.BUGS:
        d = os.path.join(SEED, b["id"])
        os.makedirs(d, exist_ok=True)
        tmp = tempfile.mkdtemp(prefix="mk", dir="/tmp")
        try:
            sh(f"git -C {BASE} archive HEAD httplint | tar x -C {tmp}")
            sh("git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm x", cwd=tmp)
            for path, old, new in b["edits"]:
                p = os.path.join(tmp, path)
                s = open(p).read()
                if s.count(old) != 1:
                    print(f"{b['id']}: {path}: {s.count(old)} matches for {old[:60]!r}")
                    break
                open(p, "w").write(s.replace(old, new))
            else:
                diff = sh("git diff", cwd=tmp).stdout
                open(os.path.join(d, "patch.diff"), "w").write(diff)
                open(os.path.join(d, "demo.py"), "w").write(DEMO_HEAD + b["demo"].strip() + "\n")
                open(os.path.join(d, "demo.sh"), "w").write(
                    '#!/bin/bash\n# run in the repository: exit 0 when the property holds\n'
                    'export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"\n'
                    'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
                os.chmod(os.path.join(d, "demo.sh"), 0o755)
                json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                          open(os.path.join(d, "meta.json"), "w"), indent=1)
        finally:
            shutil.rmtree(tmp)
    print(len(bugs.BUGS), "bugs")


DEMO_HEAD = '''from httplint import HttpRequestLinter, HttpResponseLinter


def response(headers, status=b"200", content=(), trailers=None, req=None, start=None, complete=True, version=b"HTTP/1.1", **kw):
    r = HttpResponseLinter(start_time=start, **kw) if start is not None else HttpResponseLinter(**kw)
    if req is not None:
        r.request = req
    r.process_response_topline(version, status, b"OK")
    r.process_headers(headers)
    for c in content:
        r.feed_content(c)
    r.finish_content(complete, trailers)
    return r


def request(headers, method=b"GET", uri=b"http://example.com/", content=(), start=None, version=b"HTTP/1.1", **kw):
    r = HttpRequestLinter(start_time=start, **kw) if start is not None else HttpRequestLinter(**kw)
    r.process_request_topline(method, uri, version)
    r.process_headers(headers)
    for c in content:
        r.feed_content(c)
    r.finish_content(True)
    return r


def names(m):
    return sorted(type(n).__name__ for n in m.notes)


'''


def copy(patch=None):
    tmp = tempfile.mkdtemp(prefix="plant", dir="/tmp")
    sh(f"cp -a {BASE} {tmp}/repo")
    r = f"{tmp}/repo"
    sh("git checkout -q -- .", cwd=r)
    if patch:
        p = sh(f"git apply {patch}", cwd=r)
        if p.returncode:
            raise RuntimeError(p.stdout)
    return tmp, r


def confirm(i):
    d = os.path.join(SEED, i)
    tmp, r = copy()
    try:
        demo = os.path.join(tmp, "demo")
        shutil.copytree(d, demo)
        c = sh(f"bash {demo}/demo.sh", cwd=r, timeout=300)
        if c.returncode:
            return f"{i}: DEMO FAILS CLEAN\n{c.stdout[-800:]}"
        a = sh(f"git apply {d}/patch.diff", cwd=r)
        if a.returncode:
            return f"{i}: DOES NOT APPLY {a.stdout}"
        c = sh(f"bash {demo}/demo.sh", cwd=r, timeout=300)
        if not c.returncode:
            return f"{i}: DEMO PASSES PATCHED"
        t = open("/opt/vp/test.sh").read().replace("/repo", r)
        open(f"{tmp}/test.sh", "w").write(t)
        c = sh(f"bash {tmp}/test.sh {tmp}/o.json")
        o = json.load(open(f"{tmp}/o.json"))
        base = json.load(open("/opt/vp/BASELINE.json"))
        stable = base if isinstance(base, list) else base.get("stable") or base.get("passed") or base.get("tests")
        passed = set(o["passed"])
        miss = [x for x in stable if x not in passed]
        if miss:
            return f"{i}: TESTS FAIL {miss[:3]}"
        return f"{i}: confirmed"
    finally:
        shutil.rmtree(tmp)


def catch(i):
    d = os.path.join(SEED, i)
    pid = json.load(open(f"{d}/meta.json"))["property"]
    tmp, r = copy(f"{d}/patch.diff")
    try:
        c = sh(f"cp -a {V} {tmp}/verif && cd {tmp}/verif && ./check {pid}", env={"VERIF_REPO": r, "VERIF_SEED": os.environ.get("VERIF_SEED", "1"), "VT_TMP": tmp})
        hit = c.returncode == 1 and f"VIOLATION property={pid} " in c.stdout
        return f"{i} [{pid}]: {'CAUGHT' if hit else 'MISSED rc=' + str(c.returncode)}\n" + "\n".join("    " + l[:300] for l in c.stdout.splitlines()[:2 if hit else 6])
    finally:
        shutil.rmtree(tmp)


if __name__ == "__main__":
    cmd, ids = sys.argv[1], sys.argv[2:]
    if cmd == "make":
        make()
        sys.exit()
    if not ids:
        ids = sorted(os.listdir(SEED))
    if cmd in ("confirm", "all"):
        with cf.ThreadPoolExecutor(4) as ex:
            for m in ex.map(confirm, ids):
                print(m, flush=True)
    if cmd in ("catch", "all"):
        with cf.ThreadPoolExecutor(2) as ex:
            for m in ex.map(catch, ids):
                print(m, flush=True)
