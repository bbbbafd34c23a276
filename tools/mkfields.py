"""Prints the field table the specification uses (tla/fields.json): run by hand and reviewed, never by a check.
   name -> canonical name, where it may occur, deprecated, kind of syntax."""
import importlib
import json
import os
import sys

sys.path.insert(0, "/repo")
from httplint.field import deprecated, unnecessary
from httplint.field.finder import HttpFieldFinder as F
P = "/repo/httplint/field/parsers"
out = {}
for f in sorted(os.listdir(P)):
    if not f.endswith(".py") or f == "__init__.py":
        continue
    n = f[:-3]
    c = getattr(importlib.import_module("httplint.field.parsers." + n), n)
    names = [b.__name__ for b in c.__mro__]
    kind = next(k for b, k in (("SingletonField", "single"), ("HttpListField", "list"), ("StructuredField", "sf"), ("JsonField", "json"), ("BrokenField", "broken")) if b in names)
    canon = getattr(c, "canonical_name", None)
    wires = [a for a, t in F.field_aliases.items() if t == n]
    wires = [w if w in ("_onnection", "x_cnection") else w.replace("_", "-") for w in wires]
    wires.append((canon or n.replace("_", "-")).lower())
    if n == "connectiox":
        wires.append("x-cnection")
    for w in wires:
        out[w] = {"c": canon or "", "req": c._valid_in_requests, "resp": c._valid_in_responses, "dep": bool(c.deprecated), "kind": kind, "t": getattr(c, "sf_type", ""), "unn": n == "tcn"}
for k in deprecated.fields:
    if k.lower() not in out:
        out[k.lower()] = {"c": k, "req": True, "resp": True, "dep": True, "kind": "list", "t": "", "unn": False}
for k in unnecessary.UNNECESSARY_FIELDS:
    out[k] = {"c": "", "req": True, "resp": True, "dep": False, "kind": "list", "t": "", "unn": True}
json.dump(dict(sorted(out.items())), open("/verif/tla/fields.json", "w"), indent=0)
print(len(out))
