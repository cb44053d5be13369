"""The interpreter of sa against CPython on tools/pysem/cases.py: what Python constructs mean to it."""
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.dirname(HERE), HERE]
from sa.lab import Lab  # noqa: E402
from sa.values import AbsRaise, It, Undecided  # noqa: E402


def plain(v):
    return [plain(x) for x in v.items] if isinstance(v, It) else v


lab = Lab(os.environ.get("COORDINAX_REPO", "/repo"))
ip = lab.ip
ip.roots["pysem"] = os.path.join(HERE, "pysem")
mod = ip.load("pysem.cases")
real = importlib.import_module("pysem.cases")
for p in ip.load_problems:
    if p[0].startswith("pysem"):
        print("load", p)
bad = und = n = 0
for name in [k for k in vars(real) if k.startswith("c_")]:
    n += 1
    want = getattr(real, name)()
    try:
        got = ip.call(mod.ns[name], [], {})
    except Undecided as e:
        und += 1
        print("undecided", name, str(e)[:100])
        continue
    except AbsRaise as e:
        bad += 1
        print("RAISES", name, e.exc.cls.name, e.exc.d.get("args") if hasattr(e.exc, "d") else "")
        continue
    except Exception as e:  # noqa: BLE001
        bad += 1
        print("CRASH", name, type(e).__name__, str(e)[:100])
        continue
    if repr(got) != repr(want):
        bad += 1
        print("DIFFERS", name, "\n   got ", repr(got)[:300], "\n   want", repr(want)[:300])
print(f"{n} cases, {bad} wrong, {und} undecided")
sys.exit(bool(bad))
