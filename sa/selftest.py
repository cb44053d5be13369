"""Self-tests of the analysis engine (run as setup_cmd): tiny positive and negative examples."""
import os
import sys
import tempfile
import textwrap

from . import ring as R
from . import values as V


def algebra():
    from .lab import Lab  # noqa: F401
    V.reset()
    a = R.angle_atom("a")
    c, s = R.cossin(a)
    assert R.eq(R.add(R.mul(c, c), R.mul(s, s)), R.const(1))
    r = R.atom(R.new_atom(("in", "r"), "r", "var", nonneg=True))
    assert R.eq(R.sqrt(R.mul(r, r)), r)
    x = R.atom(R.new_atom(("in", "x"), "x", "var"))
    assert not R.eq(R.sqrt(R.mul(x, x)), x)
    y = R.atom(R.new_atom(("in", "y"), "y", "var"))
    t = R.atan2(y, x)
    h = R.sqrt(R.add(R.mul(x, x), R.mul(y, y)))
    assert R.eq(R.mul(h, R.cos(t)), x) and R.eq(R.mul(h, R.sin(t)), y)
    assert not R.eq(R.mul(h, R.cos(t)), y)


def main():
    algebra()
    from .lab import Lab
    src = os.path.join(os.environ.get("COORDINAX_REPO", "/repo"), "src")
    try:
        lab = Lab(src)
        print(f"algebra ok; {len(lab.ip.modules)} modules loaded, {len(lab.ip.load_problems)} load problems")
    except Exception as e:      # reported by the checks themselves
        print(f"algebra ok; the package could not be loaded: {e}")
    return 0


if __name__ == "__main__":
    sys.setrecursionlimit(20000)
    sys.exit(main())
