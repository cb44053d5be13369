"""Batch shapes of known rank: ("ax", sizes, history).

A size is an int or an Ax, a product of named sizes.  Names stand for pairwise different sizes greater than
one, so a size also says which batch axis of the input an axis is.  The history is the set of operations that
sizes do not show: integer indices and reshapes.
"""


class Ax:
    __slots__ = ("names", "k")

    def __init__(self, *names, k=1):
        self.names, self.k = tuple(sorted(names)), k

    def __eq__(self, o):
        return isinstance(o, Ax) and o.names == self.names and o.k == self.k

    def __hash__(self):
        return hash((self.names, self.k))

    def __repr__(self):
        return "*".join(([str(self.k)] if self.k != 1 else []) + list(self.names))


class Bad(Exception):
    """The operation fails at run time."""
    def __init__(self, cls, msg):
        self.cls, self.msg = cls, msg


class Unknown(Exception):
    pass


def mk(*names):
    return ("ax", tuple(Ax(n) if isinstance(n, str) else n for n in names), ())


def is_ax(sh):
    return isinstance(sh, tuple) and sh[:1] == ("ax",)


def sizes(sh):
    return () if sh == () else sh[1]


def hist(sh):
    return () if sh == () else sh[2]


def make(sz, h=()):
    return ("ax", tuple(sz), tuple(sorted(set(h), key=repr)))


def size(x):
    return isinstance(x, (int, Ax)) and not isinstance(x, bool)


def mul(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a * b
    ka, na = (a.k, a.names) if isinstance(a, Ax) else (a, ())
    kb, nb = (b.k, b.names) if isinstance(b, Ax) else (b, ())
    if ka * kb == 0:
        return 0
    return Ax(*na, *nb, k=ka * kb)


def prod(xs):
    r = 1
    for x in xs:
        r = mul(r, x)
    return r


def div(a, b):
    """a / b where exact, else None."""
    ka, na = (a.k, list(a.names)) if isinstance(a, Ax) else (a, [])
    kb, nb = (b.k, b.names) if isinstance(b, Ax) else (b, ())
    for n in nb:
        if n not in na:
            return None
        na.remove(n)
    if kb == 0 or ka % kb:
        return None
    return Ax(*na, k=ka // kb) if na else ka // kb


def bcast_sizes(xs, ys):
    n = max(len(xs), len(ys))
    xs = (1,) * (n - len(xs)) + tuple(xs)
    ys = (1,) * (n - len(ys)) + tuple(ys)
    out = []
    for x, y in zip(xs, ys):
        if x == y or y == 1:
            out.append(x)
        elif x == 1:
            out.append(y)
        else:
            raise Bad("ValueError", f"Incompatible shapes for broadcasting: {xs} and {ys}")
    return tuple(out)


def bcast(*shs):
    sz, h = (), ()
    for s in shs:
        sz = bcast_sizes(sz, sizes(s))
        h = h + hist(s)
    return make(sz, h)


def broadcast_to(sh, target):
    if bcast_sizes(sizes(sh), target) != tuple(target):
        raise Bad("ValueError", f"Incompatible shapes for broadcasting: {sizes(sh)} and requested shape {target}")
    return make(target, hist(sh))


def norm_axis(i, n):
    if not isinstance(i, int) or not -n <= i < n:
        raise Bad("ValueError", f"axis {i!r} is out of bounds for array of dimension {n}")
    return i % n


def permute(sz, perm):
    n = len(sz)
    p = [norm_axis(i, n) for i in perm]
    if sorted(p) != list(range(n)):
        raise Bad("ValueError", "axes don't match array")
    return tuple(sz[i] for i in p)


def transpose(sh, perm=None):
    sz = sizes(sh)
    return make(sz[::-1] if perm is None else permute(sz, perm), hist(sh))


def swapaxes(sh, a, b):
    sz = list(sizes(sh))
    a, b = norm_axis(a, len(sz)), norm_axis(b, len(sz))
    sz[a], sz[b] = sz[b], sz[a]
    return make(sz, hist(sh))


def moveaxis(sh, a, b):
    sz = list(sizes(sh))
    a, b = norm_axis(a, len(sz)), norm_axis(b, len(sz))
    x = sz.pop(a)
    sz.insert(b, x)
    return make(sz, hist(sh))


def reshape(sh, target):
    sz = sizes(sh)
    target = (target,) if size(target) else target
    target = list(target)
    if not all(size(x) for x in target):
        raise Unknown(f"reshape to {target!r}")
    if sum(1 for x in target if x == -1) > 1:
        raise Bad("ValueError", "can only specify one unknown axis size with a value of '-1'")
    tot = prod(sz)
    if -1 in target:
        i = target.index(-1)
        q = div(tot, prod(target[:i] + target[i + 1:]))
        if q is None:
            raise Bad("TypeError", f"cannot reshape array of shape {sz} into shape {target}")
        target[i] = q
    if prod(target) != tot:
        raise Bad("TypeError", f"cannot reshape array of shape {sz} into shape {target}")
    if tuple(target) == tuple(sz):
        return sh
    # inserting or removing axes of size one does not reorder elements
    if [x for x in target if x != 1] == [x for x in sz if x != 1]:
        return make(target, hist(sh))
    frm, to, h = tuple(x for x in sz if x != 1), tuple(x for x in target if x != 1), hist(sh)
    for e in h:
        if e[0] == "reshape" and e[2] == frm:          # the elements stay in row-major order throughout
            frm, h = e[1], tuple(x for x in h if x != e)
    return make(target, h + ((("reshape", frm, to),) if frm != to else ()))


def index(sh, idx):
    """Basic and simple advanced indexing of the batch axes."""
    sz = list(sizes(sh))
    if not isinstance(idx, tuple):
        idx = (idx,)
    nell = sum(1 for i in idx if i is Ellipsis)
    if nell > 1:
        raise Bad("IndexError", "an index can only have a single ellipsis ('...')")
    used = 0
    for i in idx:
        if i is None or i is Ellipsis:
            continue
        used += getattr(i, "naxes", 1)
    if used > len(sz):
        raise Bad("IndexError", f"Too many indices: {len(sz)}-dimensional array indexed with {used} regular indices")
    if not nell:
        idx = idx + (Ellipsis,)
    out, h, j = [], list(hist(sh)), 0
    for i in idx:
        if i is Ellipsis:
            n = len(sz) - used
            out += sz[j:j + n]
            j += n
        elif i is None:
            out.append(1)
        elif isinstance(i, slice):
            s = sz[j]
            j += 1
            if i == slice(None):
                out.append(s)
            elif isinstance(s, int):
                if not all(isinstance(x, (int, type(None))) for x in (i.start, i.stop, i.step)):
                    raise Unknown("slice bounds")
                out.append(len(range(*i.indices(s))))
            else:
                out.append(Ax(f"{s!r}[{_b(i.start)}:{_b(i.stop)}:{_b(i.step)}]"))
        elif isinstance(i, int) and not isinstance(i, bool):
            s = sz[j]
            j += 1
            if s != 1:
                h.append(("at", s, i))
        elif isinstance(i, Sel):
            s = sz[j:j + i.naxes]
            j += i.naxes
            if sum(isinstance(k, Sel) for k in idx) > 1:
                raise Unknown("several index arrays")
            out += [Ax(f"{'*'.join(map(repr, s))}[{i.key}]")]
        else:
            raise Unknown(f"index {i!r}")
    return make(out, h)


class Sel:
    """An index array: a boolean mask over naxes axes, or a one-dimensional array of integers."""
    def __init__(self, key, naxes=1):
        self.key, self.naxes = key, naxes

    def __repr__(self):
        return f"Sel({self.key},{self.naxes})"


def _b(x):
    return "" if x is None else str(x)
