"""Alphabets.  Boundary values are the fixed encoding boundaries of the Bitcoin
formats plus, for every integer constant that occurs in the library's current
source, that constant and its neighbours: whatever threshold the code branches
on is inside the enumerated alphabet."""
import ast
import os

from .env import REPO


def _fold(n):
    if isinstance(n, ast.Constant):
        return n.value if isinstance(n.value, (int, float)) and not isinstance(n.value, bool) else None
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
        v = _fold(n.operand)
        return -v if v is not None else None
    if isinstance(n, ast.BinOp):
        a, b = _fold(n.left), _fold(n.right)
        if a is None or b is None:
            return None
        try:
            if isinstance(n.op, ast.Add):
                return a + b
            if isinstance(n.op, ast.Sub):
                return a - b
            if isinstance(n.op, ast.Mult):
                return a * b
            if isinstance(n.op, ast.Pow) and abs(b) < 300:
                return a ** b
            if isinstance(n.op, ast.LShift) and 0 <= b < 300:
                return a << b
            if isinstance(n.op, ast.FloorDiv):
                return a // b
        except Exception:
            return None
    return None


def constants(files=None):
    out = set()
    root = os.path.join(REPO, 'bit')
    for d, _, fs in sorted(os.walk(root)):
        for f in sorted(fs):
            if not f.endswith('.py'):
                continue
            rel = os.path.relpath(os.path.join(d, f), REPO)
            if files and rel not in files:
                continue
            tree = ast.parse(open(os.path.join(d, f)).read())
            for n in ast.walk(tree):
                if isinstance(n, (ast.Constant, ast.BinOp, ast.UnaryOp)):
                    v = _fold(n)
                    if v is not None and v == v and abs(v) < 2**300:
                        out.add(int(v))
    return out


_cache = {}


def near(lo, hi, files=None, d=1, extra=()):
    """Every harvested constant +-d within [lo, hi], plus extra, sorted."""
    key = tuple(files) if files else None
    if key not in _cache:
        _cache[key] = constants(files)
    s = set(extra)
    for c in _cache[key]:
        for k in range(-d, d + 1):
            s.add(c + k)
    return sorted(x for x in s if lo <= x <= hi)


def pow2(lo, hi, bits=range(0, 64)):
    s = set()
    for b in bits:
        for k in (-1, 0, 1):
            s.add((1 << b) + k)
    return sorted(x for x in s if lo <= x <= hi)


MAXM = 21 * 10**14


def amounts(lo=1, hi=MAXM, files=None):
    s = set(near(lo, hi, files)) | set(pow2(lo, hi))
    for e in range(0, 15):
        for m in (1, 5, 9):
            for k in (-1, 0, 1):
                s.add(m * 10**e + k)
    s |= {MAXM, MAXM - 1, 546, 547, 2099999997690000}
    return sorted(x for x in s if lo <= x <= hi)
