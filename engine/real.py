"""Comparison of terms in real arithmetic: polynomial normal forms with a few
trigonometric identities, wrapped angles, absolute values and order facts."""
import math
from fractions import Fraction as Q
from dom import *

PI = Q(math.pi)
TAU = 2 * PI


def canon_c(c):
    """Coefficients that agree to 12 digits are the same."""
    if c == 0:
        return c
    f = float(c)
    g = float('%.12g' % f)
    return Q(g)


_cache = {}


def rpoly(t):
    r = _cache.get(t)
    if r is None:
        r = clean(_rpoly(t))
        _cache[t] = r
    return r


def clean(p):
    out = {}
    for m, c in p.items():
        c = canon_c(c)
        if abs(c) > Q(1, 10 ** 14):
            out[m] = c
    return out


def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v and abs(v) > Q(1, 10 ** 13):
            r[m] = v
        else:
            r.pop(m, None)
    return r


def pscale(a, k):
    return {m: c * k for m, c in a.items()}


def pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = tuple(sorted(m + n))
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return trig2(r)


def trig2(p):
    """sin(u)^2 -> (1 - cos 2u)/2 in every monomial."""
    again = True
    while again:
        again = False
        for m in list(p):
            for i, a in enumerate(m):
                if a.op == 'sin' and i + 1 < len(m) and m[i + 1] is a:
                    c = p.pop(m)
                    rest = m[:i] + m[i + 2:]
                    p = padd(p, {rest: c / 2})
                    u2 = pscale(topoly(a.args[0]), 2)
                    co = rapp('cos', [u2])
                    p = padd(p, pmul({rest: -c / 2}, co))
                    again = True
                    break
            if again:
                break
    return p


def topoly(nfterm):
    if nfterm.op == 'nf':
        return {m: c for m, c in nfterm.args}
    return rpoly(nfterm)


def pf(p):
    return F('nf', tuple(sorted(((tuple(m), canon_c(c)) for m, c in p.items()), key=lambda x: tuple(y.id for y in x[0]))))


def lead(p):
    return min(p, key=lambda m: (len(m) == 0, tuple(x.id for x in m))) if p else None


def neglead(p):
    k = lead(p)
    return k is not None and p[k] < 0


def rapp(op, polys):
    """Polynomial of op applied to polynomials."""
    p = polys[0]
    if op in ('sin', 'cos', 'asin', 'sqrt', 'abs') and (not p or list(p) == [()]):
        v = float(p.get((), 0))
        try:
            r = {'sin': math.sin, 'cos': math.cos, 'asin': math.asin, 'sqrt': math.sqrt, 'abs': abs}[op](v)
            return {(): Q(r)} if r else {}
        except ValueError:
            pass
    s = 1
    if op in ('sin', 'asin', 'tan', 'atan', 'wrap', 'sgn') and neglead(p):
        p = pscale(p, -1)
        s = -1
    if op in ('cos', 'abs') and neglead(p):
        p = pscale(p, -1)
    if op == 'cos' and len(p) == 1:
        (m, c), = p.items()
        if len(m) == 1 and m[0].op == 'abs':
            return rapp('cos', [pscale(topoly(m[0].args[0]), c)])
    if op == 'abs' and len(p) == 1:
        (m, c), = p.items()
        if len(m) == 1 and m[0].op in ('abs', 'sqrt'):
            return {m: abs(c)}
        if abs(c) != 1:
            return pscale(rapp('abs', [{m: Q(1)}]), abs(c))
    if op == 'wrap':
        p = unwrap(p)
        if neglead(p):
            p = pscale(p, -1)
            s = -s
        if not p:
            return {}
    return {(F(op, tuple([pf(p)] + [pf(x) for x in polys[1:]])),): Q(s)}


def unwrap(p):
    """Representative of an angle modulo one turn."""
    out = {}
    for m, c in p.items():
        if len(m) == 1 and m[0].op == 'wrap' and c.denominator == 1:
            out = padd(out, pscale(topoly(m[0].args[0]), c))
        else:
            out = padd(out, {m: c})
    k = out.get((), Q(0))
    if k:
        f = float(k) / (2 * math.pi)
        k2 = k - round(f) * TAU
        if abs(k2) < Q(1, 10 ** 9):
            out.pop((), None)
        else:
            out[()] = k2
    return out


def wrapfix(p, facts=None):
    """rem(q, tau) -+ pi  ->  wrap(q - pi)."""
    for m in list(p):
        if len(m) == 1 and m[0].op == 'rem' and m in p:
            q, t = topoly(m[0].args[0]), topoly(m[0].args[1])
            if list(t) != [()] or abs(float(t[()]) - 2 * math.pi) > 1e-9:
                continue
            c = p[m]
            sg = rapp('sgn', [{m: Q(1)}])
            (sm, sc), = sg.items()
            w = None
            if sm in p and abs(float(p[sm] * sc + c * PI)) < 1e-9 * abs(float(c)):
                w = dict(p)
                w.pop(sm)
                w.pop(m)
            elif facts is not None:
                k = float(p.get((), 0) / c)
                r = pf({m: Q(1)})
                if facts.le(ZERO, m[0]) and abs(k + math.pi) < 1e-9:
                    w = dict(p)
                elif facts.le(m[0], ZERO) and abs(k - math.pi) < 1e-9:
                    w = dict(p)
                if w is not None:
                    w.pop(m)
                    w.pop((), None)
            if w is not None:
                p = padd(w, pscale(rapp('wrap', [padd(q, {(): -PI})]), c))
    return p


def _rpoly(t):
    o = t.op
    if o == 'c':
        v = t.args[0]
        if v != v or math.isinf(v):
            return {(t,): Q(1)}
        return {(): Q(v)} if v else {}
    if o == 'nf':
        return {m: c for m, c in t.args}
    if o == 'add':
        return wrapfix(padd(rpoly(t.args[0]), rpoly(t.args[1])))
    if o == 'sub':
        return wrapfix(padd(rpoly(t.args[0]), rpoly(t.args[1]), -1))
    if o == 'neg':
        return pscale(rpoly(t.args[0]), -1)
    if o == 'mul':
        return pmul(rpoly(t.args[0]), rpoly(t.args[1]))
    if o == 'div':
        d = rpoly(t.args[1])
        n = rpoly(t.args[0])
        if len(d) == 1 and () in d:
            return pscale(n, 1 / d[()])
        if d:
            k = lead(d)
            c = d[k]
            d = pscale(d, 1 / c)
            return pmul(n, {(F('inv', (pf(d),)),): 1 / c})
        return {(t,): Q(1)}
    if o == 'powi' and isinstance(t.args[1], int) and 0 <= t.args[1] <= 4:
        r = {(): Q(1)}
        b = rpoly(t.args[0])
        for _ in range(t.args[1]):
            r = pmul(r, b)
        return r
    if o == 'rem':
        return {(F('rem', (pf(rpoly(t.args[0])), pf(rpoly(t.args[1])))),): Q(1)}
    if o == 'atan2':
        y, x = rpoly(t.args[0]), rpoly(t.args[1])
        if len(y) == 1 and len(x) == 1:
            (ym, yc), = y.items()
            (xm, xc), = x.items()
            if yc == 1 and xc == 1 and len(ym) == len(xm) == 1 and ym[0].op == xm[0].op == 'sqrt':
                s = padd(topoly(ym[0].args[0]), topoly(xm[0].args[0]))
                if list(s) == [()] and s[()] == 1:
                    return rapp('asin', [y])
        return {(F('atan2', (pf(y), pf(x))),): Q(1)}
    if o in ('sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'sqrt', 'abs', 'sgn', 'wrap'):
        return rapp(o, [rpoly(t.args[0])])
    return {(t,): Q(1)}


def under(facts, p):
    """Resolve abs, sgn and wrapped angles whose sign the facts determine."""
    for _ in range(4):
        q = {}
        ch = False
        for m, c in p.items():
            for i, a in enumerate(m):
                if a.op in ('abs', 'sgn'):
                    s = sign(facts, topoly(a.args[0]))
                    if s:
                        rest = {m[:i] + m[i + 1:]: c * s}
                        q = padd(q, pmul(rest, topoly(a.args[0])) if a.op == 'abs' else rest)
                        ch = True
                        break
            else:
                q = padd(q, {m: c})
        p = wrapfix(q, facts)
        if not ch:
            break
    return p


def sign(facts, p):
    """1 / -1 if the facts give the (weak) sign of p, else 0."""
    if leq0(facts, pscale(p, -1)):
        return 1
    if leq0(facts, p):
        return -1
    return 0


def tof(m):
    """Monomial as a comparable term."""
    return m[0] if len(m) == 1 else pf({m: Q(1)})


def leq0(facts, p):
    """Provably p <= 0?"""
    if not p:
        return True
    if list(p) == [()]:
        return p[()] <= 0
    a, b = split(p)
    if facts.le(a, b):
        return True
    # all monomials have a known sign
    if all(c < 0 and nonnegm(facts, m) for m, c in p.items()):
        return True
    # pair up positive and negative linear terms
    pos = [(m, c) for m, c in p.items() if c > 0]
    neg = [(m, -c) for m, c in p.items() if c < 0]
    if len(p) <= 6 and all(len(m) <= 1 for m in p):
        return match(facts, pos, neg)
    return False


def match(facts, pos, neg):
    if not pos:
        return all(nonnegm(facts, m) for m, c in neg)
    m, c = pos[0]
    for j, (n, d) in enumerate(neg):
        if d == c and facts.le(tof(m) if m else ONE, tof(n) if n else ONE):
            if match(facts, pos[1:], neg[:j] + neg[j + 1:]):
                return True
    if m and facts.le(tof(m), ZERO):
        return match(facts, pos[1:], neg)
    return False


def nonnegm(facts, m):
    """Monomial known to be >= 0."""
    if not m:
        return True
    rest = []
    i = 0
    m = tuple(sorted(m))
    while i < len(m):
        if i + 1 < len(m) and m[i] is m[i + 1]:
            i += 2
            continue
        rest.append(m[i])
        i += 1
    return all(a.op in ('abs', 'sqrt') or facts.le(ZERO, a) for a in rest)


def split(p):
    """Terms (a, b) such that p <= 0 iff a <= b."""
    k = lead(p)
    c = p[k]
    ms = list(p)
    if len(ms) == 1:
        m = ms[0]
        t = tof(m)
        return (t, ZERO) if p[m] > 0 else (ZERO, t)
    if len(ms) == 2:
        a, b = ms
        if () in p:
            m = a if a else b
            v = const(float(-p[()] / p[m]))
            return (tof(m), v) if p[m] > 0 else (v, tof(m))
        if p[a] == -p[b]:
            return (tof(a), tof(b)) if p[a] > 0 else (tof(b), tof(a))
    q = pscale(p, 1 / abs(c))
    if q[k] < 0:
        return ZERO, pf(pscale(q, -1))
    return pf(q), ZERO


def sumsq(p):
    return bool(p) and all(c > 0 and len(m) == 2 and m[0] is m[1] for m, c in p.items())


def factored(p):
    """p is an expanded sum of squares of differences (recognised by the atom that produced it)."""
    return F('sq', (pf(p),)) in _squares


_squares = set()


def note_square(t):
    """Register non-negative polynomials: sums of squares as they are built."""
    _squares.add(F('sq', (pf(rpoly(t)),)))


def rcmp(facts, a, b):
    """Canonical terms (x, y) with a <= b iff x <= y (real arithmetic)."""
    if a in (INF, NINF) or b in (INF, NINF):
        return a, b
    p = under(facts, padd(rpoly(a), rpoly(b), -1))
    # clear denominators of known sign
    for _ in range(4):
        d = None
        for m in p:
            for x in m:
                if x.op == 'inv':
                    d = x
                    break
            if d is not None:
                break
        if d is None:
            break
        dp = topoly(d.args[0])
        if not positive(facts, dp):
            break
        q = {}
        for m, c in p.items():
            if d in m:
                i = m.index(d)
                q = padd(q, {m[:i] + m[i + 1:]: c})
            else:
                q = padd(q, pmul({m: c}, dp))
        p = q
    if not p:
        return ZERO, ZERO
    if list(p) == [()]:
        return (const(float(p[()])), ZERO)
    if leq0(facts, p):
        x, y = split(p)
        facts.add_le(x, y)
        return x, y
    if leq0(facts, pscale(p, -1)):
        x, y = split(p)
        facts.add_le(y, x)
        return x, y
    return split(p)


def positive(facts, p):
    x, y = split(p)
    if facts.lt(y, x):
        return True
    if (facts.distinct(x, y)) and (sumsq(p) or quadnn(p)):
        return True
    return False


def quadnn(p):
    """Quadratic form sum of (x_i - y_i)^2: squares with coefficient 1, cross terms -2 between disjoint pairs."""
    sq = {}
    cross = []
    for m, c in p.items():
        if len(m) != 2:
            return False
        if m[0] is m[1]:
            if c <= 0:
                return False
            sq[m[0]] = c
        else:
            cross.append((m, c))
    used = set()
    for (a, b), c in cross:
        if a in used or b in used or a not in sq or b not in sq:
            return False
        if c * c > 4 * sq[a] * sq[b]:
            return False
        used.add(a)
        used.add(b)
    return True


def rsame(facts, a, b):
    if a is b:
        return True
    if a.op == 'c' and b.op == 'c':
        return abs(a.args[0] - b.args[0]) <= 1e-9 * max(1.0, abs(a.args[0])) or a.args[0] == b.args[0]
    p = under(facts, padd(rpoly(a), rpoly(b), -1))
    if not p:
        return True
    x, y = split(p)
    if facts.eq(x, y):
        return True
    return not deep(facts, p)


def deep(facts, p):
    """Substitute equalities x == y known from the facts (towards the smaller term) and re-normalise."""
    sub = {}
    terms = [t for t in facts.terms() if t.op in ('v',)]
    for t in terms:
        for o in terms:
            if o.id < t.id and facts.eq(t, o):
                sub[t] = o
                break
    for t in terms:
        for o in facts.terms():
            if isc(o) and facts.eq(t, o):
                sub[t] = o
    if not sub:
        return p
    q = rpoly(rsubst(pf(p), sub))
    return under(facts, q)


def rsubst(t, sub):
    r = sub.get(t)
    if r is not None:
        return r
    if t.op == 'c' or t.op == 'v':
        return t
    if t.op == 'nf':
        acc = ZERO
        for m, c in t.args:
            x = const(float(c))
            for a in m:
                x = mul(x, rsubst(a, sub))
            acc = add(acc, x)
        return acc
    if t.op == 'inv':
        return div(ONE, rsubst(t.args[0], sub))
    if t.op in ('euc', 'sph'):
        return shapeterm(t.op, t.args[0], tupmap(t.args[1], lambda x: rsubst(x, sub)))
    args = tuple(rsubst(a, sub) if isinstance(a, F) else a for a in t.args)
    return {'add': add, 'sub': sub_, 'mul': mul, 'div': div, 'neg': neg}.get(t.op, lambda *x: F(t.op, x))(*args)


def sub_(a, b):
    return sub(a, b)
