"""Looks for an assignment of the variables that satisfies the facts of a path and separates two terms.

Used only on obligations the normal forms could not discharge, so that incompleteness of the
normal forms never becomes an alarm: without a separating assignment nothing is reported."""
import math
import random
import zlib
import interp
from dom import *

EPS = 1e-9
OPAQUE = [False]     # set when a crate-level distance had to be treated as uninterpreted


class Bad(Exception):
    pass


def hav(x1, y1, x2, y2):
    a = math.sin((y2 - y1) / 2) ** 2 + math.cos(y1) * math.cos(y2) * math.sin((x2 - x1) / 2) ** 2
    return 2 * math.asin(math.sqrt(min(1.0, max(0.0, a))))


def wrapang(v):
    return math.remainder(v, 2 * math.pi)


def pl(p, a, b, dist):
    (x, y), (x1, y1), (x2, y2) = p, a, b
    c, d = x2 - x1, y2 - y1
    ls = c * c + d * d
    if ls == 0:
        return dist(x, y, x1, y1)
    t = ((x - x1) * c + (y - y1) * d) / ls
    t = min(1.0, max(0.0, t))
    return dist(x, y, x1 + t * c, y1 + t * d)


def sph(kind, ds):
    if kind == 'pp':
        return hav(*(ds[0][1:] + ds[1][1:]))
    if kind == 'pl':
        return pl(ds[0][1:], ds[1][1], ds[1][2], hav)
    if kind == 'pr':
        (x, y), xs, ys = ds[0][1:], sorted(ds[1][1][1:]), sorted(ds[1][2][1:])
        x1, x2, y1, y2 = xs[0], xs[-1], ys[0], ys[-1]
        if x1 <= x <= x2 and y1 <= y <= y2:
            return 0.0
        if x < x1:
            return pl((x, y), (x1, y1), (x1, y2), hav)
        if x > x2:
            return pl((x, y), (x2, y1), (x2, y2), hav)
        if y < y1:
            return pl((x, y), (x1, y1), (x2, y1), hav)
        return pl((x, y), (x1, y2), (x2, y2), hav)
    return None


def gap(a1, a2, b1, b2):
    return max(0.0, b1 - a2, a1 - b2)


def box(d):
    if d[0] == 'P':
        return d[1], d[1], d[2], d[2]
    xs, ys = sorted(d[1][1:]), sorted(d[2][1:])
    return xs[0], xs[-1], ys[0], ys[-1]


def euc(ds):
    a, b = ds
    if a[0] in 'PR' and b[0] in 'PR':
        p, q = box(a), box(b)
        return math.hypot(gap(p[0], p[1], q[0], q[1]), gap(p[2], p[3], q[2], q[3]))
    if a[0] == 'L' and b[0] == 'P':
        a, b = b, a
    if a[0] == 'P' and b[0] == 'L':
        return pl(a[1:], b[1], b[2], lambda x, y, u, v: math.hypot(x - u, y - v))
    return None


def flat(d):
    if isinstance(d, float):
        return '%.7g' % (d + 0.0)
    if isinstance(d, tuple):
        if d and d[0] == 'L' and len(d) == 3:
            d = ('L',) + tuple(sorted(d[1:]))
        if d and d[0] == 'set':
            d = ('set',) + tuple(sorted(set(d[1:])))
        return '(' + ','.join(flat(x) for x in d) + ')'
    return str(d)


def opaque(op, kind, ds):
    return 0.05 + (zlib.crc32((op + kind + ' '.join(sorted(flat(d) for d in ds))).encode()) % 1000003) / 700000.0


def ev(t, env):
    r = env.get(t)
    if r is None:
        r = _ev(t, env)
        env[t] = r
    return r


def _ev(t, env):
    o = t.op
    if o == 'c':
        return t.args[0]
    if o == 'v':
        raise Bad()
    if o == 'nf':
        s = 0.0
        for m, c in t.args:
            x = float(c)
            for a in m:
                x *= ev(a, env)
            s += x
        return s
    if o in ('euc', 'sph'):
        kind, ds = t.args
        ds = tuple(num(d, env) for d in ds)
        r = sph(kind, ds) if o == 'sph' else euc(ds)
        if r is None:
            if o == 'sph':
                OPAQUE[0] = True
            return opaque(o, kind, ds)
        return r
    a = [ev(x, env) if isinstance(x, F) else x for x in t.args]
    try:
        if o == 'add':
            return a[0] + a[1]
        if o == 'sub':
            return a[0] - a[1]
        if o == 'mid':
            return (a[0] + a[1]) / 2
        if o == 'neg':
            return -a[0]
        if o == 'mul':
            return a[0] * a[1]
        if o == 'div':
            return a[0] / a[1]
        if o == 'inv':
            return 1 / a[0]
        if o == 'rem':
            return math.fmod(a[0], a[1])
        if o == 'powi':
            return a[0] ** a[1]
        if o == 'abs':
            return abs(a[0])
        if o == 'sgn':
            return math.copysign(1.0, a[0])
        if o == 'wrap':
            return wrapang(a[0])
        if o == 'sqrt':
            return math.sqrt(a[0] if a[0] > 0 or a[0] < -1e-9 else 0.0)
        if o in ('asin', 'acos'):
            x = a[0]
            if 1 < abs(x) < 1 + 1e-9:
                x = math.copysign(1.0, x)
            return getattr(math, o)(x)
        if o in ('sin', 'cos', 'tan', 'atan', 'atan2', 'exp', 'hypot'):
            return getattr(math, o)(*a)
        if o == 'd':
            raise Bad()
    except (ValueError, ZeroDivisionError, OverflowError):
        raise Bad()
    raise Bad()


def num(d, env):
    if isinstance(d, F):
        return ev(d, env)
    if isinstance(d, tuple):
        return tuple(num(x, env) for x in d)
    return d


def variables(ts):
    out = set()
    seen = set()
    work = list(ts)
    while work:
        t = work.pop()
        if isinstance(t, tuple):
            work.extend(t)
            continue
        if not isinstance(t, F) or t in seen:
            continue
        seen.add(t)
        if t.op == 'v':
            out.add(t)
        else:
            work.extend(t.args)
    return sorted(out, key=lambda t: t.id)


def samples(facts, terms, n=600, seed=1):
    """Yield assignments satisfying the facts."""
    rng = random.Random(seed)
    ft = facts.terms()
    vs = variables(list(ft) + list(terms) + [x for p in facts.ne for x in p])
    edges = []
    for a, d in facts.e.items():
        for b, s in d.items():
            edges.append((a, b, s))
    simple = [(a, b, s) for a, b, s in edges if a.op in 'vc' and b.op in 'vc']
    other = [(a, b, s) for a, b, s in edges if not (a.op in 'vc' and b.op in 'vc')]
    # equality classes
    rep0 = {v: v for v in vs}
    for a in vs:
        for b in vs:
            if a.id < b.id and facts.eq(a, b):
                x, y = a, b
                while rep0[x] is not x:
                    x = rep0[x]
                while rep0[y] is not y:
                    y = rep0[y]
                rep0[y] = x
    for k in range(n):
        interp.intime()
        rep = dict(rep0)

        def find(v):
            while rep.get(v, v) is not v:
                v = rep[v]
            return v
        if k % 3 == 2 and len(vs) > 1:
            for _ in range(rng.randint(1, 2)):
                a, b = rng.sample(vs, 2)
                if a.args[1][0] == b.args[1][0] or a.args[1][-1:] == b.args[1][-1:]:
                    rep[find(b)] = find(a)
        val = {}
        base = (rng.uniform(-2.5, 2.5), rng.uniform(-1.2, 1.2))
        scale = 10 ** -rng.uniform(0.5, 5)
        near = k % 5 == 4
        step = (0.1 * scale, 1.2 * scale) if near else (0.01, 0.6)
        # close together, products of differences are small too: satisfy every inequality clearly
        slack = 1e-13 if near else EPS
        for v in vs:
            r = find(v)
            if r not in val:
                lat = isinstance(v.args[1], str) and 'y' in v.args[1]
                span = 1.3 if lat else 2.9
                if near:
                    # everything within a small distance of one place
                    val[r] = base[lat] + scale * rng.uniform(-1, 1)
                else:
                    val[r] = rng.choice((-0.75, -0.5, 0.0, 0.25, 0.5)) if k % 4 == 1 else rng.uniform(-span, span)
        ok = False
        for _ in range(len(vs) + 3):
            ch = False
            for a, b, s in simple:
                x = a.args[0] if a.op == 'c' else val[find(a)]
                y = b.args[0] if b.op == 'c' else val[find(b)]
                if x < y - EPS or (x <= y and not s):
                    continue
                ch = True
                if b.op == 'v' and (a.op == 'c' or rng.random() < 0.5):
                    val[find(b)] = x + (rng.uniform(*step) if s else 0.0)
                elif a.op == 'v':
                    val[find(a)] = y - (rng.uniform(*step) if s else 0.0)
                elif a.op == 'c' and b.op == 'c':
                    break
            if not ch:
                ok = True
                break
        if not ok:
            continue
        env = {v: val[find(v)] for v in vs}
        try:
            for a, b, s in other:
                x, y = ev(a, env), ev(b, env)
                if not (x < y - slack if s or near else x <= y + slack):
                    ok = False
                    break
            if ok:
                for a, b in facts.ne:
                    if abs(ev(a, env) - ev(b, env)) < slack:
                        ok = False
                        break
        except Bad:
            ok = False
        if ok:
            yield env


def separate(facts, got, accept, n=4000, want=40):
    """An assignment on which got differs from every acceptable term: (env, got, [values]); else the number of agreeing samples."""
    agree = 0
    for env in samples(facts, [got] + list(accept), n):
        try:
            g = ev(got, env)
            ws = [ev(w, env) for w in accept]
        except Bad:
            continue
        if all(not close(g, w) for w in ws):
            return {v: env[v] for v in env if v.op == 'v'}, g, ws
        agree += 1
        if agree >= want:
            break
    return agree


def exceeds(facts, got, bound, n=4000, want=40):
    """An assignment with got > bound."""
    agree = 0
    for env in samples(facts, [got, bound], n):
        try:
            g, w = ev(got, env), ev(bound, env)
        except Bad:
            continue
        if g > w + 1e-7 + 1e-6 * abs(w):
            return {v: env[v] for v in env if v.op == 'v'}, g, [w]
        agree += 1
        if agree >= want:
            break
    return agree


def feasible(facts, n=3000):
    for env in samples(facts, [], n):
        return {v: env[v] for v in env if v.op == 'v'}
    return None


def close(a, b):
    if a == b:
        return True
    if math.isinf(a) or math.isinf(b) or a != a or b != b:
        return False
    return abs(a - b) <= 1e-7 + 1e-6 * max(abs(a), abs(b))
