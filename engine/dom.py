"""Numeric domains: float terms with an order graph, integer difference bounds."""


class F:
    """Interned float term."""
    __slots__ = ('op', 'args', 'id', '_own')
    _tab = {}

    def __new__(cls, op, args):
        k = (op, args)
        t = cls._tab.get(k)
        if t is None:
            t = object.__new__(cls)
            t.op = op
            t.args = args
            t.id = len(cls._tab)
            t._own = None
            cls._tab[k] = t
        return t

    def __repr__(self):
        if self.op == 'c':
            return repr(self.args[0])
        if self.op == 'v':
            return '%s.%s' % self.args
        if self.op in ('add', 'sub', 'mul', 'div', 'rem'):
            s = {'add': '+', 'sub': '-', 'mul': '*', 'div': '/', 'rem': '%'}[self.op]
            return '(%r %s %r)' % (self.args[0], s, self.args[1])
        return '%s(%s)' % (self.op, ', '.join(map(repr, self.args)))

    def __lt__(self, o):
        return self.id < o.id

    def __reduce__(self):
        return (F, (self.op, self.args))

    def owners(self):
        if self._own is None:
            if self.op == 'v':
                self._own = frozenset((self.args[0],))
            else:
                s = set()
                for a in self.args:
                    if isinstance(a, F):
                        s |= a.owners()
                    elif isinstance(a, str) and self.op == 'd':
                        s.add(a)
                    elif isinstance(a, tuple):
                        tupowners(a, s)
                self._own = frozenset(s)
        return self._own


def tupowners(a, s):
    if len(a) == 2 and a[0] == '#':
        s.add(a[1])
        return
    for x in a:
        if isinstance(x, F):
            s |= x.owners()
        elif isinstance(x, tuple):
            tupowners(x, s)


def tupmap(a, fn, tok=None):
    """Map the terms (and '#' tokens) inside a structured argument."""
    if isinstance(a, F):
        return fn(a)
    if isinstance(a, tuple):
        if len(a) == 2 and a[0] == '#':
            return ('#', tok(a[1])) if tok else a
        return resort(tuple(tupmap(x, fn, tok) for x in a))
    return a


def resort(d):
    """Normal form of a described shape after a substitution."""
    if d and d[0] == 'L' and len(d) == 3:
        a, b = d[1], d[2]
        if (b[0].id, b[1].id) < (a[0].id, a[1].id):
            return ('L', b, a)
    if d and d[0] == 'set':
        return ('set',) + tuple(sorted(set(d[1:]), key=lambda t: t.id))
    return d


def const(x):
    x = float(x)
    if x == 0.0:
        x = 0.0
    return F('c', (x,))


def var(owner, attr):
    return F('v', (owner, attr))


def isc(t):
    return t.op == 'c'


def _fold(f, *a):
    try:
        return const(f(*[x.args[0] for x in a]))
    except (ZeroDivisionError, OverflowError, ValueError):
        return None


ZERO = const(0.0)
ONE = const(1.0)
INF = const(float('inf'))
NINF = const(float('-inf'))
NAN = F('c', (float('nan'),))


def add(a, b):
    if isc(a) and isc(b):
        return const(a.args[0] + b.args[0])
    if a is ZERO:
        return b
    if b is ZERO:
        return a
    if b.op == 'neg':
        return sub(a, b.args[0])
    if a.op == 'neg':
        return sub(b, a.args[0])
    if b.id < a.id:
        a, b = b, a
    return F('add', (a, b))


def neg(a):
    if isc(a):
        return const(-a.args[0])
    if a.op == 'neg':
        return a.args[0]
    if a.op == 'sub':
        return F('sub', (a.args[1], a.args[0]))
    return F('neg', (a,))


def sub(a, b):
    if isc(a) and isc(b):
        return const(a.args[0] - b.args[0])
    if b is ZERO:
        return a
    if a is ZERO:
        return neg(b)
    if a is b:
        return ZERO
    if b.op == 'neg':
        return add(a, b.args[0])
    return F('sub', (a, b))


def mul(a, b):
    if isc(a) and isc(b):
        return const(a.args[0] * b.args[0])
    if a is ONE:
        return b
    if b is ONE:
        return a
    if isc(a) and a.args[0] == -1.0:
        return neg(b)
    if isc(b) and b.args[0] == -1.0:
        return neg(a)
    if b.id < a.id:
        a, b = b, a
    return F('mul', (a, b))


def div(a, b):
    if isc(a) and isc(b) and b.args[0] != 0:
        return const(a.args[0] / b.args[0])
    if b is ONE:
        return a
    if isc(b):
        import math
        v = b.args[0]
        if v != 0 and not math.isinf(v) and math.frexp(v)[0] in (0.5, -0.5):
            return mul(a, const(1.0 / v))
    return F('div', (a, b))


def rem(a, b):
    if isc(a) and isc(b) and b.args[0] != 0:
        import math
        return const(math.fmod(a.args[0], b.args[0]))
    return F('rem', (a, b))


def fn(name, *args):
    import math
    if all(isinstance(a, F) and isc(a) for a in args):
        table = {'sin': math.sin, 'cos': math.cos, 'sqrt': math.sqrt, 'asin': math.asin, 'acos': math.acos}
        if name in table:
            r = _fold(table[name], *args)
            if r is not None:
                return r
    return F(name, args)


def fmap(t, m, memo=None):
    """Rename owners in a term."""
    if t.op == 'c' or not any(o in m for o in t.owners()):
        return t
    if t.op == 'v':
        return F('v', (m.get(t.args[0], t.args[0]), t.args[1]))
    args = tuple(fmap(a, m) if isinstance(a, F) else
                 (tupmap(a, lambda x: fmap(x, m), lambda s: m.get(s, s)) if isinstance(a, tuple) else
                  (m.get(a, a) if isinstance(a, str) and t.op == 'd' else a)) for a in t.args)
    if t.op in ('euc', 'sph'):
        return shapeterm(t.op, *args)
    if t.op == 'add':
        return add(*args)
    if t.op == 'mul':
        return mul(*args)
    if t.op == 'mid':
        return midterm(*args)
    return F(t.op, args)


def midterm(a, b):
    """Normal form of the midpoint of a and b."""
    if a is b:
        return a
    return F('mid', (a, b) if a.id < b.id else (b, a))


def dnorm(d):
    if isinstance(d, tuple):
        return '(%s)' % ','.join(dnorm(x) for x in d)
    return repr(d)


def shapeterm(op, kind, ds):
    """Distance between described shapes; kinds with interchangeable arguments are sorted."""
    if kind in ('', 'pp', 'rr'):
        ds = tuple(sorted(ds, key=dnorm))
    return F(op, (kind, tuple(ds)))


# ---- polynomial normal form (real arithmetic), for comparing formulas ------

def poly(t):
    """dict: monomial (sorted tuple of atom F) -> coefficient (Fraction)."""
    from fractions import Fraction as Q
    if t.op == 'c':
        v = t.args[0]
        if v != v or v in (float('inf'), float('-inf')):
            return {(t,): Q(1)}
        return {(): Q(v)} if v else {}
    if t.op == 'add':
        return _padd(poly(t.args[0]), poly(t.args[1]), 1)
    if t.op == 'sub':
        return _padd(poly(t.args[0]), poly(t.args[1]), -1)
    if t.op == 'neg':
        return {m: -c for m, c in poly(t.args[0]).items()}
    if t.op == 'mul':
        return _pmul(poly(t.args[0]), poly(t.args[1]))
    if t.op == 'div':
        d = poly(t.args[1])
        if len(d) == 1 and () in d and d[()]:
            return {m: c / d[()] for m, c in poly(t.args[0]).items()}
        inv = F('inv', (nf(t.args[1]),))
        return _pmul(poly(t.args[0]), {(inv,): Q(1)})
    if t.op == 'powi' and isinstance(t.args[1], int) and 0 <= t.args[1] <= 4:
        r = {(): Q(1)}
        b = poly(t.args[0])
        for _ in range(t.args[1]):
            r = _pmul(r, b)
        return r
    a = atom(t)
    if isinstance(a, tuple):
        return {(a[1],): Q(a[0])}
    return {(a,): Q(1)}


def _padd(a, b, s):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def _pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = tuple(sorted(m + n))
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return r


def _psign(p):
    k = min(p, key=lambda m: tuple(x.id for x in m)) if p else None
    return 1 if k is None or p[k] > 0 else -1


def atom(t):
    """Normalised non-polynomial application; (sign, atom) for odd functions."""
    if t.op in ('v', 'c', 'd', 'nf'):
        return t
    args = []
    sign = 1
    for a in t.args:
        if isinstance(a, F):
            p = poly(a)
            if t.op in ('sin', 'asin', 'tan') and _psign(p) < 0:
                sign = -sign
                p = {m: -c for m, c in p.items()}
            if t.op in ('cos', 'abs') and _psign(p) < 0:
                p = {m: -c for m, c in p.items()}
            args.append(_pf(p))
        else:
            args.append(a)
    r = F(t.op, tuple(args))
    return (sign, r) if sign < 0 else r


def _pf(p):
    return F('nf', tuple(sorted((tuple(m), c) for m, c in p.items())))


def nf(t):
    return _pf(poly(t))


def same_real(a, b):
    return a is b or nf(a) is nf(b)


# ---- order facts -----------------------------------------------------------

class Facts:
    """Order graph a<=b / a<b over float terms plus difference bounds on ints.
    Values are finite or infinite but never NaN."""
    __slots__ = ('e', 'ib', 'up', 'ne')

    def __init__(self):
        self.e = {}      # a -> {b: strict}   (a <= b or a < b)
        self.ib = {}     # (a,b) -> c : a - b <= c, names or '0'
        self.ne = frozenset()

    def copy(self):
        f = Facts.__new__(Facts)
        f.e = dict(self.e)
        f.ib = dict(self.ib)
        f.ne = self.ne
        return f

    # floats
    def _succ(self, a):
        r = self.e.get(a)
        if r:
            yield from r.items()

    def reach(self, a):
        """All b with a <= b: {b: strict}."""
        best = {a: False}
        work = [a]
        while work:
            x = work.pop()
            sx = best[x]
            for y, s in self._succ(x):
                n = sx or s
                if y not in best or (n and not best[y]):
                    best[y] = n
                    work.append(y)
        return best

    def below(self, w):
        """Terms known to be at most w."""
        return [a for a in self.e if a is not w and w in self.reach(a)]

    def le(self, a, b):
        if a is b or b is INF or a is NINF:
            return True
        if isc(a) and isc(b):
            return a.args[0] <= b.args[0]
        r = self.reach(a)
        if b in r:
            return True
        if isc(b):
            return any(isc(x) and x.args[0] <= b.args[0] for x in r)
        # through constants
        cs = [x.args[0] for x in r if isc(x)]
        if cs:
            m = min(cs)
            for c in list(self.e):
                if isc(c) and c.args[0] >= m and c not in r and b in self.reach(c):
                    return True
        elif isc(a):
            for c in list(self.e):
                if isc(c) and c.args[0] >= a.args[0] and c is not a and b in self.reach(c):
                    return True
        return False

    def lt(self, a, b):
        if a is b:
            return False
        if isc(a) and isc(b):
            return a.args[0] < b.args[0]
        r = self.reach(a)
        if r.get(b):
            return True
        if isc(b):
            return any(isc(x) and (x.args[0] < b.args[0] or (s and x.args[0] <= b.args[0])) for x, s in r.items())
        cs = [(x.args[0], s) for x, s in r.items() if isc(x)]
        if isc(a):
            cs.append((a.args[0], False))
        if cs:
            for c in list(self.e):
                if isc(c):
                    for v, s in cs:
                        if c.args[0] > v or (s and c.args[0] == v):
                            if b in self.reach(c):
                                return True
                        elif c.args[0] == v and self.reach(c).get(b):
                            return True
        if (a, b) in self.ne or (b, a) in self.ne:
            return self.le(a, b)
        return False

    def eq(self, a, b):
        return a is b or (self.le(a, b) and self.le(b, a))

    def distinct(self, a, b):
        return self.lt(a, b) or self.lt(b, a) or (a, b) in self.ne or (b, a) in self.ne

    def add_le(self, a, b, strict=False):
        """Assume a<=b (a<b). False if this contradicts what is known."""
        if strict:
            if self.le(b, a):
                return False
        elif self.lt(b, a):
            return False
        if not strict and (self.le(a, b)):
            return True
        if strict and self.lt(a, b):
            return True
        d = dict(self.e.get(a, ()))
        d[b] = strict or d.get(b, False)
        self.e[a] = d
        return True

    def add_eq(self, a, b):
        return self.add_le(a, b) and self.add_le(b, a)

    def terms(self):
        s = set()
        for a, d in self.e.items():
            s.add(a)
            s.update(d)
        return s

    # ints
    def ibound(self, a, b):
        """Least known c with a - b <= c, or None."""
        if a == b:
            return 0
        dist = {b: 0}
        # shortest path b -> a along edges (x,y): x - y <= c, i.e. from y to x
        for _ in range(12):
            ch = False
            for (x, y), c in self.ib.items():
                if y in dist and (x not in dist or dist[y] + c < dist[x]):
                    dist[x] = dist[y] + c
                    ch = True
            if not ch:
                break
        return dist.get(a)

    def iassume(self, a, b, c):
        o = self.ibound(b, a)
        if o is not None and o + c < 0:
            return False
        n = self.ibound(a, b)
        if n is None or c < n:
            self.ib[(a, b)] = c
        return True

    def inames(self):
        s = set()
        for a, b in self.ib:
            s.add(a)
            s.add(b)
        return s


class Lin:
    """Integer sym + k."""
    __slots__ = ('s', 'k')

    def __init__(self, s, k=0):
        self.s = s
        self.k = k

    def __repr__(self):
        return self.s if not self.k else '%s%+d' % (self.s, self.k)

    def __eq__(self, o):
        return isinstance(o, Lin) and o.s == self.s and o.k == self.k

    def __hash__(self):
        return hash((self.s, self.k))


def isplit(v):
    if isinstance(v, Lin):
        return v.s, v.k
    return '0', v


def imk(s, k):
    return k if s == '0' else Lin(s, k)
