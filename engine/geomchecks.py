"""Checks of the pure geometry functions (C14-C22) against specifications."""
import math
import re
from pure import *
from refute import separate, exceeds, feasible
import refute

SHAPES = ('Point', 'Line', 'LineString', 'Polygon', 'Rect')
OPENED = re.compile(r'\b[dn]\d+\b')
LOW = {'Point': 'point', 'Line': 'line', 'LineString': 'linestring', 'Polygon': 'polygon', 'Rect': 'rect'}
SPH = {'pp': 'vp_s_pt_pt', 'pl': 'vp_s_pt_line', 'ps': 'vp_s_pt_linestring', 'pg': 'vp_s_pt_poly', 'pr': 'vp_s_pt_rect',
       'rr': 'vp_s_rect_rect'}


class Failure:
    def __init__(self, text, certain):
        self.text = text
        self.certain = certain


def trail(st):
    t = [str(x) for x in st.trail()]
    t = [x if len(x) < 160 else x[:157] + '...' for x in t]
    return ' ; '.join(t[-8:]) or 'no assumptions'


def related(st, text):
    """The path or the value mentions an element taken from a sequence of unknown length. Which element it was, and what was
    known of it, is lost where the sequence is summarised again, so a difference from the template need not be one."""
    return OPENED.search(text) is not None or any(OPENED.search(str(x)) for x in st.trail())


def showenv(w):
    return ', '.join('%s=%.6g' % ('%s.%s' % v.args if isinstance(v.args[0], str) else 'd', x)
                     for v, x in sorted(w.items(), key=lambda p: p[0].id))


def sphfns(p):
    """Instances of the public spherical functions: inst number -> kind."""
    r = {}
    for kind, root in SPH.items():
        n = p.roots.get(root)
        if n is None:
            continue
        for b in p.insts[n]['blocks']:
            t = b['t']
            if t[0] == 'call' and 'i' in t[1] and 'quadtree::' in p.insts[t[1]['i']]['path']:
                r[t[1]['i']] = kind
    return r


def cut(p, *kinds):
    return {n: k for n, k in sphfns(p).items() if k in kinds}


def unres(p, ev, st, v):
    """('Ok', x) / ('Err', name) / ('Some', x) / ('None',) / ('val', x)."""
    if isinstance(v, Agg) and v.ty is not None:
        k = p.types[v.ty]['k']
        if k[0] == 'adt' and k[1] == 'core::result::Result':
            if v.var == 0:
                return ('Ok', v.f[0])
            return ('Err', errname(p, v.f[0]))
        if k[0] == 'adt' and k[1] == 'core::option::Option':
            return ('Some', v.f[0]) if v.var == 1 else ('None',)
    return ('val', v)


def errname(p, e):
    if isinstance(e, Agg):
        info = p.adtinfo(e.ty)
        return info['variants'][e.var]['name']
    return repr(e)


def compare(s, got, accepts):
    """None if got is one of the acceptable values, else a Failure."""
    fl = [a for a in accepts if isinstance(a, F)]
    if not isinstance(got, F):
        return Failure('result %r is not a number' % (got,), True)
    for a in fl:
        if real.rsame(s.facts, got, a):
            return None
    refute.OPAQUE[0] = False
    r = separate(s.facts, got, fl)
    if isinstance(r, tuple):
        w, g, ws = r
        return Failure('returns %s where %s is required, e.g. at %s (%.9g instead of %s)' %
                       (brief(got), ' or '.join(brief(a) for a in fl), showenv(w), g, ' or '.join('%.9g' % x for x in ws)),
                       not refute.OPAQUE[0])
    return Failure('cannot relate %s to %s (%d agreeing samples)' % (brief(got), ' or '.join(brief(a) for a in fl), r), None)


def brief(t):
    s = repr(t)
    return s if len(s) < 200 else s[:197] + '...'


def judge(p, R, outs, spec, wrap='val'):
    """Compare every outcome with spec(state) -> list of F / ('Err', name). Returns (obligations, failures)."""
    n = 0
    fails = []
    if not outs:
        w = Failure('no path through the function returns', True)
        return 1, [w]
    for o in outs:
        if o.kind == 'panic':
            n += 1
            w = feasible(o.st.facts)
            fails.append(Failure('panics (%s) when %s' % (o.val, trail(o.st)), True if w is not None and not o.st.imp else None))
            continue
        for s, acc in cells(o.st, spec):
            n += 1
            u = unres(p, R.ev, s, o.val)
            errs = [a for a in acc if isinstance(a, tuple)]
            vals = [a for a in acc if isinstance(a, F)]
            if u in errs:
                continue
            if u[0] == 'Err' or (u[0] in ('Ok', 'val') and not vals):
                fails.append(Failure('returns %s where %s is required (%s)' % (
                    u[1] if u[0] == 'Err' else brief(u[1]), ' or '.join(map(str, acc)), trail(s)), None if s.imp else True))
                continue
            f = compare(s, u[1], vals)
            if f is not None:
                f.text += ' [%s]' % trail(s)
                if s.imp:
                    f.certain = None
                fails.append(f)
    return n, fails


def settle(rep, label, key, attempts):
    """Run attempts (callables -> (Root, outs, n, fails)) from coarse to fine until one discharges everything."""
    last = None
    note = []
    for a in attempts:
        try:
            R, npaths, n, fails = a()
        except Unsupported as e:
            note.append(str(e))
            continue
        rep.used(R.p, R.ev, label, npaths)
        if not fails:
            rep.ok(n)
            return True
        last = (n, fails)
        if any(f.certain is True for f in fails):
            # a definite counterexample does not depend on the abstraction
            break
    if last is None:
        rep.unsure('%s: %s' % (label, '; '.join(note)[:300]))
        return False
    n, fails = last
    rep.ok(n - len(fails))
    sure = [f for f in fails if f.certain is True]
    if not sure and not note:
        sure = [f for f in fails if f.certain is False]
    if sure:
        rep.bad(key, '%s: %s' % (label, sure[0].text))
        for f in fails[1:]:
            rep.obligations += 1
        return False
    for f in fails:
        rep.unsure('%s: %s' % (label, f.text[:300]))
    return False


def attempt(p, root, argspec, spec, cuts, budget=1500000):
    def go():
        R = Root(p, root, cuts, budget)
        args = [R.arg(i, nm, sh) if not callable(sh) else sh(R, R.argty(i), nm) for i, (nm, sh) in enumerate(argspec)]
        outs = R.run(args)
        n, fails = judge(p, R, outs, lambda s: spec(R, s, args), root)
        return R, len(outs), n, fails
    return go


# ---- shapes ----------------------------------------------------------------

def dsc(R, s, a):
    return desc(R.ev, s, a)


def rectof(R, s, a):
    while isinstance(a, (Ptr, VRef)):
        a = R.ev.deref(s, a)
    if short(R.p, a.ty) in ('Geometry', 'GeometryRef'):
        return rectof(R, s, a.f[0])
    (x1, y1), (x2, y2) = a.f[0].f, a.f[1].f
    return x1, y1, x2, y2


def maxt(s, a, b):
    return b if s.decide_le(a, b) else a


def gap1(s, a1, a2, b1, b2):
    """Distance of two intervals."""
    if s.decide_lt(a2, b1):
        return sub(b1, a2)
    if s.decide_lt(b2, a1):
        return sub(a1, b2)
    return ZERO


def spec_gap(R, s, a, b):
    p, q = rectof(R, s, a), rectof(R, s, b)
    dx = gap1(s, p[0], p[2], q[0], q[2])
    dy = gap1(s, p[1], p[3], q[1], q[3])
    if dx is ZERO:
        return [dy]
    if dy is ZERO:
        return [dx]
    return [hyp(dx, dy)]


def spec_euc(R, s, a, b):
    da, db = dsc(R, s, a), dsc(R, s, b)
    out = [eucterm(da, db)]
    if da[0] == 'R' and db[0] == 'R':
        out += spec_gap(R, s, a, b)
    return out


def ptof(R, s, a):
    d = dsc(R, s, a)
    return d[1], d[2]


def pp(R, s, x1, y1, x2, y2):
    """Spherical point distance: cut term or formula."""
    if 'pp' in R.hooks.cut.values():
        return sphterm('pp', (('P', x1, y1), ('P', x2, y2)))
    return hav(x1, y1, x2, y2)


def hav(x1, y1, x2, y2):
    h = const(0.5)
    s1 = fn('sin', mul(h, sub(y2, y1)))
    s2 = fn('sin', mul(h, sub(x2, x1)))
    a = add(mul(s1, s1), mul(mul(fn('cos', y1), fn('cos', y2)), mul(s2, s2)))
    return mul(const(2.0), fn('asin', fn('sqrt', a)))


def seg(R, s, p, a, b):
    """Acceptable values for the distance of point p to segment a-b."""
    if 'pl' in R.hooks.cut.values():
        return [sphterm('pl', (('P',) + p, resort(('L', a, b))))]
    (x, y), (x1, y1), (x2, y2) = p, a, b
    c, d = sub(x2, x1), sub(y2, y1)
    ls = add(mul(c, c), mul(d, d))
    dot = add(mul(sub(x, x1), c), mul(sub(y, y1), d))
    if s.decide_eq(ls, ZERO):
        return [pp(R, s, x, y, x1, y1), pp(R, s, x, y, x2, y2)]
    t = div(dot, ls)
    if s.decide_lt(t, ZERO):
        return [pp(R, s, x, y, x1, y1)]
    if s.decide_lt(ONE, t):
        return [pp(R, s, x, y, x2, y2)]
    return [pp(R, s, x, y, add(x1, mul(t, c)), add(y1, mul(t, d)))]


def spec_pr(R, s, a, b):
    x, y = ptof(R, s, a)
    x1, y1, x2, y2 = rectof(R, s, b)
    left, right = s.decide_lt(x, x1), s.decide_lt(x2, x)
    below, above = s.decide_lt(y, y1), s.decide_lt(y2, y)
    if not (left or right or below or above):
        return [ZERO]
    if left:
        return seg(R, s, (x, y), (x1, y1), (x1, y2))
    if right:
        return seg(R, s, (x, y), (x2, y1), (x2, y2))
    if below:
        return seg(R, s, (x, y), (x1, y1), (x2, y1))
    return seg(R, s, (x, y), (x1, y2), (x2, y2))


def spec_rr(R, s, a, b):
    p, q = rectof(R, s, a), rectof(R, s, b)
    xo = s.decide_le(q[0], p[2]) and s.decide_le(p[0], q[2])
    yo = s.decide_le(q[1], p[3]) and s.decide_le(p[1], q[3])
    if xo and yo:
        return [ZERO]
    if xo:
        return [sub(q[1], p[3])] if s.decide_lt(p[3], q[1]) else [sub(p[1], q[3])]
    da = fn('abs', F('wrap', (sub(p[2], q[0]),)))
    di = fn('abs', F('wrap', (sub(p[0], q[2]),)))
    xs = []
    if s.decide_le(da, di):
        xs.append((p[2], q[0]))
    if s.decide_le(di, da):
        xs.append((p[0], q[2]))
    ys = []
    if yo:
        lo = maxt(s, p[1], q[1])
        hi = p[3] if s.decide_le(p[3], q[3]) else q[3]
        la, ha = fn('abs', lo), fn('abs', hi)
        if s.decide_le(la, ha):
            ys.append((hi, hi))
        if s.decide_le(ha, la):
            ys.append((lo, lo))
    else:
        ys.append((p[3], q[1]) if s.decide_lt(p[3], q[1]) else (p[1], q[3]))
    return [pp(R, s, x1, y1, x2, y2) for x1, x2 in xs for y1, y2 in ys]


def spec_sph(R, s, a, b):
    """Haversine specification for an ordered pair of shapes."""
    da, db = dsc(R, s, a), dsc(R, s, b)
    k = (da[0], db[0])
    if 'P' in k:
        if da[0] != 'P':
            a, b, da, db = b, a, db, da
        kind = {'P': 'pp', 'L': 'pl', 'S': 'ps', 'G': 'pg', 'R': 'pr'}[db[0]]
        if kind in R.hooks.cut.values():
            return [sphterm(kind, (da, db))]
        if kind == 'pp':
            return [pp(R, s, da[1], da[2], db[1], db[2])]
        if kind == 'pl':
            return seg(R, s, da[1:], db[1], db[2])
        if kind == 'pr':
            return spec_pr(R, s, a, b)
        raise Unsupported('expanded %s' % kind)
    if k == ('R', 'R'):
        if 'rr' in R.hooks.cut.values():
            return [sphterm('rr', (da, db))]
        return spec_rr(R, s, a, b)
    return [('Err', 'InvalidDistance')]


# ---- C15 / C17 -------------------------------------------------------------

def wrappers(kind):
    """(root, left is wrapper) for each distance entry."""
    for sh in SHAPES:
        yield 'vp_%s_%s_ref' % (kind, LOW[sh]), sh
        yield 'vp_%s_%s_own' % (kind, LOW[sh]), sh
    for w in ('gref', 'geom'):
        yield 'vp_%s_%s_ref' % (kind, w), None
        yield 'vp_%s_%s_own' % (kind, w), None


def pairs(kind):
    for root, sh in wrappers(kind):
        for a in ([sh] if sh else SHAPES):
            for b in SHAPES:
                yield root, a, b, sh is not None


def c15(rep, p):
    rep.rule('value of every path of every dist_euclidean implementation == planar distance of the two argument shapes '
             '(library leaf of geo, gap formula or rectangle polygon), for each ordered shape pair and wrapper')
    for root, a, b, concrete in pairs('e'):
        lab = '%s(%s, %s)' % (root[3:], a, b)
        settle(rep, lab, '%s-%s-%s' % (root, a, b),
               [attempt(p, root, [('A', None if concrete else a), ('B', b)], lambda R, s, x: spec_euc(R, s, *x), {})])


def c17(rep, p):
    rep.rule('on every ordering of the edges of two rectangles the value is 0 / the axis gap / the corner distance')

    def spec(R, s, x):
        return spec_gap(R, s, *x) + [eucterm(dsc(R, s, x[0]), dsc(R, s, x[1]))]
    for root, a, b, concrete in pairs('e'):
        if a == b == 'Rect':
            settle(rep, '%s(Rect, Rect)' % root[3:], '%s-gap' % root,
                   [attempt(p, root, [('A', None if concrete else a), ('B', b)], spec, {})])


# ---- C16 -------------------------------------------------------------------

def c16(rep, p):
    rep.rule('every path of every dist_haversine implementation returns Ok(point-shape / rectangle calculation of exactly the '
             'two arguments) for supported pairs and Err(InvalidDistance) for the others; no path recurses without progress')
    for root, a, b, concrete in pairs('h'):
        lab = '%s(%s, %s)' % (root[3:], a, b)
        arg = [('A', None if concrete else a), ('B', b)]

        def spec(R, s, x):
            return spec_sph(R, s, *x)
        at = [attempt(p, root, arg, spec, cut(p, 'pp', 'pl', 'ps', 'pg', 'pr', 'rr')),
              attempt(p, root, arg, spec, cut(p, 'pp', 'pl', 'ps', 'pg')),
              attempt(p, root, arg, spec, cut(p, 'pp', 'ps', 'pg')),
              attempt(p, root, arg, spec, cut(p, 'ps', 'pg'))]
        if 'Point' in (a, b) and ('LineString' in (a, b) or 'Polygon' in (a, b)):
            at = at[:1]
            sw = 1 if a == 'Point' else 0
            sh = b if sw else a
            at.append(lambda root=root, arg=arg, sw=sw, sh=sh: seqcase(p, root, arg, sw, sh))
        settle(rep, lab, '%s-%s-%s' % (root, a, b), at)


# ---- C18 - C20 -------------------------------------------------------------

def c18(rep, p):
    rep.rule('the returned term is, as a real formula, 2*asin(sqrt(sin^2(dlat/2)+cos*cos*sin^2(dlng/2))), for both argument orders '
             'and for equal points')

    def spec(R, s, x):
        a, b = ptof(R, s, x[0]), ptof(R, s, x[1])
        return [hav(a[0], a[1], b[0], b[1])]

    def zero(R, s, x):
        return [ZERO]
    settle(rep, 'dist_pt_pt(A, B)', 'formula', [attempt(p, 'vp_s_pt_pt', [('A', None), ('B', None)], spec, {})])
    settle(rep, 'dist_pt_pt(A, A)', 'zero', [attempt(p, 'vp_s_pt_pt', [('A', None), ('A', None)], zero, {})])
    for root in ('vp_h_point_ref', 'vp_h_point_own'):
        settle(rep, '%s(Point, Point)' % root[3:], root, [attempt(p, root, [('A', None), ('B', 'Point')], spec, {})])
    for root in ('vp_h_gref_ref', 'vp_h_gref_own', 'vp_h_geom_ref', 'vp_h_geom_own'):
        settle(rep, '%s(Point, Point)' % root[3:], root, [attempt(p, root, [('A', 'Point'), ('B', 'Point')], spec, {})])


def seqarg(names):
    """Explicit coordinate sequence."""
    def mk(R, ty, nm):
        k = R.p.types[ty]['k']
        if k[0] in ('ref', 'ptr'):
            return VRef(mk(R, k[1], nm))
        its = tuple(('e', R.mk.pt(n)) for n in names)
        return wrapls(R, ty, Seq(its, len(its)), 'LineString')
    return mk


def witarg(names, shape='LineString', where='ext'):
    """Sequence of unknown length with the named coordinates consecutively somewhere inside."""
    def mk(R, ty, nm):
        k = R.p.types[ty]['k']
        if k[0] in ('ref', 'ptr'):
            return VRef(mk(R, k[1], nm))
        if shape == 'LineString':
            return wrapls(R, ty, R.mk.seq(nm, names), shape)
        lsty = R.mk.named('geo_types::geometry::line_string::LineString')
        ext = Agg(lsty, 0, (R.mk.seq(nm + 'e', names if where == 'ext' else None),))
        rings = R.mk.rings(None, nm)
        if where == 'int':
            w = Agg(lsty, 0, (R.mk.seq(nm + 'w', names),))
            any_ = rings.items[0]
            R.st.facts.iassume('0', rings.len.s, -1)
            rings = Seq((any_, ('e', w), any_), rings.len)
        return wrapls(R, ty, (ext, rings), shape)
    return mk


def polyarg(ext, holes):
    def mk(R, ty, nm):
        k = R.p.types[ty]['k']
        if k[0] in ('ref', 'ptr'):
            return VRef(mk(R, k[1], nm))
        lsty = R.mk.named('geo_types::geometry::line_string::LineString')

        def ring(ns):
            return Agg(lsty, 0, (Seq(tuple(('e', R.mk.pt(n)) for n in ns), len(ns)),))
        return wrapls(R, ty, (ring(ext), Seq(tuple(('e', ring(h)) for h in holes), len(holes))), 'Polygon')
    return mk


def wrapls(R, ty, contents, shape):
    nm = short(R.p, ty)
    if nm in ('Geometry', 'GeometryRef'):
        for v, x in enumerate(R.p.adtinfo(ty)['variants']):
            if x['name'] == shape:
                ft = x['fields'][0][1]
                k = R.p.types[ft]['k']
                if k[0] in ('ref', 'ptr'):
                    return Agg(ty, v, (VRef(wrapls(R, k[1], contents, shape)),))
                return Agg(ty, v, (wrapls(R, ft, contents, shape),))
    if isinstance(contents, tuple):
        return Agg(ty, 0, contents)
    return Agg(ty, 0, (contents,))


def segterm(R, t):
    """(point, a, b) if t is a cut segment distance."""
    if isinstance(t, F) and t.op == 'sph' and t.args[0] == 'pl':
        d = t.args[1]
        return d[0], d[1]
    return None


def ptname(c):
    return c[0].args[0] if c[0].op == 'v' else None


def val(u):
    return u[1] if u[0] in ('Ok', 'val') else None


def anyneed(outs):
    return any(k.startswith('meets') for o in outs for k in o.st.g)


def inside(o):
    """True / False / None: the point is in the polygon on this path."""
    for k in o.st.g:
        if k.startswith('meets'):
            return o.st.g[k]
    return None


def seqcase(p, root, arg, sw, shape, cuts=('pl', 'pp')):
    """The value is the least segment distance: checked on explicit short sequences and, for a witness segment
    anywhere in a sequence of any length, as an upper bound of the result."""
    n = 0
    fails = []
    tot = 0
    R = lost = None
    cases = []
    if shape == 'LineString':
        for k in range(5):
            ns = ['E%d' % i for i in range(k)]
            cases.append((seqarg(ns), [list(zip(ns, ns[1:]))], False))
        cases.append((witarg(('W', 'X')), [[('W', 'X')]], True))
    else:
        for e, hs in (((), ()), (('E0', 'E1'), ()), (('E0', 'E1', 'E2'), ()), (('E0', 'E1'), (('H0', 'H1'),)),
                      (('E0', 'E1'), (('H0', 'H1'), ('K0', 'K1'))), ((), (('H0', 'H1', 'H2'),))):
            segs = [list(zip(r, r[1:])) for r in (e,) + hs]
            cases.append((polyarg(e, hs), segs, False))
        cases.append((witarg(('W', 'X'), 'Polygon', 'ext'), [[('W', 'X')]], True))
        cases.append((witarg(('W', 'X'), 'Polygon', 'int'), [[('W', 'X')]], True))
    for mk, segs, wit in cases:
        segs = [x for r in segs for x in r]
        try:
            R, k, m = seqone(p, root, arg, sw, shape, cuts, mk, segs, wit, fails)
        except Unsupported as e:
            # what the other cases show definitely still stands
            lost = str(e)
            continue
        tot += k
        n += m
    if lost is not None:
        if not any(f.certain is True for f in fails):
            raise Unsupported(lost)
        for f in fails:
            if f.certain is False:
                f.certain = None
    return R, tot, n + 1, fails


def seqone(p, root, arg, sw, shape, cuts, mk, segs, wit, fails):
    n = tot = 0
    R = Root(p, root, cut(p, *cuts), 2500000)
    sp = list(arg)
    sp[sw] = (sp[sw][0], mk)
    args = [R.arg(i, nm, sh) if not callable(sh) else sh(R, R.argty(i), nm) for i, (nm, sh) in enumerate(sp)]
    pt = args[1 - sw]
    if wit:
        x, y = ptof(R, R.st, pt)
        R.hooks.watched = tuple(t for a, b in segs for t in seg(R, R.st, (x, y), (var(a, 'x'), var(a, 'y')), (var(b, 'x'), var(b, 'y')))
                                if 'pl' in R.hooks.cut.values())
    outs = R.run(args)
    tot += len(outs)
    asked = shape != 'Polygon' or anyneed(outs)
    if not outs:
        fails.append(Failure('no path through the function returns', True))
        n += 1
    for o in marking(outs, fails):
        n += 1
        if o.kind == 'panic':
            fails.append(Failure('panics (%s) when %s' % (o.val, trail(o.st)), True if feasible(o.st.facts) is not None else None))
            continue
        got = val(unres(p, R.ev, o.st, o.val))
        if got is None:
            fails.append(Failure('returns an error where a distance is required', True))
            continue
        isin = inside(o) if shape == 'Polygon' else False
        if isin is None and asked:
            # decided without asking: cannot tell whether the point is inside
            if got is ZERO:
                fails.append(Failure('returns 0 without establishing that the point is in the polygon', None))
                continue
            isin = False
        elif isin is None:
            fails.append(Failure('never tests whether the point lies in the polygon: returns %s for points inside' % brief(got), True))
            continue
        if isin:
            f = compare(o.st, got, [ZERO])
            if f:
                f.text += ' (point inside the polygon)'
                fails.append(f)
            continue
        x, y = ptof(R, o.st, pt)
        specs = [[seg(R, s, (x, y), (var(a, 'x'), var(a, 'y')), (var(b, 'x'), var(b, 'y'))) for a, b in segs]
                 for s in (o.st.copy(),)][0]
        if any(o.st.facts.le(INF, a) for alt in specs for a in alt):
            # distances are finite
            continue
        for alt in specs:
            if not upper(o.st, got, alt[0]):
                w = exceeds(o.st.facts, got, alt[0])
                if isinstance(w, tuple):
                    fails.append(Failure('the result can exceed the distance to segment %s: %s > %s at %s [%s]' % (
                        brief(alt[0].args[1][1]) if alt[0].op == 'sph' else '', brief(got), '%.9g' % w[2][0], showenv(w[0]),
                        trail(o.st)), not wit))
                else:
                    fails.append(Failure('cannot bound %s by %s' % (brief(got), brief(alt[0])), None))
        if not wit:
            want = [a[0] for a in specs] + ([INF] if not specs else [])
            f = compare(o.st, got, want)
            if f:
                f.text += ' [%s]' % trail(o.st)
                fails.append(f)
        else:
            g = segterm(R, got)
            if g is None:
                fails.append(Failure('the result %s is not the distance to one of the segments' % brief(got),
                                     True if (got is ZERO or got is INF) and not related(o.st, '') else None))
            elif g[0][1] is not x or g[0][2] is not y:
                fails.append(Failure('the result %s is not measured from the point' % brief(got), None))
    return R, tot, n


def marking(outs, fails):
    """Failures found on a path that was merged with others are not certain."""
    for o in outs:
        k = len(fails)
        yield o
        if o.st.imp:
            for f in fails[k:]:
                f.certain = None


def upper(st, got, w):
    if st.facts.le(got, w) or real.rsame(st.facts, got, w):
        return True
    a, b = real.rcmp(st.facts, got, w)
    return st.facts.le(a, b)


def c19(rep, p):
    rep.rule('segment: start / end / planar projection by the projection parameter; rectangle: 0 or the facing edge; line string '
             'and polygon: result <= every (witness) segment distance and equal to one of them, 0 for points in the polygon')

    def spl(R, s, x):
        d = dsc(R, s, x[1])
        a, b = ptof(R, s, x[0]), d
        l = x[1]
        while isinstance(l, (Ptr, VRef)):
            l = R.ev.deref(s, l)
        return seg(R, s, a, l.f[0].f, l.f[1].f)

    def spr(R, s, x):
        return spec_pr(R, s, x[0], x[1])
    ab = [('A', None), ('B', None)]
    settle(rep, 'dist_pt_line', 'segment', [attempt(p, 'vp_s_pt_line', ab, spl, cut(p, 'pp')),
                                            attempt(p, 'vp_s_pt_line', ab, spl, {})])
    settle(rep, 'dist_pt_rect', 'rect', [attempt(p, 'vp_s_pt_rect', ab, spr, cut(p, 'pl', 'pp')),
                                         attempt(p, 'vp_s_pt_rect', ab, spr, cut(p, 'pp')),
                                         attempt(p, 'vp_s_pt_rect', ab, spr, {})])
    settle(rep, 'dist_pt_linestring', 'linestring', [lambda: seqcase(p, 'vp_s_pt_linestring', ab, 1, 'LineString')])
    settle(rep, 'dist_pt_poly', 'polygon', [lambda: seqcase(p, 'vp_s_pt_poly', ab, 1, 'Polygon')])


def c20(rep, p):
    rep.rule('on every ordering of the edges and wrapped longitude gaps of two rectangles the value is the specified one')

    def spec(R, s, x):
        return spec_rr(R, s, x[0], x[1])
    ab = [('A', None), ('B', None)]
    settle(rep, 'dist_rect_rect', 'rects', [attempt(p, 'vp_s_rect_rect', ab, spec, cut(p, 'pp')),
                                            attempt(p, 'vp_s_rect_rect', ab, spec, {})])


# ---- C14 -------------------------------------------------------------------

def methods(p):
    for n, t in enumerate(p.types):
        if t['k'] == ('adt', 'quadtree::geom::CalcMethod'):
            return n, [v['name'] for v in p.adtinfo(n)['variants']]
    raise Unsupported('CalcMethod not found')


def c14(rep, p):
    rep.rule('dist_geom / dist_bbox of a comparator with method M equals the Euclidean, haversine or CalcMethodNotSet '
             'specification of the comparator geometry and the given geometry or rectangle, for every shape pair; constructors keep '
             'the method they are given')
    mt, names = methods(p)
    cuts = cut(p, 'pp', 'pl', 'ps', 'pg', 'pr', 'rr')

    def spec(m):
        def f(R, s, x):
            if m == 'None':
                return [('Err', 'CalcMethodNotSet')]
            if m == 'Euclidean':
                return spec_euc(R, s, x[0], x[2])
            return spec_sph(R, s, x[0], x[2])
        return f
    for mi, m in enumerate(names):
        def meth(R, ty, nm, mi=mi):
            return Agg(ty, mi, ())
        for a in SHAPES:
            for b in SHAPES:
                arg = [('A', a), ('m', meth), ('B', b)]
                settle(rep, 'dist_geom(%s, %s, %s)' % (m, a, b), 'geom-%s-%s-%s' % (m, a, b),
                       [attempt(p, 'vp_calc_geom', arg, spec(m), cuts)])
            arg = [('A', a), ('m', meth), ('B', None)]
            settle(rep, 'dist_bbox(%s, %s)' % (m, a), 'bbox-%s-%s' % (m, a), [attempt(p, 'vp_calc_bbox', arg, spec(m), cuts)])


    def cmparg(R, ty, nm):
        k = R.p.types[ty]['k']
        if k[0] == 'ref':
            return VRef(cmparg(R, k[1], nm))
        f = [x[1] for x in R.p.adtinfo(ty)['variants'][0]['fields']]
        return Agg(ty, 0, (Lin('id', 0), R.mk.make(f[1], nm)))

    def wspec(m):
        def f(R, s, x):
            return spec(m)(R, s, (R.ev.deref(s, x[0]).f[1], x[1], x[2]))
        return f
    for mi, m in enumerate(names):
        def meth(R, ty, nm, mi=mi):
            return Agg(ty, mi, ())
        for b in SHAPES:
            settle(rep, 'with_calc.dist_geom(%s, Rect, %s)' % (m, b), 'with-geom-%s-%s' % (m, b),
                   [attempt(p, 'vp_with_calc_geom', [('A', cmparg), ('m', meth), ('B', b)], wspec(m), cuts)])
        settle(rep, 'with_calc.dist_bbox(%s, Rect)' % m, 'with-bbox-%s' % m,
               [attempt(p, 'vp_with_calc_bbox', [('A', cmparg), ('m', meth), ('B', None)], wspec(m), cuts)])
    for t in ('pt', 'bx'):
        for mi, m in enumerate(names):
            for ctor in ('new', 'from_bounds'):
                keepmethod(rep, p, t, ctor, mi, m)


def keepmethod(rep, p, t, ctor, mi, m):
    lab = '%s::%s(%s) then calc_method' % (t, ctor, m)
    key_ = 'keep-%s-%s-%s' % (t, ctor, m)
    root = 'vp_%s_%s' % (t, ctor)
    try:
        outs = construct(p, t, ctor, mi)
        n = 0
        for R, o in outs:
            if o.kind == 'panic':
                continue
            R2 = Root(p, 'vp_%s_calc_method' % t)
            R2.st = o.st
            for o2 in R2.run([VRef(o.val)]):
                n += 1
                rep.used(p, R2.ev, None, 1)
                if o2.kind == 'panic' or not isinstance(o2.val, Agg) or o2.val.var != mi:
                    rep.bad(key_, '%s: the tree reports %s' % (lab, o2.val if o2.kind == 'panic' else
                                                               p.adtinfo(o2.val.ty)['variants'][o2.val.var]['name']))
                else:
                    rep.ok()
            rep.used(p, R.ev, lab, 1)
        if not n:
            rep.bad(key_, '%s: no path through the constructor returns' % lab)
    except Unsupported as e:
        rep.unsure('%s: %s' % (lab, e))


def construct(p, t, ctor, mi, facts=None):
    """Run a tree constructor on symbolic bounds and limits: [(Root, outcome)]."""
    R = Root(p, 'vp_%s_%s' % (t, ctor), realmode=False)
    b = R.mk.make(R.argty(0), 'R')
    args = [b, Agg(R.argty(1), mi, ())]
    if ctor == 'new':
        R.st.facts.iassume('0', 'maxd', 0)
        R.st.facts.iassume('maxd', '0', 255)
        R.st.facts.iassume('0', 'maxc', 0)
        args += [Lin('maxd', 0), Lin('maxc', 0)]
    return [(R, o) for o in R.run(args)]


# ---- C21 / C22 -------------------------------------------------------------

def plain(ev, st, v):
    while isinstance(v, (Ptr, VRef)):
        v = ev.deref(st, v)
    return v


def same(ev, st, got, want, fl, path='value'):
    """Structural comparison; floats must agree by fl. Returns None or a Failure."""
    got, want = plain(ev, st, got), plain(ev, st, want)
    if isinstance(want, F):
        return fl(got, want, path)
    if isinstance(want, Agg):
        if not isinstance(got, Agg) or got.ty != want.ty or got.var != want.var or len(got.f) != len(want.f):
            return Failure('%s is %s where %s is required' % (path, what(ev, got), what(ev, want)), True)
        names = ev.p.adtinfo(want.ty)
        fs = names['variants'][want.var or 0]['fields'] if names else []
        for i, (a, b) in enumerate(zip(got.f, want.f)):
            r = same(ev, st, a, b, fl, '%s.%s' % (path, fs[i][0] if i < len(fs) else i))
            if r:
                return r
        return None
    if isinstance(want, Seq):
        if not isinstance(got, Seq):
            return Failure('%s is %s' % (path, what(ev, got)), None)
        ws = [i for i in want.items]
        if all(i[0] == 'e' for i in ws):
            if not all(i[0] == 'e' for i in got.items):
                return Failure('%s has unknown contents' % path, None)
            if len(got.items) != len(ws):
                return Failure('%s has %d elements instead of %d' % (path, len(got.items), len(ws)), True)
            for k, (a, b) in enumerate(zip(got.items, ws)):
                r = same(ev, st, a[1], b[1], fl, '%s[%d]' % (path, k))
                if r:
                    return r
            return None
        # a sequence of unknown length: every element stems from the template
        tmpl = [t for i in ws if i[0] == 'any' for t in i[1]] + [i[1] for i in ws if i[0] == 'e']
        for it in got.items:
            for g in ([it[1]] if it[0] == 'e' else it[1] if it[0] == 'any' else [None]):
                if g is None:
                    return Failure('%s has unknown contents' % path, None)
                rs = [same(ev, st, g, t, fl, path + '[_]') for t in tmpl]
                if all(rs):
                    return rs[0]
        return None
    if isinstance(want, Opq):
        if isinstance(got, Opq) and key(got) == key(want):
            return None
        return Failure('%s is %r' % (path, got), None)
    if isinstance(want, (Lin, int)):
        return None
    raise Unsupported('comparison of %r' % (want,))


def what(ev, v):
    if isinstance(v, Agg) and v.ty is not None:
        i = ev.p.adtinfo(v.ty)
        if i and v.var is not None:
            return '%s::%s' % (short(ev.p, v.ty), i['variants'][v.var]['name'])
        return ev.p.tyname(v.ty)
    return brief(v)


def rad(t):
    return mul(t, const(math.pi / 180))


def closed(v):
    """Coordinate names of a closed ring."""
    return v + v[:1]


def structure(p, shape):
    """Argument builders for a shape: (label, builder, exact)."""
    if shape == 'LineString':
        r = [('%d points' % k, seqarg(['E%d' % i for i in range(k)])) for k in range(5)]
        return r + [('any length', shape)]
    if shape == 'Polygon':
        e, h, g = ['E0', 'E1', 'E2'], ['H0', 'H1', 'H2'], ['K0', 'K1', 'K2']
        return [('no points', polyarg((), ())), ('triangle', polyarg(closed(e), ())),
                ('one hole', polyarg(closed(e), (closed(h),))), ('two holes', polyarg(closed(e), (closed(h), closed(g)))),
                ('empty hole', polyarg(closed(e), ((), closed(h))))]
    return [('', shape)]


def build(R, i, nm, sh):
    return sh(R, R.argty(i), nm) if callable(sh) else R.arg(i, nm, sh)


def c21(rep, p):
    rep.rule('the result of to_radians and the final value of to_radians_in_place equal the argument with every coordinate c replaced by '
             'the degree-to-radian conversion of c, in the same structure and order')

    def fl(s):
        def f(got, want, path):
            r = compare(s, got, [rad(want)])
            if r:
                r.text = '%s %s' % (path, r.text)
            return r
        return f
    for root, shape in [(LOW[s], s) for s in SHAPES] + [('geom', s) for s in SHAPES]:
        for lab, sh in structure(p, shape):
            for inplace in (False, True):
                rn = 'vp_%s_%s' % ('radip' if inplace else 'rad', root)

                def go(rn=rn, sh=sh, inplace=inplace, shape=shape):
                    R = Root(p, rn, {}, 2500000)
                    s0 = sh if callable(sh) else None
                    if inplace:
                        ty = R.p.types[R.argty(0)]['k'][1]
                        v = sh(R, ty, 'A') if s0 else R.mk.make(ty, 'A', shape)
                        R.st.heap['A'] = v
                        arg = Ptr(('H', 'A'), ())
                    else:
                        arg = build(R, 0, 'A', sh)
                        v = plain(R.ev, R.st, arg)
                    outs = R.run([arg])
                    n = 0
                    fails = []
                    if not outs:
                        fails.append(Failure('no path returns', True))
                    for o in outs:
                        n += 1
                        if o.kind == 'panic':
                            fails.append(Failure('panics (%s) when %s' % (o.val, trail(o.st)),
                                                 True if feasible(o.st.facts) is not None else None))
                            continue
                        for s, r in cells(o.st, lambda s: same(R.ev, s, s.heap['A'] if inplace else o.val, v, fl(s))):
                            n += 1
                            if r:
                                r.text += ' [%s]' % trail(s)
                                if r.certain and related(s, r.text):
                                    r.certain = None
                                fails.append(r)
                    return R, len(outs), max(n, len(fails)), fails
                settle(rep, '%s(%s%s)' % (rn[3:], shape, ', ' + lab if lab else ''), '%s-%s-%s' % (rn, shape, lab), [go])


def exactly(s):
    def f(got, want, path):
        if got is want:
            return None
        r = compare(s, got, [want])
        if r:
            r.text = '%s %s' % (path, r.text)
        return r
    return f


def minmax(s, xs, less):
    best = xs[0]
    for x in xs[1:]:
        if s.decide_lt(x, best) if less else s.decide_lt(best, x):
            best = x
    return best


def allcoords(ev, st, v, hull=True):
    """Coordinates of a shape whose hull is its bounding box."""
    v = plain(ev, st, v)
    nm = short(ev.p, v.ty)
    if nm in ('Geometry', 'GeometryRef'):
        return allcoords(ev, st, v.f[0])
    if nm == 'Point':
        return [v.f[0].f]
    if nm in ('Line', 'Rect'):
        return [v.f[0].f, v.f[1].f]
    if nm == 'LineString':
        return coords(v.f[0])
    if nm == 'Polygon':
        return coords(v.f[0].f[0])
    raise Unsupported(nm)


def run1(rep, p, rn, lab, key_, mkargs, chk):
    def go():
        R = Root(p, rn, {}, 2500000)
        args = mkargs(R)
        outs = R.run(args)
        n = 0
        fails = []
        if not outs:
            fails.append(Failure('no path returns', True))
        for o in outs:
            n += 1
            if o.kind == 'panic':
                fails.append(Failure('panics (%s) when %s' % (o.val, trail(o.st)), True if feasible(o.st.facts) is not None else None))
                continue
            for s, r in cells(o.st, lambda s: chk(R, s, args, o.val)):
                n += 1
                if r:
                    r.text += ' [%s]' % trail(s)
                    if r.certain and related(s, r.text):
                        r.certain = None
                    fails.append(r)
        return R, len(outs), max(n, len(fails)), fails
    settle(rep, lab, key_, [go])


def wrapped(R, s, got, kind, shape, payload):
    """got must be <kind>::<shape>(payload)."""
    g = plain(R.ev, s, got)
    if not isinstance(g, Agg) or short(R.p, g.ty) != kind:
        return Failure('the result is %s' % what(R.ev, g), None)
    name = R.p.adtinfo(g.ty)['variants'][g.var]['name']
    if name != shape:
        return Failure('the result is %s::%s where %s::%s is required' % (kind, name, kind, shape), True)
    return same(R.ev, s, g.f[0], payload, exactly(s), shape)


def c22(rep, p):
    rep.rule('conversions return the variant named after the shape with the identical contents; other kinds give UnsupportedGeometry; '
             'bounding boxes are the minima and maxima of the coordinates and missing only without coordinates')
    for shape in SHAPES:
        for lab, sh in structure(p, shape):
            tail = ', ' + lab if lab else ''
            run1(rep, p, 'vp_from_' + LOW[shape], 'Geometry::from(%s%s)' % (shape, tail), 'from-%s-%s' % (shape, lab),
                 lambda R: [build(R, 0, 'A', sh)],
                 lambda R, s, a, v: wrapped(R, s, v, 'Geometry', shape, a[0]))
            run1(rep, p, 'vp_asgeom_' + LOW[shape], '%s.as_geom()%s' % (shape, tail), 'asgeom-%s-%s' % (shape, lab),
                 lambda R: [build(R, 0, 'A', sh)],
                 lambda R, s, a, v: wrapped(R, s, v, 'GeometryRef', shape, a[0]))
            for w in ('geom', 'gref'):
                run1(rep, p, 'vp_asgeom_' + w, '%s(%s).as_geom()%s' % (w, shape, tail), 'asgeom-%s-%s-%s' % (w, shape, lab),
                     lambda R: [build(R, 0, 'A', sh)],
                     lambda R, s, a, v: wrapped(R, s, v, 'GeometryRef', shape, plain(R.ev, s, a[0]).f[0]))
                run1(rep, p, 'vp_bbox_' + w, '%s(%s).bounding_rect()%s' % (w, shape, tail), 'bbox-%s-%s-%s' % (w, shape, lab),
                     lambda R: [build(R, 0, 'A', sh)], bboxspec)
            run1(rep, p, 'vp_try_from', 'try_from(%s%s)' % (shape, tail), 'try-%s-%s' % (shape, lab),
                 lambda R: [build(R, 0, 'A', sh)],
                 lambda R, s, a, v: tried(R, s, a, v, shape))
    R = Root(p, 'vp_try_from')
    for v in p.adtinfo(R.argty(0))['variants']:
        if v['name'] not in SHAPES:
            run1(rep, p, 'vp_try_from', 'try_from(%s)' % v['name'], 'try-%s' % v['name'],
                 lambda R: [R.arg(0, 'A', v['name'])], lambda R, s, a, o: tried(R, s, a, o, None))
    for src in ('point', 'coord'):
        run1(rep, p, 'vp_aspoint_' + src, '%s.as_point()' % src, 'aspoint-' + src, lambda R: [R.arg(0, 'A')],
             lambda R, s, a, v: same(R.ev, s, v.f[0], plain(R.ev, s, a[0]) if src == 'coord' else plain(R.ev, s, a[0]).f[0], exactly(s)))


def tried(R, s, a, v, shape):
    u = unres(R.p, R.ev, s, v)
    if shape is None:
        if u == ('Err', 'UnsupportedGeometry'):
            return None
        return Failure('returns %s where UnsupportedGeometry is required' % (u[1] if u[0] == 'Err' else what(R.ev, u[1])), True)
    if u[0] != 'Ok':
        return Failure('returns %s for a supported shape' % (u[1],), True)
    return wrapped(R, s, u[1], 'Geometry', shape, a[0].f[0])


def bboxspec(R, s, a, v):
    g = plain(R.ev, s, a[0])
    cs = allcoords(R.ev, s, g)
    u = unres(R.p, R.ev, s, v)
    if cs is None:
        # unknown length: the box covers a generic coordinate
        return None
    if not cs:
        return None if u[0] == 'None' else Failure('a bounding box is returned for a shape without coordinates', True)
    if u[0] != 'Some':
        return Failure('no bounding box is returned for a shape with coordinates', True)
    r = u[1]
    want = [minmax(s, [c[0] for c in cs], True), minmax(s, [c[1] for c in cs], True),
            minmax(s, [c[0] for c in cs], False), minmax(s, [c[1] for c in cs], False)]
    got = [r.f[0].f[0], r.f[0].f[1], r.f[1].f[0], r.f[1].f[1]]
    for x, y, nm in zip(got, want, ('min x', 'min y', 'max x', 'max y')):
        if s.facts.le(x, y) and s.facts.le(y, x):
            continue
        f = compare(s, x, [y])
        if f:
            f.text = nm + ' ' + f.text
            return f
    return None
