"""Symbolic evaluation of the crate's pure geometry functions and comparison with specifications."""
from dom import *
import real
import interp
from interp import Program, State, Interp, Outcome
from values import *
from models import Models
from mk import Mk
from canon import named

EUC = 'geo::algorithm::line_measures::metric_spaces::euclidean'


class Nonterm(Exception):
    pass


def short(prog, ty):
    k = prog.types[ty]['k']
    return k[1].rsplit('::', 1)[-1] if k[0] == 'adt' else None


def coords(seq):
    """Coordinate list of an explicit sequence, else None."""
    out = []
    for it in seq.items:
        if it[0] != 'e':
            return None
        out.append(it[1].f)
    return out


def fset(*xs):
    return ('set',) + tuple(sorted(set(xs), key=lambda t: t.id))


def rectcorners(cs):
    """(xs, ys) of a closed axis-parallel ring."""
    if len(cs) != 5 or cs[0] != cs[4]:
        return None
    cs = cs[:4]
    xs = set(c[0] for c in cs)
    ys = set(c[1] for c in cs)
    if len(xs) > 2 or len(ys) > 2 or len(set(cs)) != len(xs) * len(ys):
        return None
    for k in range(4):
        if cs[k][0] is not cs[(k + 1) % 4][0] and cs[k][1] is not cs[(k + 1) % 4][1]:
            return None
    return fset(*xs), fset(*ys)


def seqdesc(v):
    """Token of an untouched input sequence, else its structure."""
    if len(v.items) == 1 and v.items[0][0] == 'any' and isinstance(v.len, Lin) and v.len.k == 0:
        t = v.items[0][1]
        if len(t) == 1 and isinstance(t[0], Agg) and [repr(x) for x in t[0].f] == ['d@0.x', 'd@0.y']:
            return ('#', v.len.s)
    cs = coords(v)
    if cs is not None:
        return tuple(cs)
    return ('key', dnorm(key(v)))


def ringsdesc(v):
    out = []
    for it in v.items:
        if it[0] == 'e':
            out.append(seqdesc(it[1].f[0]))
        elif it[0] == 'any' and len(it[1]) == 1 and seqdesc(it[1][0].f[0]) == ('#', 'i@0'):
            out.append('*')
        else:
            return ('key', dnorm(key(v)))
    return ('rings', ('#', v.len.s) if isinstance(v.len, Lin) else v.len) + tuple(out)


def desc(ev, st, v):
    """Structural description of a geometry (the set of points it stands for)."""
    while isinstance(v, (Ptr, VRef)):
        v = ev.deref(st, v)
    if not isinstance(v, Agg):
        raise Unsupported('geometry %r' % (v,))
    nm = short(ev.p, v.ty)
    if nm in ('Geometry', 'GeometryRef'):
        return desc(ev, st, v.f[0])
    if nm == 'Point':
        return ('P',) + v.f[0].f
    if nm == 'Coord':
        return ('P',) + v.f
    if nm == 'Line':
        return resort(('L', v.f[0].f, v.f[1].f))
    if nm == 'LineString':
        return ('S', seqdesc(v.f[0]))
    if nm == 'Rect':
        a, b = v.f[0].f, v.f[1].f
        return ('R', fset(a[0], b[0]), fset(a[1], b[1]))
    if nm == 'Polygon':
        ext, ints = v.f
        cs = coords(ext.f[0])
        if cs is not None and not ints.items:
            r = rectcorners(cs)
            if r:
                return ('R',) + r
        return ('G', seqdesc(ext.f[0]), ringsdesc(ints))
    raise Unsupported('geometry of type %s' % ev.p.tyname(v.ty))


def hyp(dx, dy):
    return fn('sqrt', add(mul(dx, dx), mul(dy, dy)))


def eucterm(a, b):
    """Planar distance between two described shapes."""
    if a[0] == 'P' and b[0] == 'P':
        return hyp(sub(a[1], b[1]), sub(a[2], b[2]))
    return shapeterm('euc', '', (a, b))


def sphterm(kind, ds):
    return shapeterm('sph', kind, tuple(ds))


class Hooks:
    """Interception of library leaves and, optionally, of the crate's own spherical primitives."""

    def __init__(self, cut=()):
        self.cut = dict(cut)      # inst number -> (kind)
        self.base = None
        self.watched = ()         # terms whose known lower bounds keep loop states apart

    def anon_node(self, ev, st, nid):
        raise Unsupported('node')

    def signature(self, st):
        """Extra key that keeps loop states apart."""
        return None

    def header(self, ev, st, nid, i):
        return None

    def new_datum(self, ev, st, did, inv):
        pass

    def prepare(self, ev, st):
        pass

    def watch(self, st):
        return self.watched

    def materialize(self, ev, st, nid):
        raise Unsupported('node')

    def discr(self, ev, st, v, ty):
        return None

    def model(self, ev, inst):
        p = inst['path']
        if inst.get('trait') == 'geo::algorithm::line_measures::distance::Distance' and \
                inst.get('selfpath', '').endswith('euclidean::Euclidean'):
            return self.euc
        if inst.get('trait') == 'geo::algorithm::intersects::Intersects' and not inst.get('blocks'):
            return self.intersects
        if inst['n'] in self.cut:
            return self.cutcall
        return None

    def euc(self, ev, st, c):
        return [(st, eucterm(desc(ev, st, c.args[-2]), desc(ev, st, c.args[-1])))]

    def intersects(self, ev, st, c):
        a, b = desc(ev, st, c.args[0]), desc(ev, st, c.args[1])
        k = 'meets ' + ' '.join(sorted((dnorm(a), dnorm(b))))
        if k in st.g:
            return [(st, st.g[k])]
        out = []
        for v in (True, False):
            s = st.copy()
            s.g[k] = v
            s.note('assume %s%s' % ('' if v else 'not ', 'the shapes meet'))
            out.append((s, v))
        return out

    def cutcall(self, ev, st, c):
        if len(st.frames) < 2:
            return NotImplemented
        kind = self.cut[c.n]
        ds = [desc(ev, st, a) for a in c.args]
        return [(st, sphterm(kind, ds))]


class Root:
    """One analysed entry point with symbolic arguments."""

    def __init__(self, prog, name, cut=(), budget=3000000, realmode=True):
        self.p = prog
        self.name = name
        self.n = prog.roots.get(name)
        if self.n is None:
            raise Unsupported('root %s missing' % name)
        self.inst = prog.insts[self.n]
        self.hooks = Hooks(cut)
        self.ev = Interp(prog, Models(), self.hooks, budget)
        self.ev.disj = 40
        self.st = State()
        self.mk = Mk(prog, self.st)

    def argty(self, i):
        l = self.inst['locals'][i + 1]
        return l if isinstance(l, int) else l[0]

    def arg(self, i, name, shape=None):
        """Symbolic i-th argument; mutable references point at a heap object."""
        ty = self.argty(i)
        k = self.p.types[ty]['k']
        if k[0] == 'ref' and k[2]:
            self.st.heap[name] = self.mk.make(k[1], name, shape)
            return Ptr(('H', name), ())
        return self.mk.make(ty, name, shape)

    def run(self, args):
        interp.MODE['real'] = True
        st = self.st.copy()
        self.ev.enter(st, self.n, args, None, None, True)
        return self.ev.run(st)


def cells(st, fn):
    """Evaluate fn under every refinement of st's facts: [(state, value)]."""
    out = []
    work = [st]
    n = 0
    while work:
        s = work.pop()
        n += 1
        if n > 4000:
            raise Unsupported('too many cells')
        s0 = s.copy()
        try:
            out.append((s0, fn(s0)))
        except Fork as f:
            work.extend(f.states)
        except Dead:
            pass
    return out
