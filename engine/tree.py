"""Abstract quadtrees: nodes summarised by what the insertion analysis proves about them,
one or two tracked data ('witnesses'), and contracts for the recursive node functions."""
import interp
from dom import *
from values import *
from interp import Interp, State, Ghost, Outcome
from models import Models
import fmtmodel
from pure import Hooks
from mk import Mk
from canon import isanon, named

CALC = '::CalcMethod'
XY = ('x1', 'y1', 'x2', 'y2')


def one(st, v):
    return [(st, v)]


class Shape:
    """Layout of a tree type and its node type, recognised from types and constructor."""

    def __init__(self, prog, kind):
        self.p = prog
        self.kind = kind
        self.new = self.root('new')
        inst = prog.insts[self.root('insert')]
        t = inst['locals'][1]
        t = t if isinstance(t, int) else t[0]
        self.treety = prog.types[t]['k'][1]
        t = inst['locals'][2]
        self.datty = t if isinstance(t, int) else t[0]
        self.find_node()

    def root(self, nm):
        r = self.p.roots.get('vp_%s_%s' % (self.kind, nm))
        if r is None:
            raise Unsupported('root %s missing' % nm)
        return r

    def fields(self, ty, var=0):
        return self.p.adtinfo(ty)['variants'][var]['fields']

    def nodearr(self, ty, n):
        """Is ty Option<Box<[n; 4]>> (or the like)?  Returns (option type, box type, array type)."""
        p = self.p
        if p.kind(ty) != 'adt':
            return None
        path = p.types[ty]['k'][1]
        if path == 'core::option::Option':
            return self.boxarr(ty, self.fields(ty, 1)[0][1], n)
        return None

    def boxarr(self, opt, b, n):
        p = self.p
        s = p.tyname(b)
        if not s.startswith('alloc::boxed::Box<['):
            return None
        for i, t in enumerate(p.types):
            if t['k'][0] == 'array' and t['k'][1] == n and s == 'alloc::boxed::Box<%s>' % t['s']:
                return (opt, b, i)
        return None

    def find_node(self):
        p = self.p
        work = [(self.treety, ())]
        seen = set()
        while work:
            ty, path = work.pop(0)
            if ty in seen or p.kind(ty) != 'adt' or len(p.adtinfo(ty)['variants']) != 1:
                continue
            seen.add(ty)
            for i, (nm, ft) in enumerate(self.fields(ty)):
                na = self.nodearr(ft, ty)
                if na:
                    self.nodety, self.nodepath, self.nodesidx, self.arrtys = ty, path, i, na
                    return
                work.append((ft, path + (i,)))
        raise Unsupported('no node type found in %s' % p.tyname(self.treety))

    def plain(self, ty, depth=0):
        """Is ty made of scalars only?"""
        k = self.p.types[ty]['k']
        if k[0] in ('int', 'uint', 'float', 'bool'):
            return True
        if depth > 4:
            return False
        if k[0] == 'tuple':
            return all(self.plain(t, depth + 1) for t in k[1])
        if k[0] != 'adt' or k[1].startswith('alloc::') or ty in (self.nodety, self.datty):
            return False
        info = self.p.adtinfo(ty)
        return info is not None and bool(info['variants']) and all(self.plain(f[1], depth + 1) for w in info['variants'] for f in w['fields'])

    def record(self, v):
        """Note what the fields without a meaning hold in a node value."""
        if not self.extras:
            return
        kind = 'leaf' if self.subs(v) is None else 'int'
        for i, ft in self.extras:
            note(self.exvals, (kind, i), ft, v.f[i])

    def classify(self, node, bounds):
        """Roles of the node fields, from a freshly constructed root."""
        p = self.p
        self.vecs, self.rect, self.depth, self.maxd, self.maxc = [], None, None, None, None
        self.extras, self.exvals = [], {}
        self.proto = node
        u8, us, rs = [], [], []
        for i, (nm, ft) in enumerate(self.fields(self.nodety)):
            k = p.types[ft]['k']
            v = node.f[i] if i < len(node.f) else None
            if i == self.nodesidx:
                continue
            if k[0] == 'adt' and k[1] == 'alloc::vec::Vec':
                if not isinstance(v, Seq) or v.items or p.tyname(self.datty) not in p.tyname(ft):
                    raise Unsupported('node field %s' % nm)
                self.vecs.append(i)
            elif k[0] == 'adt' and k[1].endswith('rect::Rect'):
                rs.append((i, isinstance(v, Agg) and self.rectof(v) == bounds))
            elif k[0] == 'uint' and k[1] == 8:
                u8.append((i, nm))
            elif k[0] == 'uint':
                us.append((i, nm))
            elif k[0] == 'adt' and isinstance(v, Agg) and not v.f and len(p.adtinfo(ft)['variants']) == 1:
                pass
            elif v is None and k[0] == 'adt' and 'PhantomData' in k[1]:
                pass
            elif self.plain(ft):
                self.extras.append((i, ft))
            else:
                raise Unsupported('node field %s: %s' % (nm, p.tyname(ft)))
        # more fields than there are roles: those that start with the value of the role
        allr = [i for i, _ in rs] + [i for i, _ in u8 + us]
        if len(rs) > 1:
            rs = [x for x in rs if x[1]]
        if len(u8) > 2:
            u8 = [x for x in u8 if key(node.f[x[0]]) in (0, key(Lin('md', 0)))]
        if len(us) > 1:
            us = [x for x in us if key(node.f[x[0]]) == key(Lin('mc', 0))]
        for i in set(allr) - set(i for i, _ in rs) - set(i for i, _ in u8 + us):
            self.extras.append((i, self.fields(self.nodety)[i][1]))
        if len(rs) == 1:
            self.rect = rs[0][0]
        if self.rect is None or len(u8) != 2 or len(us) != 1 or not self.vecs:
            raise Unsupported('node fields not recognised')
        self.maxc = us[0][0]
        vals = {i: node.f[i] for i, _ in u8}
        zero = [i for i, _ in u8 if vals[i] == 0 and not isinstance(vals[i], bool)]
        if len(zero) == 1:
            self.depth = zero[0]
            self.maxd = [i for i, _ in u8 if i != zero[0]][0]
        else:
            a, b = sorted(u8, key=lambda x: 'max' in x[1])
            self.depth, self.maxd = a[0], b[0]

    def rectval(self, ty, b):
        f = self.fields(ty)
        return Agg(ty, 0, (Agg(f[0][1], 0, (b[0], b[1])), Agg(f[1][1], 0, (b[2], b[3]))))

    def rectof(self, v):
        return v.f[0].f + v.f[1].f

    def node(self, b, depth, maxd, maxc, vecs, subs):
        f = list(self.proto.f)
        rt = self.fields(self.nodety)[self.rect][1]
        f[self.rect] = self.rectval(rt, b)
        f[self.depth] = depth
        f[self.maxd] = maxd
        f[self.maxc] = maxc
        for i in self.vecs:
            f[i] = vecs.get(i) or Seq((), 0)
        for i, ft in self.extras:
            f[i] = self.exvals.get(('leaf' if subs is None else 'int', i)) or (Wild(ft),)
            f[i] = f[i][0]
        opt, bt, at = self.arrtys
        f[self.nodesidx] = Agg(opt, 0, ()) if subs is None else Agg(opt, 1, (Box(Agg(at, 0, tuple(subs))),))
        return Agg(self.nodety, 0, tuple(f))

    def subs(self, v):
        """Sub-node values of a node value: None, or a tuple."""
        o = v.f[self.nodesidx]
        if not isinstance(o, Agg):
            raise Unsupported('sub-nodes %r' % (o,))
        if o.var == 0:
            return None
        b = o.f[0]
        if isinstance(b, Box):
            b = b.c
        if isinstance(b, Agg):
            return b.f
        if isinstance(b, Seq) and all(x[0] == 'e' for x in b.items):
            return tuple(x[1] for x in b.items)
        raise Unsupported('sub-nodes %r' % (b,))


def fixed(v):
    """A constant value."""
    if isinstance(v, Agg):
        return all(fixed(x) for x in v.f)
    return isinstance(v, (bool, int)) and v is not None or isinstance(v, F) and v.op == 'c'


def note(tab, k, ty, v):
    old = tab.get(k)
    if not fixed(v) or old is not None and key(old[0]) != key(v):
        v = Wild(ty)
    tab[k] = (v,)


def earlier(v, ty):
    """v as it is seen by the next insertion: the datum inserted is then an earlier one."""
    def fn(x):
        if isinstance(x, F):
            if x.owners() - {'X', 'R'}:
                bad.append(x)
            return fmap(x, {'X': 'E'})
        if isinstance(x, Datum) and x.did == 'X':
            return Datum('E')
        if not isinstance(x, (bool, int)):
            bad.append(x)
        return x
    bad = []
    v = vmap(v, fn)
    return Wild(ty) if bad else v


class Learn:
    """What the insertion analysis established: rectangles of sub-nodes, routing, where data are kept."""

    def __init__(self):
        self.tiling = None          # 4 x (x1,y1,x2,y2) over var('S', .)
        self.quad = None            # index -> (lowx?, lowy?)
        self.routes = {}            # k -> {repr: [(a, b, strict)]}
        self.stuck = {}             # vec index -> {repr: ...}
        self.leafvecs = set()
        self.intvecs = set()


def minimal(tab):
    """Drop the cases that another, weaker case covers."""
    cases = [(frozenset((a.id, b.id, s) for a, b, s in fl), fl) for fl in tab.values()]
    cases.sort(key=lambda c: (len(c[0]), sum(1 for x in c[0] if x[2]), sorted(c[0])))
    r = []
    for k, fl in cases:
        if not any(all(x in k or not x[2] and (x[0], x[1], True) in k for x in q) for q, _ in r):
            r.append((k, fl))
    return [fl for _, fl in r]


class Collector:
    def __init__(self):
        self.obl = []               # (prop, ok, certain, key, text)
        self.runs = []              # (label, ev, paths)
        self.unsure = []            # (props, text)
        self.seen = set()

    def ok(self, prop):
        self.obl.append((prop, True, None, None, None))

    def bad(self, prop, key, text, certain=True):
        if (prop, key) in self.seen or not certain and (prop, key, 0) in self.seen:
            return
        self.seen.add((prop, key) if certain else (prop, key, 0))
        self.obl.append((prop, False, certain, key, text))


class TreeHooks(Hooks):
    def __init__(self, prog, sh, learn, col, mode):
        Hooks.__init__(self)
        self.p = prog
        self.sh = sh
        self.learn = learn
        self.col = col
        self.mode = mode            # insert | tree | retrieve | iter | search
        self.alias = {}
        self.subject = None
        self.used = {}              # contract instances: n -> kind
        self.method = 1
        self.errs = ()
        self.inf = False
        self.query = None
        self.radius = None          # set: check which nodes a search opens
        self.nearest = False        # no node farther than a datum seen before is opened
        self.label = ''
        self.track = frozenset()    # data whose known relations keep loop states apart

    # ---- data ----
    def coords(self, did):
        did = self.alias.get(did, did)
        if self.sh.kind == 'pt':
            x, y = var(did, 'x'), var(did, 'y')
            return (x, y, x, y)
        return tuple(var(did, a) for a in XY)

    def wellformed(self, st, did):
        c = self.coords(did)
        if c[0] is not c[2]:
            if not (st.facts.add_le(c[0], c[2]) and st.facts.add_le(c[1], c[3])):
                raise Dead()

    def inside(self, st, did, b):
        """Assume did lies within rectangle b."""
        c = self.coords(did)
        f = st
        if not (f.assume_le(b[0], c[0]) and f.assume_le(b[1], c[1]) and f.assume_le(c[2], b[2]) and f.assume_le(c[3], b[3])):
            raise Dead()

    def isinside(self, st, did, b):
        c = self.coords(did)
        return st.nle(b[0], c[0]) and st.nle(b[1], c[1]) and st.nle(c[2], b[2]) and st.nle(c[3], b[3])

    def isoutside(self, st, did, b):
        c = self.coords(did)
        return st.nlt(c[0], b[0]) or st.nlt(c[1], b[1]) or st.nlt(b[2], c[2]) or st.nlt(b[3], c[3])

    def new_datum(self, ev, st, did, inv):
        if self.mode not in ('insert', 'tree'):
            return
        self.wellformed(st, did)
        if inv is not None:
            g = st.ghost.get(inv)
            if g is not None and g.b:
                self.inside(st, did, g.b)

    def anytmpl(self, nid):
        return ('any', (Datum('d@0'),), nid if self.mode in ('insert', 'tree') else None)

    # ---- nodes ----
    def vars(self, nid):
        return tuple(var(nid, a) for a in XY)

    def anon_node(self, ev, st, nid):
        b = self.vars(nid)
        st.facts.add_le(b[0], b[2])
        st.facts.add_le(b[1], b[3])
        return Ghost(b, None, None, None)

    def vecseq(self, nid, names):
        """Contents with the named data at arbitrary places, for every order of them."""
        import itertools
        r = []
        for perm in itertools.permutations(names):
            items = [self.anytmpl(nid)]
            for w in perm:
                items += [('e', Datum(w)), self.anytmpl(nid)]
            r.append((tuple(items), len(names)))
        return r

    def mkseq(self, ev, st, items, k, name=None):
        n = name or ev.fresh('i')
        st.facts.iassume('0', n, -k)
        st.facts.iassume(n, '0', 1 << 60)
        return Seq(items, Lin(n, 0))

    def leafvals(self, ev, st, nid, g, names):
        """[(state, node value)] for a leaf holding the named data."""
        L = self.learn
        out = []
        lv = sorted(L.leafvecs) or [self.sh.vecs[0]]
        for assign in assignments(names, lv):
            for combo in orders(self, assign, lv, nid):
                s = st.copy()
                vecs = {i: self.mkseq(ev, s, items, k, 'len%d' % i if nid == self.subject else None) for i, (items, k) in combo.items()}
                out.append((s, self.sh.node(g.b, g.depth, g.maxd, g.maxc, vecs, None)))
        return out

    def intvals(self, ev, st, nid, g, names, subname=None):
        L = self.learn
        out = []
        iv = sorted(L.intvecs)
        slots = [('s', k) for k in range(4)] + [('v', i) for i in iv]
        for assign in assignments(names, slots):
            vas = {i: assign.get(('v', i), ()) for i in iv}
            for combo in orders(self, vas, iv, nid):
                base = st.copy()
                subs = []
                for k in range(4):
                    sn = subname(k) if subname else ev.fresh('n')
                    b = self.vars(sn)
                    dep = ev.arith(base, 'Add', g.depth, 1) if g.depth is not None and self.mode != 'search' else None
                    base.ghost[sn] = Ghost(b, dep, g.maxd, g.maxc, tuple(sorted(assign.get(('s', k), ()))))
                    subs.append(sn)
                states = [base]
                if self.mode in ('retrieve', 'insert'):
                    if L.tiling is None:
                        return out
                    ok = True
                    for k in range(4):
                        b = self.vars(subs[k])
                        ok = ok and base.facts.add_le(b[0], b[2]) and base.facts.add_le(b[1], b[3])
                        for j in range(4):
                            t = submap(L.tiling[k][j], 'S', g.b)
                            ok = ok and base.assume_eq(b[j], t)
                    if not ok:
                        continue
                    for slot, ws in assign.items():
                        for w in ws:
                            tab = L.routes.get(slot[1], {}) if slot[0] == 's' else L.stuck.get(slot[1], {})
                            nxt = []
                            for s0 in states:
                                for fl in minimal(tab):
                                    s1 = s0.copy()
                                    if self.impose(s1, fl, w, g.b):
                                        nxt.append(s1)
                            states = nxt
                    for s0 in list(states):
                        for slot, ws in assign.items():
                            if slot[0] == 's':
                                for w in ws:
                                    try:
                                        self.inside(s0, w, self.vars(subs[slot[1]]))
                                    except Dead:
                                        states = [x for x in states if x is not s0]
                for s0 in states:
                    s = s0.copy()
                    show = self.mode == 'show' and nid == self.subject
                    vecs = {i: self.mkseq(ev, s, items, n, 'len%d' % i if show else None) for i, (items, n) in combo.items()}
                    v = self.sh.node(g.b, g.depth, g.maxd, g.maxc, vecs, [ONode(x) for x in subs])
                    out.append((s, v))
        return out

    def impose(self, st, fl, w, b):
        """Assume the learned facts about datum X at node S for datum w at a node with bounds b."""
        c = self.coords(w)
        xm = {'x': c[0], 'y': c[1]} if self.sh.kind == 'pt' else dict(zip(XY, c))
        for a, t, s in fl:
            if not st.assume_le(submap2(a, xm, b), submap2(t, xm, b), s):
                return False
        return True

    def signature(self, st):
        if not self.track:
            return None
        f = st.facts
        own = self.track
        rel = [t for t in f.terms() if t.owners() and t.owners() <= own]
        rs = set(rel)
        return frozenset((a.id, b.id, s) for a in rel for b, s in f.reach(a).items() if b is not a and b in rs
                         and not (a.owners() == b.owners() == {'S'}))

    def header(self, ev, st, nid, i):
        """Fields of an opaque node that do not depend on its contents."""
        g = st.ghost[nid]
        sh = self.sh
        if i == sh.rect and g.b is not None:
            return sh.rectval(sh.fields(sh.nodety)[i][1], g.b)
        if i == sh.depth:
            return g.depth
        if i == sh.maxd:
            return g.maxd
        if i == sh.maxc:
            return g.maxc
        return None

    def materialize(self, ev, st, nid):
        g = st.ghost[nid]
        if g.b is None or nid == 'R' and st.g.get('$spent'):
            raise Unsupported('node %s' % nid)
        out = []
        for s, v in self.leafvals(ev, st, nid, g, g.has):
            s.ghost[nid] = g.rep(mat=v, has=())
            s.note('node %s has no sub-nodes' % nid)
            out.append(s)
        for s, v in self.intvals(ev, st, nid, g, g.has):
            s.ghost[nid] = g.rep(mat=v, has=())
            s.note('node %s has sub-nodes%s' % (nid, ''.join(' [%d]=%s%s' % (k, x.nid, list(s.ghost[x.nid].has) or '')
                                                            for k, x in enumerate(self.sh.subs(v)))))
            out.append(s)
        raise Fork(out)

    # ---- calls ----
    def model(self, ev, inst):
        tr = inst.get('trait') or ''
        nm = inst.get('name')
        p = inst['path']
        if inst['crate'] == 'vp_harness':
            if tr.endswith('::AsPoint') and nm == 'as_point':
                return self.as_point
            if tr.endswith('::AsGeom') and nm == 'as_geom':
                return self.as_geom
        if nm in ('as_geom', 'clone', 'to_owned', 'borrow') and inst['argc'] == 1:
            return self.same_geom
        if tr.endswith('::BoundingRect') and nm == 'bounding_rect':
            return self.bbox
        if '::GeomCalc' in p and nm in ('dist_geom', 'dist_bbox'):
            return self.dist
        if tr.endswith('iterator::Iterator') and nm in ('next', 'size_hint'):
            return self.oiter
        if nm == 'count' and p.endswith('iterator::Iterator::count') and self.mode == 'show':
            return self.count
        if self.p.selfcalls(inst['n']) and inst['argc'] >= 1:
            k = self.nodefn(inst)
            if k and inst['n'] in self.cutfns(k):
                self.used_kind = k
                return lambda ev, st, c, k=k: self.contract(ev, st, c, k)
        return Hooks.model(self, ev, inst)

    def argty(self, inst, i):
        t = inst['locals'][i]
        return t if isinstance(t, int) else t[0]

    def cutfns(self, kind):
        """The recursive node functions of a kind that get a contract: those nearest to the public operations."""
        key = (self.sh.kind, kind)
        r = self.p.cuts.get(key)
        if r is None:
            roots = sorted(n for nm, n in self.p.roots.items() if nm.startswith('vp_%s_' % self.sh.kind))
            ins = self.p.insts
            mode, self.mode = self.mode, 'show' if kind == 'show' else 'insert' if kind == 'insert' else 'iter'
            r = self.p.cutpoints(roots, lambda n: ins[n].get('blocks') and ins[n]['argc'] >= 1 and self.nodefn(ins[n]) == kind)
            self.mode = mode
            self.p.cuts[key] = r
        return r

    def nodefn(self, inst):
        """insert | retrieve | descend for recursive functions of a node."""
        ts = self.p.types
        k = ts[self.argty(inst, 1)]['k']
        if k[0] != 'ref' or k[1] != self.sh.nodety:
            return None
        r = ts[self.argty(inst, 0)]['k']
        if self.mode == 'show' and inst['argc'] == 2:
            a = ts[self.argty(inst, 2)]['k']
            if a[0] == 'ref' and a[2] and ts[a[1]]['k'] == ('adt', 'core::fmt::Formatter') and r == ('adt', 'core::result::Result'):
                return 'show'
        if k[2]:
            if inst['argc'] == 2 and self.argty(inst, 2) == self.sh.datty:
                return 'insert'
            return None
        if r[0] != 'adt' or not ts[self.argty(inst, 0)]['s'].startswith('quadtree::'):
            return None
        if inst['argc'] == 1:
            return 'descend'
        if inst['argc'] == 2:
            a = ts[self.argty(inst, 2)]['k']
            if a[0] == 'ref' and a[1] == self.sh.datty and not a[2]:
                return 'retrieve'
        return None

    def datum(self, ev, st, v):
        while isinstance(v, (Ptr, VRef)):
            v = ev.deref(st, v)
        return v

    def as_point(self, ev, st, c):
        d = self.datum(ev, st, c.args[0])
        if not isinstance(d, Datum):
            raise Unsupported('as_point of %r' % (d,))
        b = self.coords(d.did)
        f = self.sh.fields(c.destty) if c.destty is not None else self.sh.fields(self.argty(c.inst, 0))
        ty = c.destty if c.destty is not None else self.argty(c.inst, 0)
        return one(st, Agg(ty, 0, (Agg(f[0][1], 0, (b[0], b[1])),)))

    def as_geom(self, ev, st, c):
        d = self.datum(ev, st, c.args[0])
        if not isinstance(d, Datum):
            raise Unsupported('as_geom of %r' % (d,))
        return one(st, OGeom(d.did))

    def same_geom(self, ev, st, c):
        try:
            v = self.datum(ev, st, c.args[0])
        except Unsupported:
            return NotImplemented
        if isinstance(v, OGeom):
            return one(st, v)
        return NotImplemented

    def bbox(self, ev, st, c):
        v = self.datum(ev, st, c.args[0])
        if not isinstance(v, OGeom):
            return NotImplemented
        ty = c.destty if c.destty is not None else self.argty(c.inst, 0)
        if self.maybe_empty(v.did):
            k = 'bbox ' + v.did
            if k not in st.g:
                out = []
                for b in (True, False):
                    s = st.copy()
                    s.g[k] = b
                    s.note('%s has %s bounding box' % (v.did, 'a' if b else 'no'))
                    out.append(s)
                raise Fork(out)
            if not st.g[k]:
                return one(st, Agg(ty, 0, ()))
        rt = self.p.types[ty]
        rt = self.sh.fields(ty, 1)[0][1]
        return one(st, Agg(ty, 1, (self.sh.rectval(rt, self.coords(v.did)),)))

    def maybe_empty(self, did):
        return self.sh.kind == 'bx' and did == self.query

    # ---- contracts ----
    def target(self, ev, st, p):
        """Node a reference designates: ('o', id) opaque, ('s',) the subject, ('x', ptr, value) explicit."""
        while True:
            if isinstance(p, VRef):
                if isinstance(p.v, ONode):
                    nid = p.v.nid
                    return ('s',) if nid == self.subject else ('o', nid)
                if isinstance(p.v, (Ptr, VRef)):
                    p = p.v
                    continue
                return ('x', p, p.v)
            if isinstance(p, Ptr):
                if p.obj[0] == 'N' and not p.path:
                    return ('s',) if p.obj[1] == self.subject else ('o', p.obj[1])
                v = ev.load(st, p.obj, p.path)
                if isinstance(v, ONode):
                    return ('s',) if v.nid == self.subject else ('o', v.nid)
                if isinstance(v, (Ptr, VRef)):
                    p = v
                    continue
                if isinstance(v, Box):
                    p = Ptr(p.obj, p.path + ('b',))
                    continue
                return ('x', p, v)
            raise Unsupported('node reference %r' % (p,))

    def contract(self, ev, st, c, kind):
        t = self.target(ev, st, c.args[0])
        if t[0] == 's':
            if kind == 'insert':
                cnt = sum(1 for f in st.frames if f.n == c.n and f.hist == ('subject',))
                cnt = sum(1 for f in st.frames if f.n == c.n)
                if cnt > 4:
                    return [('panic', st, 'insertion re-enters the same node without end')]
            return NotImplemented
        self.used[c.n] = kind
        if t[0] == 'x':
            if not isinstance(t[2], Agg) or t[2].ty != self.sh.nodety:
                return NotImplemented
            if not isinstance(t[1], Ptr):
                raise Unsupported('contract on a snapshot')
            nid = self.absorb(ev, st, t[1], t[2], ev.fresh('n'))
        else:
            nid = t[1]
            if st.ghost[nid].mat is not None and kind != 'show':
                if kind not in ('descend', 'retrieve'):
                    raise Unsupported('contract on an opened node')
                if kind == 'retrieve':
                    st.imp = st.imp + ('retrieval from an opened node',)
        return getattr(self, 'do_' + kind)(ev, st, c, nid)

    def absorb(self, ev, st, ptr, v, nid):
        """Summarise an explicit node value."""
        sh = self.sh
        subs = sh.subs(v)
        has = []
        for i in sh.vecs:
            tally(st, v.f[i], has)
        if subs is not None:
            for x in subs:
                tally(st, x, has)
        elif has:
            self.col.ok('C04')
        sh.record(v)
        b = sh.rectof(v.f[sh.rect])
        st.ghost[nid] = Ghost(b, v.f[sh.depth], v.f[sh.maxd], v.f[sh.maxc], tuple(sorted(has)))
        ev.store(st, ptr.obj, ptr.path, ONode(nid))
        return nid

    def prepare(self, ev, st):
        """Fresh sub-nodes of the subject become opaque before states are compared."""
        if self.mode == 'search':
            return self.forget(ev, st)
        if self.mode != 'insert' or self.subject not in st.ghost:
            return
        g = st.ghost[self.subject]
        if not isinstance(g.mat, Agg):
            return
        for i, ft in self.sh.extras:
            # what is counted along the way is not followed
            if self.p.types[ft]['k'][0] in ('int', 'uint', 'float') and not (fixed(g.mat.f[i]) and key(g.mat.f[i]) in [
                    key(v[0]) for (_, j), v in self.sh.exvals.items() if j == i]):
                ev.store(st, ('N', self.subject), (i,), Wild(ft))
                g = st.ghost[self.subject]
        try:
            subs = self.sh.subs(g.mat)
        except Unsupported:
            return
        if subs is None:
            return
        for k, x in enumerate(subs):
            if isinstance(x, Agg) and x.ty == self.sh.nodety:
                self.absorb(ev, st, Ptr(('N', self.subject), (self.sh.nodesidx, 0, 'b', k)), x, ev.fresh('n'))

    def forget(self, ev, st):
        """References to nodes stand for themselves, and opened nodes nobody refers to any more are dropped."""
        def fn(x):
            if isinstance(x, Ptr) and (x.obj[0] == 'N' or x.obj == ('H', 'tree')):
                if x.obj[0] == 'N' and not x.path:
                    return VRef(ONode(x.obj[1]))
                try:
                    y = ev.load(st, x.obj, x.path)
                except (Unsupported, Uninit, KeyError, Fork):
                    return x
                if isinstance(y, ONode):
                    return VRef(y)
            return x
        for fr in st.frames:
            for k in fr.loc:
                fr.loc[k] = vmap(fr.loc[k], fn)
        for k in st.heap:
            st.heap[k] = vmap(st.heap[k], fn)
        held = set()
        nodes = set()

        def see(x):
            if isinstance(x, Ptr):
                held.add(x.obj)
            elif isinstance(x, (ONode, OIter)):
                nodes.add(x.nid)
        for fr in st.frames:
            for v in fr.loc.values():
                walk(v, see)
        for k, v in st.heap.items():
            if k != 'tree':
                walk(v, see)
        if 'tree' in st.heap and 'R' in st.ghost and st.ghost['R'].mat is not None:
            if ('N', 'R') in held or 'R' in nodes:
                return
            g = st.ghost['R']
            st.ghost['R'] = g.rep(mat=None, has=())
            st.g['$spent'] = True

    def do_insert(self, ev, st, c, nid):
        d = c.args[1]
        ty = c.destty if c.destty is not None else self.argty(c.inst, 0)
        k = self.p.types[ty]['k']
        if not isinstance(d, Datum):
            raise Unsupported('insertion of %r' % (d,))
        if k[0] == 'adt' and k[1] == 'core::result::Result':
            ok = Agg(ty, 0, (ev.zst(self.sh.fields(ty, 0)[0][1]),))
        elif k[0] == 'tuple' and not k[1]:
            ok = Agg(ty, 0, ())
        else:
            raise Unsupported('result of a recursive insertion')
        g = st.ghost[nid]
        if named(d.did):
            self.at_insert(ev, st, d.did, nid, g, c)
            st.ghost[nid] = g.rep(has=tuple(sorted(g.has + (d.did,))))
        return one(st, ok)

    def at_insert(self, ev, st, did, nid, g, c):
        """Obligations where a tracked datum is handed to a sub-node (or the root)."""
        col = self.col
        where = self.label
        root = self.mode == 'tree'
        prop = 'C03' if root else 'C05'
        if root and self.sh.kind == 'bx' and not st.g.get('bbox ' + did):
            col.bad('C03', 'no bounding box ' + where, '%s: a datum without a bounding box may reach the root node' % where)
            return
        if self.isinside(st, did, g.b):
            col.ok(prop)
        else:
            self.refute_inside(st, did, g.b, prop, where, c)
        if root:
            return
        s = st.ghost[self.subject]
        if isinstance(s.depth, (int, Lin)) and isinstance(g.depth, (int, Lin)):
            a, i = isplit(s.depth)
            b, j = isplit(g.depth)
            x = st.facts.ibound(a, b)
            if x is not None and x + i - j < 0 or a == b and i < j:
                col.ok('C04')
            else:
                col.bad('C04', 'no progress ' + where, '%s: the recursion is not on a deeper node (depth %r to %r)' % (where, s.depth, g.depth))

    def refute_inside(self, st, did, b, prop, where, c):
        import refute
        cs = self.coords(did)
        for lo, hi, side in ((b[0], cs[0], 'x below'), (b[1], cs[1], 'y below'), (cs[2], b[2], 'x above'), (cs[3], b[3], 'y above')):
            if st.nle(lo, hi):
                continue
            w = refute.exceeds(st.facts, lo, hi)
            text = '%s: a datum is handed to a node whose rectangle it is not known to lie in (%s), via %s; %s' % (
                where, side, ' > '.join(st.trail()[-8:]), wtext(w))
            self.col.bad(prop, 'outside %s %s' % (where, side), text, isinstance(w, tuple) or None)

    # ---- display ----
    def do_show(self, ev, st, c, nid, f=None, res=None):
        f = c.args[1] if f is None else f
        bad = st.copy()
        bad.g['sinkerr'] = True
        bad.note('the sink fails')
        fmtmodel.append(ev, st, f, (Agg('fmt:N', 0, (ONode(nid),)),))
        return [(bad, fmtmodel.result(ev, bad, c, False)), (st, fmtmodel.result(ev, st, c, True))]

    def count(self, ev, st, c):
        """Iterator::count of an iterator over slices: the sum of what they hold, once stepping it is shown to take one
        element away at a time until nothing is left."""
        v = c.args[0]
        if not isinstance(v, (Iter, Agg, Box)):
            return NotImplemented
        if not self.countable(ev, v):
            return self.countmore(ev, st, c, v)
        r = 0
        for x in iters(v):
            r = ev.arith(st, 'Add', r, x.len)
        return one(st, r)

    def countmore(self, ev, st, c, v):
        """Nothing is known about the count of an iterator that reaches sub-nodes but that it may be positive."""
        held = []
        walk(v, lambda x: held.append(x) if isinstance(x, (ONode, OIter)) else None)
        nxt = self.nextof(v)
        if not held or nxt is None or any(x.len != 0 and not any(isinstance(y[1], ONode) for y in x.items if y[0] == 'e') for x in iters(v)):
            return NotImplemented
        s = st.copy()
        s.heap['cnt'] = v
        outs = ev.call_nested(s, nxt, [Ptr(('H', 'cnt'), ())])
        if any(o.kind == 'ret' and not o.st.imp and isinstance(o.val, Agg) and o.val.var == 1 for o in outs):
            st.facts.iassume('0', 'below', -1)
            st.facts.iassume('below', '0', 1 << 60)
            st.note('the iterator reaches data of sub-nodes')
            return one(st, Lin('below', 0))
        return NotImplemented

    def nextof(self, v):
        r = None
        if isinstance(v, Agg):
            for i in self.p.insts:
                if i.get('name') == 'next' and (i.get('trait') or '').endswith('iterator::Iterator') and i.get('blocks'):
                    k = self.p.types[self.argty(i, 1)]['k']
                    if k[0] == 'ref' and k[1] == v.ty:
                        r = i['n']
        return r

    def countable(self, ev, v):
        if isinstance(v, Iter):
            return True
        if not isinstance(v, Agg):
            return False
        nxt = self.nextof(v)
        if nxt is None:
            return False
        work = [v]
        seen = set()
        while work:
            u = work.pop()
            s = State()
            its = iters(u)
            if u is None or any(len(x.items) > 1 or x.items and x.items[0][0] != 'any' for x in its) or len(seen) > 20:
                return False
            n = [0]

            def gen(x):
                if isinstance(x, Iter):
                    n[0] += 1
                    nm = 'cnt%d' % n[0]
                    s.facts.iassume('0', nm, 0)
                    s.facts.iassume(nm, '0', 1 << 60)
                    return Iter(x.items or (('any', (Datum('d@0'),), None),), Lin(nm, 0), x.mode, x.base, x.fixed)
                if isinstance(x, Agg):
                    return Agg(x.ty, x.var, tuple(gen(y) for y in x.f))
                if isinstance(x, Box):
                    return Box(gen(x.c))
                return x
            u = gen(u)
            k = key(u)
            if k in seen:
                continue
            seen.add(k)
            s.heap['cnt'] = u
            for o in ev.call_nested(s, nxt, [Ptr(('H', 'cnt'), ())]):
                if o.kind == 'panic' or o.st.imp:
                    return False
                w = o.st.heap['cnt']
                left = {x.len.s: x.len.k for x in iters(w) if isinstance(x.len, Lin)}
                if any(not isinstance(x.len, Lin) and x.len != 0 for x in iters(w)):
                    return False
                gone = [x for x in ('cnt%d' % (j + 1) for j in range(n[0])) if x not in left]
                end = isinstance(o.val, Agg) and o.val.var == 0
                for x in gone + (list(left) if end else []):
                    b = o.st.facts.ibound(x, '0')
                    if x in gone and not end and b == 1 and o.st.facts.ibound('0', x) == -1 and sum(left.values()) == 0:
                        continue
                    if b != 0:
                        return False
                if not end:
                    if sum(left.values()) != -1 and not (sum(left.values()) == 0 and any(o.st.facts.ibound(x, '0') == 1 for x in gone)):
                        return False
                    work.append(w)
        return True

    def do_descend(self, ev, st, c, nid):
        return one(st, OIter(nid, self.held(st, nid), 'desc'))

    def held(self, st, nid):
        return tuple(sorted(allnamed(st, nid, self.sh)))

    def do_retrieve(self, ev, st, c, nid):
        q = self.datum(ev, st, c.args[1])
        if not isinstance(q, Datum) or q.did != 'Q':
            self.col.bad('C08' if self.sh.kind == 'pt' else 'C09', 'wrong query ' + self.label,
                         '%s: a sub-node is asked for another datum than the query' % self.label)
            raise Dead()
        g = st.ghost[nid]
        fit = self.isinside(st, 'Q', g.b)
        if not fit:
            # nothing is promised for a query outside the node
            st.g['unfit'] = True
        has = self.held(st, nid)
        out = [(st, OIter(nid, has, 'ret'))]
        for w in has:
            nxt = []
            for s, o in out:
                key = 'must ' + w
                if fit and s.g.get(key):
                    nxt.append((s, o))
                    continue
                s2 = s.copy()
                s2.g['leaf ' + w] = False
                nxt.append((s2, OIter(nid, tuple(x for x in o.pend if x != w), 'ret')))
                s.g['leaf ' + w] = True
                nxt.append((s, o))
            out = nxt
        return out

    def oiter(self, ev, st, c):
        p = c.args[0]
        v = None
        while isinstance(p, (Ptr, VRef)):
            v = ev.load(st, p.obj, p.path) if isinstance(p, Ptr) else p.v
            if isinstance(v, Box) and isinstance(p, Ptr):
                v = v.c
                p = Ptr(p.obj, p.path + ('b',))
            if isinstance(v, (Ptr, VRef)):
                p = v
                continue
            break
        if not isinstance(v, OIter):
            return NotImplemented
        ty = c.destty if c.destty is not None else self.argty(c.inst, 0)
        if c.inst.get('name') == 'size_hint':
            raise Unsupported('size hint of a sub-node iterator')
        if not isinstance(p, Ptr):
            raise Unsupported('iterator snapshot')
        if v.kind == 'end':
            return one(st, Agg(ty, 0, ()))
        out = []
        s = st.copy()
        did = ev.fresh('d')
        self.new_datum(ev, s, did, v.nid)
        out.append((s, Agg(ty, 1, (VRef(Datum(did)),))))
        for w in v.pend:
            s = st.copy()
            ev.store(s, p.obj, p.path, OIter(v.nid, tuple(x for x in v.pend if x != w), v.kind))
            s.note('sub-node %s yields %s' % (v.nid, w))
            out.append((s, Agg(ty, 1, (VRef(Datum(w)),))))
        if not v.pend:
            s = st.copy()
            ev.store(s, p.obj, p.path, OIter(v.nid, (), 'end'))
            out.append((s, Agg(ty, 0, ())))
        return out

    # ---- distances ----
    def dist(self, ev, st, c):
        calc = self.datum(ev, st, c.args[0])
        geom, meth = [], []

        def f(v):
            if isinstance(v, OGeom):
                geom.append(v.did)
        walk(calc, f)
        findty(self.p, calc, CALC, meth)
        if len(geom) != 1 or len(meth) != 1:
            raise Unsupported('comparator of a distance')
        if geom[0] != 'Q':
            self.col.bad('C14', 'comparator ' + self.label, '%s: distances are measured from %s instead of the comparator' % (self.label, geom[0]))
        else:
            self.col.ok('C14')
        if meth[0] != self.method:
            self.col.bad('C14', 'method ' + self.label, '%s: distances use another method than the tree\'s' % self.label)
        else:
            self.col.ok('C14')
        ty = c.destty if c.destty is not None else self.argty(c.inst, 0)
        errty = self.sh.fields(ty, 1)[0][1]
        if self.method == 0:
            return one(st, Agg(ty, 1, (Agg(errty, self.errvar(errty, 'CalcMethodNotSet'), ()),)))
        x = self.datum(ev, st, c.args[1])
        if c.inst['name'] == 'dist_geom':
            if not isinstance(x, OGeom):
                raise Unsupported('distance to %r' % (x,))
            t = F('d', (x.did,))
            what = x.did
            if self.radius is not None:
                self.opened(st, x.did)
        else:
            b = self.sh.rectof(x)
            t = F('d', tuple(b))
            what = '|'.join(repr(y) for y in b)
            self.bboxaxiom(st, t, b)
        self.distfacts(st, t)
        if not self.inf and not st.facts.add_le(t, INF, True):
            raise Dead()
        if self.errs:
            root = on = False
            if c.inst['name'] == 'dist_geom':
                on = x.did == 'W'
            else:
                for nid, g in st.ghost.items():
                    if g.b and tuple(g.b) == tuple(b):
                        root = root or nid == 'R'
                        on = on or 'W' in allnamed(st, nid, self.sh)
            return self.fallible(ev, st, c, ty, errty, t, what, root, on)
        return one(st, Agg(ty, 0, (t,)))

    def opened(self, st, did):
        """A stored datum is measured: its node must be near enough to hold an answer."""
        col = self.col
        if not named(did) or did == 'Q':
            return
        if did != 'W':
            st.g['seen ' + did] = True
            return
        home = [(nid, g) for nid, g in sorted(st.ghost.items()) if g.mat is not None and g.b and self.directly(g.mat, did)]
        if len(home) != 1:
            raise Unsupported('node of a measured datum')
        nid, g = home[0]
        if nid == 'R':
            return
        d = F('d', tuple(g.b))
        path = '; '.join(str(x) for x in st.trail()[-12:])
        if st.nle(d, self.radius):
            col.ok('C29')
        else:
            col.bad('C29', 'radius ' + self.label, '%s: the data of a node that may lie beyond the radius are examined; %s' % (self.label, path), not st.imp)
        if self.nearest and st.g.get('seen V') and not self.emitted(st, 'V'):
            if st.nle(d, F('d', ('V',))):
                col.ok('C29')
            else:
                col.bad('C29', 'farther ' + self.label, '%s: the data of a node are examined that may be farther away than a datum examined before; %s' % (
                    self.label, path), not st.imp)

    def directly(self, v, did):
        for i in self.sh.vecs:
            out = []
            tally(None, v.f[i], out)
            if did in out:
                return True
        return False

    def emitted(self, st, did):
        hit = []
        walk(st.heap.get('out'), lambda x: hit.append(x) if isinstance(x, Datum) and x.did == did else None)
        return bool(hit)

    def fallible(self, ev, st, c, ty, errty, t, what, root, on):
        """The distance is available, an error, infinite, or not a number."""
        out = []
        s = st.copy()
        if s.facts.add_le(t, INF, True):
            out.append((s, Agg(ty, 0, (t,))))
        for k, name, v in (('err', 'an error', OErr('dist')), ('inf', 'infinite', INF), ('nan', 'not a number', NAN)):
            if k not in self.errs:
                continue
            s = st.copy()
            s.g['root ' + k if root else k] = True
            if on:
                s.g['lost'] = True
            s.note('the distance to %s is %s' % (what, name))
            out.append((s, Agg(ty, 1 if k == 'err' else 0, (v,))))
        return out

    def errvar(self, ty, name):
        for i, v in enumerate(self.p.adtinfo(ty)['variants']):
            if v['name'] == name:
                return i
        raise Unsupported('no error %s' % name)

    def distfacts(self, st, t):
        if not st.facts.add_le(ZERO, t):
            raise Dead()

    def bboxaxiom(self, st, t, b):
        """The distance to a rectangle never exceeds the distance to what lies in it."""
        for nid, g in st.ghost.items():
            if g.b and tuple(g.b) == tuple(b):
                for w in allnamed(st, nid, self.sh):
                    if not st.facts.add_le(t, F('d', (w,))):
                        raise Dead()
        seen = set(o for x in b for o in x.owners())
        if len(seen) == 1:
            o = next(iter(seen))
            if o[0] == 'd' or o in ('V', 'W'):
                if tuple(self.coords(o)) == tuple(b):
                    if not st.facts.add_le(t, F('d', (o,))):
                        raise Dead()


def allnamed(st, nid, sh):
    r = []
    tally(st, ONode(nid), r)
    return r


def findty(p, v, suffix, out):
    if isinstance(v, Agg):
        if v.ty is not None and p.types[v.ty]['k'][0] == 'adt' and p.types[v.ty]['k'][1].endswith(suffix):
            out.append(v.var)
            return
        for x in v.f:
            findty(p, x, suffix, out)
    elif isinstance(v, (VRef,)):
        findty(p, v.v, suffix, out)
    elif isinstance(v, Box):
        findty(p, v.c, suffix, out)


def iters(v):
    r = []
    walk(v, lambda x: r.append(x) if isinstance(x, Iter) else None)
    return r


def tally(st, v, out):
    """Named data stored (owned) in v."""
    if isinstance(v, Datum):
        if named(v.did):
            out.append(v.did)
    elif isinstance(v, ONode):
        g = st.ghost.get(v.nid)
        if g is None:
            return
        if g.mat is not None:
            tally(st, g.mat, out)
        else:
            out.extend(g.has)
    elif isinstance(v, Agg):
        for x in v.f:
            tally(st, x, out)
    elif isinstance(v, Box):
        tally(st, v.c, out)
    elif isinstance(v, (Seq, Iter)):
        for it in v.items:
            tallyitem(st, it, out)


def tallyitem(st, it, out):
    if it[0] == 'e':
        tally(st, it[1], out)
    elif it[0] == 'bag':
        for x in it[1]:
            tallyitem(st, x, out)


def submap(t, owner, b):
    """Replace var(owner, x1..y2) by the given bounds."""
    return submap2(t, {}, b)


def submap2(t, xm, b):
    """Replace the variables of datum X and node S."""
    if t.op == 'v':
        o, a = t.args
        if o == 'S' and a in XY:
            return b[XY.index(a)]
        if o == 'X' and a in xm:
            return xm[a]
        return t
    if not (t.owners() & {'X', 'S'}):
        return t
    args = tuple(submap2(a, xm, b) if isinstance(a, F) else a for a in t.args)
    if t.op == 'add':
        return add(*args)
    if t.op == 'sub':
        return sub(*args)
    if t.op == 'mul':
        return mul(*args)
    if t.op == 'div':
        return div(*args)
    if t.op == 'neg':
        return neg(*args)
    if t.op == 'mid':
        return midterm(*args)
    return F(t.op, args)


def assignments(names, slots):
    """All ways to put the names into slots: dict slot -> tuple."""
    import itertools
    if not names:
        return [{}]
    r = []
    for combo in itertools.product(slots, repeat=len(names)):
        d = {}
        for w, s in zip(names, combo):
            d[s] = d.get(s, ()) + (w,)
        r.append(d)
    return r


def orders(h, assign, vecs, nid):
    """All orders of the named data inside each vector: dict vec -> (items, count)."""
    r = [{}]
    for i in vecs:
        r = [dict(list(d.items()) + [(i, o)]) for d in r for o in h.vecseq(nid, assign.get(i, ()))]
    return r


def wtext(w):
    if isinstance(w, tuple):
        return 'for example with ' + ', '.join('%r=%.6g' % kv for kv in sorted(w[0].items(), key=lambda kv: repr(kv[0])) if '@' not in repr(kv[0]))
    return 'no concrete example was found in %s samples' % w
