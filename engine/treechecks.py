"""Properties of the quadtrees decided by abstract interpretation of the node and tree functions."""
import itertools
import multiprocessing
import os
import re

import interp
from dom import *
from values import *
from interp import Interp, State, Ghost, Outcome
from models import Models
from mk import Mk
from canon import isanon, named
import fmtmodel
import tree
from tree import note, earlier, Shape, Learn, Collector, TreeHooks, tally, XY

NAMES = {'pt': 'point quadtree', 'bx': 'bounds quadtree'}


class Tree:
    """Staged analysis of one tree type; every stage adds obligations to the collector."""

    def __init__(self, prog, kind, props):
        self.p = prog
        self.kind = kind
        self.nm = NAMES[kind]
        self.col = Collector()
        self.sh = Shape(prog, kind)
        self.learn = Learn()
        self.props = props
        self.done = {}
        interp.MODE['real'] = False

    # ---- plumbing ----
    def stage(self, name, props):
        if name in self.done:
            if self.done[name]:
                raise Unsupported(self.done[name])
            return
        interp.MODE['real'] = False
        try:
            getattr(self, 'st_' + name)()
            self.done[name] = None
        except Unsupported as e:
            self.done[name] = '%s (%s)' % (e, name)
            raise Unsupported(self.done[name])

    def hooks(self, mode, label):
        h = TreeHooks(self.p, self.sh, self.learn, self.col, mode)
        h.label = label
        return h

    def interp(self, h, budget=6000000):
        return Interp(self.p, Models(), h, budget)

    def run(self, ev, st, n, args, label):
        s = st.copy()
        ev.enter(s, n, args, None, None, True)
        try:
            outs = ev.run(s)
        except Unsupported as e:
            if 'too many loop states' not in str(e) or not ev.counted or ev.widen <= 5:
                raise
            # a counter along with much else: give up on its exact values sooner
            ev.widen = 5
            s = st.copy()
            ev.enter(s, n, args, None, None, True)
            outs = ev.run(s)
        self.col.runs.append((label, ev, len(outs)))
        deep = ev.deep()
        for x in deep:
            path = self.p.insts[x]['path']
            self.col.bad('C23', 'stack %s %s' % (label, path), '%s: %s calls itself (%s) with nothing that bounds the nesting by the depth of the '
                         'tree, so a large tree exhausts the call stack' % (label, path, ev.rec_span.get(x)))
        if not deep:
            self.col.ok('C23')
        return outs

    def panics(self, outs, label, prop='C23'):
        r = []
        for o in outs:
            if o.kind == 'panic':
                if 're-enters the same node' in str(o.val) or 'unbounded recursion' in str(o.val):
                    self.col.bad('C04', 'endless ' + label, '%s: %s; %s' % (label, o.val, self.trail(o)))
                self.col.bad(prop, 'panic %s %s' % (label, str(o.val)[:60]), '%s can panic: %s at %s; %s' % (
                    label, o.val, o.span, self.trail(o)), not o.st.imp)
            else:
                self.col.ok(prop)
                r.append(o)
        return r

    def trail(self, o, n=12):
        st = o.st if isinstance(o, Outcome) else o
        return 'path: ' + ' > '.join(st.trail()[-n:])

    def inst(self, nm):
        return self.sh.root(nm)

    def mkrect(self, st, name):
        b = tuple(var(name, a) for a in XY)
        st.facts.add_le(b[0], b[2])
        st.facts.add_le(b[1], b[3])
        return b

    def argty(self, n, i):
        t = self.p.insts[n]['locals'][i]
        return t if isinstance(t, int) else t[0]

    def int0(self, st, name, hi=1 << 60):
        st.facts.iassume('0', name, 0)
        st.facts.iassume(name, '0', hi)
        return Lin(name, 0)

    # ---- constructors ----
    def st_new(self):
        sh, col = self.sh, self.col
        for nm in ('new', 'from_bounds'):
            n = self.inst(nm)
            label = '%s %s' % (self.nm, nm)
            h = self.hooks('tree', label)
            ev = self.interp(h)
            for var_ in range(len(self.p.adtinfo(self.argty(n, 2))['variants'])):
                st = State()
                b = self.mkrect(st, 'B')
                args = [sh.rectval(self.argty(n, 1), b), Agg(self.argty(n, 2), var_, ())]
                if nm == 'new':
                    args += [self.int0(st, 'md', 255), self.int0(st, 'mc', (1 << 64) - 1)]
                for o in self.panics(self.run(ev, st, n, args, label), label):
                    v = o.val
                    nd = v
                    for x in sh.nodepath:
                        nd = nd.f[x]
                    if nm == 'new':
                        if var_ == 0:
                            sh.classify(nd, b)
                        sh.tproto = v
                        self.treefields(v)
                        want = (Lin('md', 0), Lin('mc', 0))
                    else:
                        want = (4, 4)
                    if sh.subs(nd) is not None:
                        raise Unsupported('a new tree has sub-nodes')
                    sh.record(nd)
                    got = (nd.f[sh.maxd], nd.f[sh.maxc])
                    if tuple(map(key, got)) == tuple(map(key, want)) and nd.f[sh.depth] == 0:
                        col.ok('C04')
                    else:
                        col.bad('C04', 'limits ' + label, '%s: the root starts with depth %r, maximum depth %r and maximum number of children %r; '
                                'expected 0, %r, %r' % (label, nd.f[sh.depth], got[0], got[1], want[0], want[1]))
                    if sh.rectof(nd.f[sh.rect]) == b:
                        col.ok('C03')
                    else:
                        col.bad('C03', 'bounds ' + label, '%s: the root rectangle is not the given bounds' % label)
                    if sh.sizeidx is not None:
                        if v.f[sh.sizeidx] == 0:
                            col.ok('C02')
                        else:
                            col.bad('C02', 'size ' + label, '%s: a new tree counts %r data' % (label, v.f[sh.sizeidx]))
                    if sh.calcidx is not None:
                        cv = v.f[sh.calcidx]
                        if isinstance(cv, Agg) and cv.var == var_:
                            col.ok('C14')
                        else:
                            col.bad('C14', 'method ' + label, '%s: the tree does not keep the calculation method it is given' % label)

    def treefields(self, v):
        """Roles of the tree fields."""
        sh = self.sh
        sh.sizeidx = sh.calcidx = None
        sh.textras = []
        sizes = []
        for i, (nm, ft) in enumerate(sh.fields(sh.treety)):
            k = self.p.types[ft]['k']
            if sh.nodepath and i == sh.nodepath[0]:
                continue
            if k[0] == 'uint':
                sizes.append(i)
                sh.textras.append((i, ft))
            elif k[0] == 'adt' and k[1].endswith('::CalcMethod') and sh.calcidx is None:
                sh.calcidx = i
                sh.calcty = ft
            elif isinstance(v.f[i], Agg) and not v.f[i].f and len(self.p.adtinfo(ft)['variants']) == 1 or k[0] == 'adt' and 'PhantomData' in k[1]:
                pass
            elif sh.plain(ft):
                sh.textras.append((i, ft))
            else:
                raise Unsupported('tree field %s' % nm)
        if len(sizes) > 1:
            sizes = self.readby('size', sizes)
        if len(sizes) != 1:
            raise Unsupported('no size field')
        sh.sizeidx = sizes[0]
        sh.textras = [x for x in sh.textras if x[0] != sh.sizeidx]
        sh.texinit = {i: v.f[i] for i, _ in sh.textras}
        sh.texvals = None

    def readby(self, root, cands):
        """The candidate fields whose value a method returns."""
        sh = self.sh
        h = self.hooks('tree', root)
        ev = self.interp(h)
        st = State()
        sh.sizeidx = cands[0]
        sh.texvals = {i: (Wild(ft),) for i, ft in sh.textras}
        t = self.tree(st)
        f = list(st.heap['tree'].f)
        for i in cands:
            f[i] = self.int0(st, 'field%d' % i)
        st.heap['tree'] = Agg(sh.treety, 0, tuple(f))
        r = set()
        for o in self.run(ev, st, self.inst(root), [t], root):
            r |= set(i for i in cands if o.kind == 'ret' and key(o.val) == key(f[i]))
        return sorted(r)

    # ---- node insertion ----
    def st_roles(self):
        """Which vector a leaf keeps its data in: insert into a fresh leaf with room."""
        self.stage('new', ())

    def subject(self, h, ev, st):
        b = self.mkrect(st, 'S')
        dep = self.int0(st, 'dep', 255)
        md = self.int0(st, 'maxd', 255)
        mc = self.int0(st, 'maxc', (1 << 64) - 1)
        st.facts.iassume('dep', 'maxd', 0)
        h.subject = 'S'
        st.heap['subject'] = ONode('S')
        st.ghost['S'] = Ghost(b, dep, md, mc)
        return st.ghost['S']

    def insert_fn(self):
        """The recursive insertion function of nodes that the tree uses."""
        p, sh = self.p, self.sh
        h = self.hooks('insert', '')
        seen = set()
        work = [self.inst('insert')]
        r = []
        while work:
            x = work.pop()
            for b in p.insts[x].get('blocks') or ():
                t = b['t']
                if t[0] == 'call' and 'i' in t[1]:
                    y = t[1]['i']
                    if y in seen:
                        continue
                    seen.add(y)
                    i = p.insts[y]
                    if i.get('blocks') and i['argc'] >= 1 and y in h.cutfns('insert') and h.nodefn(i) == 'insert':
                        r.append(y)
                    work.append(y)
        if not r:
            raise Unsupported('no recursive insertion function')
        return sorted(r)

    def st_insert(self):
        self.stage('new', ())
        sh, L, col = self.sh, self.learn, self.col
        fns = self.insert_fn()
        if len(fns) != 1:
            raise Unsupported('several recursive insertion functions')
        n = fns[0]
        self.insfn = n
        L.leafvecs, L.intvecs = set(), set()
        self.leafdone = None
        for rnd in range(5 + 2 * len(sh.extras)):
            before = (set(L.leafvecs), set(L.intvecs), L.tiling, self.exkey())
            self.keep = False
            mark = (len(self.col.obl), len(self.col.runs), set(self.col.seen))
            self.insert_round(n)
            if before == (L.leafvecs, L.intvecs, L.tiling, self.exkey()):
                return
            if self.leafdone is not None and not self.keep:
                mark = self.leafobl + (None,)       # the leaf cases stand
            del self.col.obl[mark[0]:]
            del self.col.runs[mark[1]:]
            self.col.seen = set((x[0], x[3]) for x in self.col.obl if not x[1])
        raise Unsupported('insertion roles do not settle')

    def exkey(self):
        return sorted((k, key(v[0])) for k, v in self.sh.exvals.items()) if self.sh.extras else ()

    def insert_round(self, n):
        sh, L = self.sh, self.learn
        label = '%s insertion into a node without sub-nodes' % self.nm
        # the cases below depend on the vectors of leaves only
        if self.leafdone == L.leafvecs and L.tiling is not None and (not sh.extras or self.leafex == self.exkey()):
            self.keep = True
            self.insert_interior(n)
            return
        self.leafdone = set(L.leafvecs) or {sh.vecs[0]}
        self.leafex = self.exkey()
        for names in ((), ('W',)):
            for full in (False, True):
                h = self.hooks('insert', label)
                ev = self.interp(h)
                st = State()
                g = self.subject(h, ev, st)
                new = 'd1' if names else 'X'
                ev.fresh_n = max(ev.fresh_n, 1)
                h.track = frozenset((new,) + names + ('S',))
                for d in (new,) + names:
                    h.wellformed(st, d)
                    h.inside(st, d, g.b)
                ls = h.leafvals(ev, st, 'S', g, names)
                for s, v in ls:
                    lens = [v.f[i].len for i in sorted(L.leafvecs) or sh.vecs[:1]]
                    tot = self.total(ev, s, lens)
                    if tot is None:
                        raise Unsupported('leaf data in several vectors')
                    if full:
                        # over-full leaves exist at the maximum depth only
                        s.facts.iassume('maxd', 'dep', 0)
                    elif not (isinstance(tot, Lin) and s.facts.iassume(tot.s, 'maxc', -tot.k)):
                        continue
                    s.ghost['S'] = g.rep(mat=v)
                    self.insert_case(ev, h, s, n, new, names, label, tot, True)
        self.leafdone = set(L.leafvecs) if self.leafdone == L.leafvecs else None
        self.leafobl = (len(self.col.obl), len(self.col.runs))
        if L.tiling is not None:
            self.insert_interior(n)

    def insert_interior(self, n):
        sh, L = self.sh, self.learn
        label = '%s insertion into a node with sub-nodes' % self.nm
        for names in ((), ('W',)):
            h = self.hooks('insert', label)
            ev = self.interp(h)
            st = State()
            g = self.subject(h, ev, st)
            st.facts.iassume('dep', 'maxd', -1)
            new = 'd1' if names else 'X'
            ev.fresh_n = max(ev.fresh_n, 1)
            h.track = frozenset((new,) + names + ('S',))
            for d in (new,) + names:
                h.wellformed(st, d)
                h.inside(st, d, g.b)
            for s, v in h.intvals(ev, st, 'S', g, names, lambda k: 'N%d' % k):
                s.ghost['S'] = s.ghost['S'].rep(mat=v)
                self.insert_case(ev, h, s, n, new, names, label, None, False)

    def total(self, ev, st, lens):
        r = 0
        for x in lens:
            r = ev.arith(st, 'Add', r, x)
        return None if st.imp else r

    def insert_case(self, ev, h, st, n, new, names, label, pre, leaf):
        col = self.col
        outs = self.run(ev, st, n, [Ptr(('N', 'S'), ()), Datum(new)], label)
        track = ((new,) if named(new) else ()) + tuple(names)
        for o in self.panics(outs, label):
            certain = not o.st.imp
            v = o.val
            ok = not (isinstance(v, Agg) and self.p.tyname(self.argty(n, 0)).startswith('core::result::Result') and v.var != 0)
            if ok:
                col.ok('C03')
            else:
                err = self.errname(o.st, v.f[0])
                col.bad('C03', 'refused ' + label, '%s: a datum within the node is refused with %s; %s' % (label, err, self.trail(o)), certain)
            post = o.st.ghost['S'].mat
            if post is None:
                raise Unsupported('node vanished')
            got = []
            tally(o.st, post, got)
            want = list(names) + (['X'] if ok else [])
            for w in track:
                k, e = got.count(w), want.count(w)
                if k == e:
                    col.ok('C01')
                else:
                    what = 'the inserted datum' if w == 'X' else 'a datum stored before'
                    col.bad('C01', '%s %d %s' % (w, k, label), '%s: %s is stored %d times afterwards instead of %d; %s' % (
                        label, what, k, e, self.trail(o)), certain)
            self.check_node(ev, h, o, post, track, label, pre, leaf, certain)

    def errname(self, st, e):
        if isinstance(e, Agg) and e.ty is not None:
            try:
                return self.p.adtinfo(e.ty)['variants'][e.var]['name']
            except (TypeError, KeyError):
                pass
        return repr(e)

    def known_le(self, st, a, b):
        s, k = isplit(a)
        u, l = isplit(b)
        if s == u:
            return k <= l
        d = st.facts.ibound(s, u)
        return d is not None and d + k - l <= 0

    def check_node(self, ev, h, o, v, names, label, pre, leaf, certain):
        sh, L, col, st = self.sh, self.learn, self.col, o.st
        g = st.ghost['S']
        same = sh.rectof(v.f[sh.rect]) == g.b and all(key(v.f[i]) == key(x) for i, x in (
            (sh.depth, g.depth), (sh.maxd, g.maxd), (sh.maxc, g.maxc)))
        if same:
            col.ok('C05')
        else:
            col.bad('C05', 'header ' + label, '%s: the rectangle, depth or limits of the node change; %s' % (label, self.trail(o)), certain)
        sh.record(v)
        subs = sh.subs(v)
        for x in subs or ():
            if isinstance(x, Agg):
                sh.record(x)
        if subs is None:
            if not leaf:
                col.bad('C01', 'subs lost ' + label, '%s: the sub-nodes are lost; %s' % (label, self.trail(o)), certain)
                return
            lens = []
            for i in sh.vecs:
                if isinstance(v.f[i], Seq) and (v.f[i].items or v.f[i].len != 0):
                    L.leafvecs.add(i)
                    lens.append(v.f[i].len)
            tot = self.total(ev, st, lens)
            if tot is None:
                raise Unsupported('leaf length')
            if self.known_le(st, tot, g.maxc) or self.known_le(st, g.maxd, g.depth):
                col.ok('C04')
            else:
                col.bad('C04', 'overfull ' + label, '%s: a node above the maximum depth keeps more than the maximum number of children without '
                        'being subdivided (%r data, limit %r); %s' % (label, tot, g.maxc, self.trail(o)), certain)
            return
        if len(subs) != 4:
            raise Unsupported('%d sub-nodes' % len(subs))
        for i in sh.vecs:
            if isinstance(v.f[i], Seq) and v.f[i].items:
                L.intvecs.add(i)
        if leaf:
            # this path subdivided
            if self.known_le(st, g.maxc, pre):
                col.ok('C04')
            else:
                col.bad('C04', 'early ' + label, '%s: a node that is not full is subdivided (%r data, limit %r); %s' % (
                    label, pre, g.maxc, self.trail(o)), certain)
            if self.known_le(st, ladd(g.depth, 1), g.maxd):
                col.ok('C04')
            else:
                col.bad('C04', 'deep ' + label, '%s: a node at the maximum depth is subdivided; %s' % (label, self.trail(o)), certain)
            self.check_tiling(ev, o, subs, g, label, certain)
        self.learn_routes(h, o, v, subs, names, label, certain)

    def subhead(self, st, x):
        sh = self.sh
        if isinstance(x, ONode):
            g = st.ghost[x.nid]
            return tuple(g.b), g.depth, g.maxd, g.maxc
        return tuple(sh.rectof(x.f[sh.rect])), x.f[sh.depth], x.f[sh.maxd], x.f[sh.maxc]

    def check_tiling(self, ev, o, subs, g, label, certain):
        """The rectangles of fresh sub-nodes tile the parent at its midpoint; depth and limits are handed down."""
        col, st, L = self.col, o.st, self.learn
        b = g.b
        mx, my = midterm(b[0], b[2]), midterm(b[1], b[3])
        heads = [self.subhead(st, x) for x in subs]
        quads = {}
        for k, (rb, dep, md, mc) in enumerate(heads):
            for want, q in (((b[0], b[1], mx, my), 'll'), ((mx, b[1], b[2], my), 'hl'), ((mx, my, b[2], b[3]), 'hh'), ((b[0], my, mx, b[3]), 'lh')):
                if all(st.neq(x, y) or self.realeq(st, x, y) for x, y in zip(rb, want)):
                    quads.setdefault(q, k)
            if key(dep) == key(ladd(g.depth, 1)):
                col.ok('C04')
            else:
                col.bad('C04', 'child depth %d' % k, '%s: sub-node %d gets depth %r below a node of depth %r' % (label, k, dep, g.depth), certain)
            if key(md) == key(g.maxd) and key(mc) == key(g.maxc):
                col.ok('C04')
            else:
                col.bad('C04', 'child limits %d' % k, '%s: sub-node %d gets limits %r, %r instead of %r, %r' % (label, k, md, mc, g.maxd, g.maxc), certain)
        degenerate = st.facts.eq(b[0], b[2]) or st.facts.eq(b[1], b[3])
        if len(quads) == 4 and len(set(quads.values())) == 4:
            col.ok('C05')
        elif degenerate and len(quads) == 4:
            col.ok('C05')
        else:
            col.bad('C05', 'tiling', '%s: the four sub-rectangles %s do not tile %r at its midpoint' % (
                label, ' '.join(repr(x[0]) for x in heads), b), certain)
        if quads.get('ll') == 0 and quads.get('hl') == 1 and quads.get('hh') == 2 and quads.get('lh') == 3:
            pass
        t = tuple(x[0] for x in heads)
        if all(o2 in ('S',) for x in t for y in x for o2 in y.owners()):
            if L.tiling is None and not degenerate:
                L.tiling = t
                L.quad = {k: q for q, k in quads.items()}
        else:
            raise Unsupported('sub-rectangles depend on %r' % (t,))

    def realeq(self, st, a, b):
        import real
        a = demid(a)
        b = demid(b)
        try:
            return real.rpoly(a) == real.rpoly(b)
        except Exception:
            return False

    def learn_routes(self, h, o, v, subs, names, label, certain):
        sh, L, col, st = self.sh, self.learn, self.col, o.st
        for w in names:
            for k, x in enumerate(subs):
                r = []
                tally(st, x, r)
                if w in r:
                    self.route(L.routes.setdefault(k, {}), st, w, h)
            for i in sh.vecs:
                r = []
                tally(st, v.f[i], r)
                if w in r:
                    self.route(L.stuck.setdefault(i, {}), st, w, h)
                    self.check_stuck(h, o, w, subs, label, certain)

    def route(self, tab, st, w, h):
        """Record what is known about datum w (as X) relative to node S."""
        f = st.facts
        fl = []
        ren = {w: 'X'}
        sub = {}
        rel = [t for t in f.terms() if t.owners() <= {w, 'S'}]
        for a in rel:
            for b, s in f.reach(a).items():
                if b is not a and b in rel_set(rel) and (w in a.owners() or w in b.owners()):
                    fl.append((fmap(a, ren), fmap(b, ren), s))
        fl.sort(key=lambda x: (x[0].id, x[1].id))
        tab.setdefault(tuple((a.id, b.id, s) for a, b, s in fl), fl)

    def check_stuck(self, h, o, w, subs, label, certain):
        """Data kept at a node with sub-nodes do not fit the sub-node their centre falls in."""
        col, st = self.col, o.st
        if self.kind == 'pt':
            return
        g = st.ghost['S']
        b = g.b
        c = h.coords(w)
        cx, cy = midterm(c[0], c[2]), midterm(c[1], c[3])
        from pure import cells
        rects = [self.subhead(st, x)[0] for x in subs]
        import refute
        for s, yes in cells(st, lambda s: self.fits(s, c, rects)):
            if not yes:
                col.ok('C05')
            else:
                ex = refute.feasible(s.facts)
                if ex is None:
                    col.bad('C05', 'stuck ' + label, '%s: a datum that fits its sub-node may be kept at the node; %s' % (label, self.trail(o)), None)
                else:
                    col.bad('C05', 'stuck ' + label, '%s: a datum that fits the sub-node its centre falls in is kept at the node; %s; for example %s' % (
                        label, self.trail(o), ex), certain)

    # ---- whole trees ----
    def tree(self, st, size=None, has=(), method=1, b=None):
        """A tree whose root node is opaque."""
        sh = self.sh
        b = b or self.mkrect(st, 'R')
        if size is None:
            size = self.int0(st, 'size')
        md = self.int0(st, 'maxd', 255)
        mc = self.int0(st, 'maxc', (1 << 64) - 1)
        st.ghost['R'] = Ghost(b, 0, md, mc, tuple(has))
        f = list(sh.tproto.f)
        f[sh.sizeidx] = size
        if sh.calcidx is not None:
            f[sh.calcidx] = Agg(sh.calcty, method, ())
        if sh.textras and sh.texvals is None:
            self.tree_history()
        for i, ft in sh.textras:
            f[i] = (sh.texvals.get(i) or (Wild(ft),))[0]
        v = Agg(sh.treety, 0, tuple(f))
        v = self.plug(v, sh.nodepath, ONode('R'))
        st.heap['tree'] = v
        return Ptr(('H', 'tree'), ())

    def plug(self, v, path, x):
        if not path:
            return x
        f = list(v.f)
        f[path[0]] = self.plug(f[path[0]], path[1:], x)
        return Agg(v.ty, v.var, tuple(f))

    def sizeof(self, st):
        return st.heap['tree'].f[self.sh.sizeidx]

    def relations(self, h, st, did, b):
        """Every way the bounding box of did relates to rectangle b: (state, tag)."""
        c = h.coords(did)
        r = []
        s = st.copy()
        if all(s.facts.add_le(x, y) for x, y in ((b[0], c[0]), (b[1], c[1]), (c[2], b[2]), (c[3], b[3]))):
            r.append((s, 'inside'))
        for x, y in ((c[0], b[0]), (c[1], b[1]), (b[2], c[2]), (b[3], c[3])):
            s = st.copy()
            if s.facts.add_le(x, y, True):
                r.append((s, 'outside'))
        if self.kind == 'bx':
            for s, t in list(r):
                s.g['bbox ' + did] = True
            s = st.copy()
            s.g['bbox ' + did] = False
            r.append((s, 'nobox'))
        return r

    def tree_history(self):
        """What the other fields of the tree may hold, from the constructor on: sh.texhist lists combinations that do arise
        (with the number of data stored then), sh.texvals what each field holds in all of them or 'any value'."""
        sh = self.sh
        sh.texvals = {i: (Wild(ft),) for i, ft in sh.textras}
        n = self.inst('insert')
        hist = [(dict(sh.texinit), 0)]
        seen = {(self.texkey(sh.texinit), 0)}
        for vals, least in hist:
            h = self.hooks('tree', 'insert')
            h.query = 'X'
            ev = self.interp(h)
            st = State()
            t = self.tree(st, None, ())
            self.past(h, st, vals, least)
            h.wellformed(st, 'X')
            for s, rel in self.relations(h, st, 'X', st.ghost['R'].b):
                for o in self.run(ev, s, n, [t, Datum('X')], 'insert'):
                    if o.kind != 'ret':
                        continue
                    nxt = {}
                    for i, ft in sh.textras:
                        v = o.st.heap['tree'].f[i]
                        if isinstance(vals[i], Wild) and vals[i].count and (
                                isinstance(v, int) or isinstance(v, Lin) and v.s[0] == 'w' and isanon(v.s) and v.k in (0, 1)):
                            nxt[i] = vals[i]
                        else:
                            nxt[i] = vals[i] if key(v) == key(vals[i]) else earlier(v, ft)
                    least2 = 1 if isinstance(o.val, Agg) and o.val.var == 0 else least
                    k = (self.texkey(nxt), least2)
                    if k not in seen and len(hist) < 12:
                        for i, ft in sh.textras:
                            got = set(key(x[0][i]) for x in hist) | {key(nxt[i])}
                            if len(got) > 3 and not isinstance(nxt[i], Wild):
                                nxt[i] = Wild(ft, got == {0, 1, 2, 3})
                        k = (self.texkey(nxt), least2)
                    if k not in seen:
                        seen.add(k)
                        hist.append((nxt, least2))
                    if len(hist) > 16:
                        hist = [({i: Wild(ft) for i, ft in sh.textras}, 0)]
                        break
        sh.texhist = hist
        tab = {}
        for i, ft in sh.textras:
            for vals, _ in hist:
                note(tab, i, ft, vals[i])
        sh.texvals = tab

    def texkey(self, vals):
        return tuple(sorted((i, key(v)) for i, v in vals.items()))

    def past(self, h, st, vals, least):
        """Put the tree into a situation of tree_history."""
        sh = self.sh
        f = list(st.heap['tree'].f)
        used = []
        for i, v in vals.items():
            f[i] = v
            walk(v, lambda x: used.append(x) if isinstance(x, Datum) or isinstance(x, F) and 'E' in x.owners() else None)
        st.heap['tree'] = Agg(sh.treety, 0, tuple(f))
        b = st.ghost['R'].b
        if used:
            h.wellformed(st, 'E')
            h.inside(st, 'E', b)
            if self.kind == 'bx':
                st.g['bbox E'] = True
        size = f[sh.sizeidx]
        if isinstance(size, Lin):
            if least:
                return st.facts.iassume('0', size.s, -least)
            return st.facts.iassume(size.s, '0', 0)
        return True

    def st_tree(self):
        """Insertion into the tree, size() and calc_method()."""
        self.stage('insert', ())
        sh, col = self.sh, self.col
        label = '%s insert' % self.nm
        n = self.inst('insert')
        hist = [None]
        if sh.textras:
            if sh.texvals is None:
                self.tree_history()
            hist = sh.texhist
        for has, past in itertools.product(((), ('W',)), hist):
            h = self.hooks('tree', label)
            h.query = 'X'
            ev = self.interp(h)
            st0 = State()
            t = self.tree(st0, None, has)
            h.wellformed(st0, 'X')
            if past is not None:
                if has and not past[1]:
                    continue
                if not self.past(h, st0, *past):
                    continue
            b = st0.ghost['R'].b
            for st, rel in self.relations(h, st0, 'X', b):
                for o in self.panics(self.run(ev, st, n, [t, Datum('X')], label), label):
                    self.tree_insert_case(h, o, rel, has, label)
        for nm, idx, prop, what in (('size', sh.sizeidx, 'C02', 'the counter'), ('calc_method', sh.calcidx, 'C14', 'the calculation method')):
            label = '%s %s' % (self.nm, nm)
            n = self.inst(nm)
            if idx is None:
                continue
            for m in range(3) if nm == 'calc_method' else (1,):
                h = self.hooks('tree', label)
                ev = self.interp(h)
                st = State()
                t = self.tree(st, None, ('W',), m)
                want = st.heap['tree'].f[idx]
                for o in self.panics(self.run(ev, st, n, [t], label), label):
                    if key(o.val) == key(want):
                        col.ok(prop)
                    else:
                        col.bad(prop, 'value ' + label, '%s: the result is %r, not %s kept by the tree' % (label, o.val, what), not o.st.imp and not unclear(o.val))

    def tree_insert_case(self, h, o, rel, has, label):
        col, st = self.col, o.st
        certain = not st.imp
        v = o.val
        if not isinstance(v, Agg) or not self.p.tyname(self.argty(self.inst('insert'), 0)).startswith('core::result::Result'):
            raise Unsupported('result of insert')
        ok = v.var == 0
        err = None if ok else self.errname(st, v.f[0])
        want = {'inside': None, 'outside': 'OutOfBounds', 'nobox': 'CannotMakeBbox'}[rel]
        descr = {'inside': 'a datum within the bounds', 'outside': 'a datum not within the bounds', 'nobox': 'a datum without a bounding box'}[rel]
        if err == want:
            col.ok('C03')
        else:
            col.bad('C03', 'answer %s %s' % (rel, err), '%s: %s is answered with %s instead of %s; %s' % (
                label, descr, err or 'Ok', want or 'Ok', self.trail(o)), certain)
        got = []
        tally(st, st.heap['tree'], got)
        for w in ('X',) + tuple(has):
            e = 1 if w != 'X' or ok else 0
            k = got.count(w)
            if k == e:
                col.ok('C01')
            else:
                col.bad('C01', '%s %d %s' % (w, k, label), '%s: %s is stored %d times afterwards instead of %d (%s, answer %s); %s' % (
                    label, 'the inserted datum' if w == 'X' else 'a datum stored before', k, e, descr, err or 'Ok', self.trail(o)), certain)
        size = self.sizeof(st)
        wants = Lin('size', 1) if ok else Lin('size', 0)
        if key(size) == key(wants):
            col.ok('C02')
        else:
            col.bad('C02', 'size %s' % (err or 'Ok'), '%s: the counter goes from size to %r when the answer is %s; %s' % (
                label, size, err or 'Ok', self.trail(o)), certain and not unclear(size))
        tr = st.heap['tree']
        if isinstance(tr, Agg) and isinstance(self.at(tr, self.sh.nodepath), ONode):
            col.ok('C05')
        else:
            raise Unsupported('insertion replaces the root node')

    def at(self, v, path):
        for i in path:
            v = v.f[i]
        return v

    # ---- draining iterators ----
    def drain_inst(self, ty):
        for i in self.p.insts:
            if i['path'] == 'vp_harness::drain' and self.argty(i['n'], 1) == ty and i.get('blocks'):
                return i['n']
        raise Unsupported('no drain for %s' % self.p.tyname(ty))

    def drain(self, ev, st, it, ty, label):
        st = st.copy()
        st.heap['out'] = Seq((), 0)
        return self.run(ev, st, self.drain_inst(ty), [it, Ptr(('H', 'out'), ())], label)

    def drain_all(self, ev, outs, ty, label, check):
        """Drain every returned iterator; states that differ in coordinate facts only are first tried together."""
        from canon import canonical, join
        groups = {}
        for o in outs:
            st = o.st.copy()
            st.heap['ret'] = o.val
            st, shape = canonical(ev, st)
            groups.setdefault(shape, []).append(st)
        for sts in groups.values():
            if len(sts) > 1:
                j = sts[0].copy()
                for i, s in enumerate(sts[1:]):
                    j.facts = join(j.facts, s.facts, 0)
                    j.imp = j.imp or s.imp
                mark = (len(self.col.obl), len(self.col.runs), set(self.col.seen))
                try:
                    self.drain_one(ev, j, ty, label, check)
                    if all(x[1] for x in self.col.obl[mark[0]:]):
                        continue
                except Unsupported:
                    pass
                del self.col.obl[mark[0]:]
                del self.col.runs[mark[1]:]
                self.col.seen = mark[2]
            for s in sts:
                self.drain_one(ev, s, ty, label, check)

    def drain_one(self, ev, st, ty, label, check):
        it = st.heap['ret']
        st = st.copy()
        del st.heap['ret']
        for o in self.panics(self.drain(ev, st, it, ty, label), label):
            check(o)

    def yielded(self, st, ws):
        """Named data in the output, in order."""
        out = st.heap['out']
        if not isinstance(out, Seq):
            raise Unsupported('output %r' % (out,))
        r = []
        for it in out.items:
            def f(v):
                if isinstance(v, Datum) and v.did in ws:
                    r.append(v.did)
            if it[0] == 'e':
                walk(it[1], f)
            else:
                x = []
                from values import walk_item
                def g(v):
                    if isinstance(v, Datum) and v.did in ws:
                        x.append(v.did)
                walk_item(it, g)
                if x:
                    raise Unsupported('summarised output')
        return r

    def node_subject(self, h, ev, names, leaf):
        """A node without (with) sub-nodes holding the named data, as (state, placement)."""
        st = State()
        b = self.mkrect(st, 'S')
        dep = self.int0(st, 'dep', 255)
        md = self.int0(st, 'maxd', 255)
        mc = self.int0(st, 'maxc', (1 << 64) - 1)
        st.facts.iassume('dep', 'maxd', 0 if leaf else -1)
        h.subject = 'S'
        st.heap['subject'] = ONode('S')
        g = st.ghost['S'] = Ghost(b, dep, md, mc)
        ev.fresh_n = max(ev.fresh_n, 50)
        r = []
        vals = h.leafvals(ev, st, 'S', g, names) if leaf else h.intvals(ev, st, 'S', g, names, lambda k: 'N%d' % k)
        for s, v in vals:
            s.ghost['S'] = g.rep(mat=v)
            place = {}
            for w in names:
                for i in self.sh.vecs:
                    x = []
                    tally(s, v.f[i], x)
                    if w in x:
                        place[w] = ('v', i)
                if not leaf:
                    for k in range(4):
                        if w in s.ghost['N%d' % k].has:
                            place[w] = ('s', k)
            r.append((s, place))
        return r

    def contract_fns(self, root, kind, recursive=True):
        """Recursive node functions of the given kind reachable from a root."""
        p = self.p
        h = self.hooks('iter', '')
        seen = set()
        work = [self.inst(root)]
        r = []
        while work:
            x = work.pop()
            for b in p.insts[x].get('blocks') or ():
                t = b['t']
                if t[0] == 'call' and 'i' in t[1]:
                    y = t[1]['i']
                    if y in seen:
                        continue
                    seen.add(y)
                    i = p.insts[y]
                    if i.get('blocks') and i['argc'] >= 1 and (not recursive or y in h.cutfns(kind)) and h.nodefn(i) == kind:
                        r.append(y)
                    work.append(y)
        return sorted(r)

    # ---- iteration ----
    def st_iter(self):
        """Iteration: the recursive node function on an arbitrary node, then the tree."""
        self.stage('insert', ())
        for n in self.contract_fns('iter', 'descend'):
            for leaf in (True, False):
                for names in ((), ('W',), ('V', 'W')):
                    label = '%s iteration over a node %s sub-nodes' % (self.nm, 'without' if leaf else 'with')
                    h = self.hooks('iter', label)
                    ev = self.interp(h)
                    for st, place in self.node_subject(h, ev, names, leaf):
                        self.iter_case(h, ev, n, st, place, names, label)
        for names in ((), ('W',)):
            label = '%s iteration' % self.nm
            h = self.hooks('iter', label)
            ev = self.interp(h)
            st = State()
            t = self.tree(st, None, names)
            st.heap['out'] = Seq((), 0)
            for o in self.panics(self.run(ev, st, self.inst('iter'), [VRef(t) if False else t, Ptr(('H', 'out'), ())], label), label):
                self.iter_out(o, names, {}, label)

    def iter_case(self, h, ev, n, st, place, names, label):
        outs = self.panics(self.run(ev, st, n, [VRef(ONode('S'))], label), label)
        self.drain_all(ev, outs, self.argty(n, 0), label, lambda o: self.iter_out(o, names, place, label))

    def iter_out(self, o, names, place, label):
        col, st = self.col, o.st
        certain = not st.imp
        got = self.yielded(st, names)
        for w in names:
            k = got.count(w)
            if k == 1:
                col.ok('C06')
            else:
                where = self.where(place.get(w))
                col.bad('C06', 'count %d %s %s' % (k, label, where), '%s: a datum stored %s is yielded %d times; %s' % (
                    label, where, k, self.trail(o)), certain)
        if place and len(names) == 2 and len(got) == 2:
            a, b = place[got[0]], place[got[1]]
            ra, rb = self.rank(a), self.rank(b)
            if ra <= rb:
                col.ok('C07')
            else:
                col.bad('C07', 'order %s %s' % (self.where(a), self.where(b)), '%s: a datum stored %s is yielded before one stored %s; %s' % (
                    label, self.where(a), self.where(b), self.trail(o)), certain)

    def rank(self, pl):
        if pl[0] == 'v':
            return 0
        q = self.learn.quad.get(pl[1]) if self.learn.quad else None
        if q is None:
            raise Unsupported('quadrants unknown')
        return 1 + ['ll', 'hl', 'hh', 'lh'].index(q)

    def where(self, pl):
        if pl is None:
            return 'in the tree'
        if pl[0] == 'v':
            return 'at the node itself'
        return 'in the %s quadrant' % {'ll': 'lower-x lower-y', 'hl': 'higher-x lower-y', 'hh': 'higher-x higher-y', 'lh': 'lower-x higher-y'}.get(
            (self.learn.quad or {}).get(pl[1]), 'unknown')

    # ---- retrieval ----
    def st_retrieve(self):
        self.stage('insert', ())
        self.stage('iter', ())
        prop = 'C08' if self.kind == 'pt' else 'C09'
        for n in self.contract_fns('retrieve', 'retrieve'):
            for leaf in (True, False):
                label = '%s retrieval from a node %s sub-nodes' % (self.nm, 'without' if leaf else 'with')
                for rel in ('any', 'same') + (('over',) if self.kind == 'bx' else ()):
                    h = self.hooks('retrieve', label)
                    h.rel = rel
                    if rel == 'same':
                        h.alias['W'] = 'Q'
                    ev = self.interp(h)
                    for st, place in self.node_subject(h, ev, ('W',), leaf):
                        b = st.ghost['S'].b
                        try:
                            h.wellformed(st, 'Q')
                            h.wellformed(st, 'W')
                            h.inside(st, 'Q', b)
                            h.inside(st, 'W', b)
                            if rel == 'over':
                                self.overlap(h, st)
                        except Dead:
                            continue
                        if rel != 'any':
                            st.g['must W'] = True
                        if self.kind == 'pt' and not leaf:
                            for k in range(4):
                                for fl in tree.minimal(self.learn.routes.get(k, {})):
                                    s = st.copy()
                                    if h.impose(s, fl, 'Q', b):
                                        self.retrieve_case(h, ev, n, s, place['W'], ('s', k), rel, label)
                        else:
                            self.retrieve_case(h, ev, n, st, place['W'], None, rel, label)
        label = '%s retrieve' % self.nm
        for rel in ('any', 'same') + (('over',) if self.kind == 'bx' else ()):
            h = self.hooks('retrieve', label)
            h.rel = rel
            h.query = 'Q'
            if rel == 'same':
                h.alias['W'] = 'Q'
            ev = self.interp(h)
            st0 = State()
            t = self.tree(st0, None, ('W',))
            b = st0.ghost['R'].b
            h.wellformed(st0, 'Q')
            h.wellformed(st0, 'W')
            h.inside(st0, 'W', b)
            if rel == 'over':
                self.overlap(h, st0)
            if rel != 'any':
                st0.g['must W'] = True
            st0.heap['out'] = Seq((), 0)
            for st, tag in self.relations(h, st0, 'Q', b):
                if rel == 'same' and tag == 'nobox':
                    continue
                for o in self.panics(self.run(ev, st, self.inst('retrieve'), [t, VRef(Datum('Q')), Ptr(('H', 'out'), ())], label), label):
                    if tag == 'inside':
                        self.retrieve_out(o, None, None, rel, label, prop, True)
                    else:
                        out = o.st.heap['out']
                        if isinstance(out, Seq) and not out.items:
                            self.col.ok(prop)
                        else:
                            self.col.bad(prop, 'outside ' + tag, '%s: data are yielded for a query %s; %s' % (
                                label, 'outside the bounds' if tag == 'outside' else 'without a bounding box', self.trail(o)), not o.st.imp)

    def overlap(self, h, st):
        q, w = h.coords('Q'), h.coords('W')
        for x, y in ((w[0], q[2]), (q[0], w[2]), (w[1], q[3]), (q[1], w[3]), (w[0], w[2]), (w[1], w[3]), (q[0], q[2]), (q[1], q[3])):
            if not st.assume_le(x, y, True):
                raise Dead()

    def retrieve_case(self, h, ev, n, st, place, route, rel, label, check=None):
        outs = self.panics(self.run(ev, st, n, [VRef(ONode('S')), VRef(Datum('Q'))], label), label)
        self.drain_all(ev, outs, self.argty(n, 0), label,
                       check or (lambda o: self.retrieve_out(o, place, route, rel, label, 'C08' if self.kind == 'pt' else 'C09', False)))

    def retrieve_out(self, o, place, route, rel, label, prop, whole):
        col, st = self.col, o.st
        certain = not st.imp
        k = self.yielded(st, ('W',)).count('W')
        where = self.where(place)
        if k > 1:
            col.bad(prop, 'twice %s' % label, '%s: a datum stored %s is yielded %d times; %s' % (label, where, k, self.trail(o)), certain)
            return
        flag = st.g.get('leaf W')
        if self.kind == 'pt':
            if not whole and route is None:
                want, why = 1, 'in the leaf of the query'
            elif whole or route == place:
                if flag is None and k == 0 or rel == 'same' and k == 0:
                    want, why = 1, 'that may share the leaf cell of the query'
                else:
                    want, why = (1 if flag else 0), 'that %s the leaf cell of the query' % ('shares' if flag else 'does not share')
            else:
                want, why = 0, 'in another quadrant than the query'
            if rel == 'same':
                why = 'at the query\'s own position'
                want = 1
            if k == want:
                col.ok(prop)
            else:
                col.bad(prop, 'pt %d %d %s %s' % (k, want, rel, label), '%s: a datum stored %s, %s, is yielded %d times instead of %d; %s' % (
                    label, where, why, k, want, self.trail(o)), certain)
            return
        if rel == 'any' or k == 1:
            col.ok(prop)
        else:
            col.bad(prop, 'missed %s %s' % (rel, label), '%s: a datum stored %s, %s, is not yielded; %s' % (
                label, where, 'whose bounding box overlaps the query\'s' if rel == 'over' else 'with the query\'s own bounding box',
                self.trail(o)), certain)


    def st_stray(self):
        """Retrieval by bounding box leaves alone the quadrants the query does not concern."""
        self.stage('insert', ())
        if self.learn.tiling is None:
            raise Unsupported('sub-rectangles unknown')
        fns = self.contract_fns('retrieve', 'retrieve') or self.contract_fns('retrieve', 'retrieve', False)
        if not fns:
            raise Unsupported('no retrieval from nodes found')
        for n in fns:
            label = '%s retrieval from a node with sub-nodes' % self.nm
            h = self.hooks('retrieve', label)
            ev = self.interp(h)
            q = h.coords('Q')
            cx, cy = midterm(q[0], q[2]), midterm(q[1], q[3])
            for st, place in self.node_subject(h, ev, ('W',), False):
                if place['W'][0] == 'v':
                    continue
                b = st.ghost['S'].b
                try:
                    h.wellformed(st, 'Q')
                    h.wellformed(st, 'W')
                    h.inside(st, 'Q', b)
                    h.inside(st, 'W', b)
                except Dead:
                    continue
                cases = []
                r = st.ghost['N%d' % place['W'][1]].b
                for x, y in ((q[2], r[0]), (r[2], q[0]), (q[3], r[1]), (r[3], q[1])):
                    cases.append((((x, y, True),), 'in a quadrant the query does not meet', False))
                for k in range(4):
                    r = st.ghost['N%d' % k].b
                    cases.append((((r[0], q[0], False), (r[1], q[1], False), (q[2], r[2], False), (q[3], r[3], False),
                                   (r[0], cx, True), (r[1], cy, True), (cx, r[2], True), (cy, r[3], True)),
                                  'in a quadrant that is not asked as the query is, although the query fits the %s one' % self.learn.quad[k], True))
                for facts, why, asked in cases:
                    s = st.copy()
                    if all(s.assume_le(x, y, strict) for x, y, strict in facts):
                        self.retrieve_case(h, ev, n, s, place['W'], None, 'any', label,
                                           lambda o: self.stray_out(o, place['W'], why, asked, label))

    def stray_out(self, o, place, why, asked, label):
        st = o.st
        if not self.yielded(st, ('W',)).count('W') or asked and st.g.get('leaf W') and not st.g.get('unfit'):
            self.col.ok('C30')
            return
        ex = gridcase(st.facts, ('Q', 'S'))
        where = self.where(place)
        self.col.bad('C30', 'stray %s %s %s' % (label, where, asked), '%s: a datum stored %s is yielded, %s; %s%s' % (
            label, where, why, self.trail(o), '; for example %s' % ex if ex else ''), bool(ex) and not st.imp)

    def fits(self, s, c, rects):
        """Does box c fit every quadrant its centre lies in?"""
        cx, cy = midterm(c[0], c[2]), midterm(c[1], c[3])
        best = []
        for rb in rects:
            if all(s.decide_le(p, q) for p, q in ((rb[0], cx), (cx, rb[2]), (rb[1], cy), (cy, rb[3]))):
                best.append(all(s.decide_le(p, q) for p, q in ((rb[0], c[0]), (rb[1], c[1]), (c[2], rb[2]), (c[3], rb[3]))))
        return bool(best) and all(best)

    # ---- searches ----
    def search(self, root, mode, names, method=1, errs=(), inf=False, empty=None, opened=None):
        """Outcomes of a search on a tree holding the named data: (outcome, distance to the root rectangle)."""
        sh = self.sh
        what = '%s %s' % (self.nm, root)
        label = what + (' on a tree without a method' if method == 0 else '') + (' with failing distances' if errs else '')
        h = self.hooks('search', label)
        h.method = method
        h.errs = errs
        h.inf = inf
        ev = self.interp(h)
        st = State()
        t = self.tree(st, None, names, method)
        st.facts.iassume('0', 'size', -len(names))
        if empty:
            # nothing was ever stored, so the root is as it was created
            st.facts.iassume('size', '0', 0)
            g = st.ghost['R']
            st.ghost['R'] = g.rep(mat=sh.node(g.b, 0, g.maxd, g.maxc, {}, None))
        n = self.inst(root)
        args = [t, VRef(Datum('Q'))]
        r = INF
        if root == 'find_r' or root == 'knn_r':
            r = var('P', 'r')
        if opened:
            h.radius = r
            h.nearest = opened != 'radius'
        if opened == 'one':
            args.append(1)
        elif root in ('knn', 'knn_r'):
            args.append(self.int0(st, 'k', (1 << 64) - 1))
        if r is not INF:
            args.append(r)
        if root == 'sorted':
            st.heap['out'] = Seq((), 0)
            args.append(Ptr(('H', 'out'), ()))
        outs = self.panics(self.run(ev, st, n, args, label), label)
        dr = F('d', tuple(var('R', a) for a in XY))
        return [(o, dr, r, label) for o in outs]

    def result(self, v):
        """(True, value) or (False, error name) of a Result; a distance error has the name 'dist'."""
        if not isinstance(v, Agg) or self.p.types[v.ty]['k'][0] != 'adt' or 'Result' not in self.p.types[v.ty]['k'][1]:
            raise Unsupported('result %r' % (v,))
        if v.var == 0:
            return True, v.f[0]
        e = v.f[0]
        if isinstance(e, OErr):
            return False, 'dist'
        if isinstance(e, Agg):
            return False, self.p.adtinfo(e.ty)['variants'][e.var]['name']
        raise Unsupported('error %r' % (e,))

    def pair(self, v):
        """(datum, distance) of a result pair."""
        if not isinstance(v, Agg) or len(v.f) != 2 or not isinstance(v.f[1], F):
            raise Unsupported('pair %r' % (v,))
        d = v.f[0]
        while isinstance(d, VRef):
            d = d.v
        if not isinstance(d, Datum):
            raise Unsupported('found %r' % (v.f[0],))
        return d.did, v.f[1]

    def need(self, prop, cond, key_, label, text, o):
        if cond:
            self.col.ok(prop)
        else:
            self.col.bad(prop, '%s %s' % (key_, label), '%s: %s; %s' % (label, text, self.trail(o, 16)), not o.st.imp)

    def st_find(self):
        self.stage('insert', ())
        for root in ('find_r', 'find'):
            for inf in (False, True):
                for o, dr, r, label in self.search(root, 'find', ('W',), inf=inf):
                    st = o.st
                    dw = F('d', ('W',))
                    ok, v = self.result(o.val)
                    if ok:
                        did, x = self.pair(v)
                        self.need('C10', st.neq(x, F('d', (did,))), 'own', label, 'the reported distance %r is not that of the reported datum' % (x,), o)
                        self.need('C10', st.nle(x, r), 'radius', label, 'the reported distance may exceed the radius', o)
                        self.need('C10', did == 'W' or st.nle(x, dw), 'nearest', label,
                                  'a stored datum may be nearer than the reported one', o)
                    elif v == 'NoneInRadius':
                        self.need('C10', st.nlt(r, dw), 'none', label, 'NoneInRadius although a stored datum may be within the radius', o)
                    elif v == 'OutOfBounds':
                        self.oob(o, dr, label)
                    else:
                        self.need('C10', False, 'error ' + v, label, 'unexpected error %s' % v, o)
                    if ok or v == 'NoneInRadius':
                        self.inb(o, dr, label)

    def oob(self, o, dr, label):
        self.need('C13', o.st.nlt(ZERO, dr), 'oob', label, 'OutOfBounds although the comparator may touch the bounds', o)

    def inb(self, o, dr, label):
        self.need('C13', o.st.nle(dr, ZERO), 'inside', label, 'an answer other than OutOfBounds although the comparator may not touch the bounds', o)

    def st_knn(self):
        self.stage('insert', ())
        for root in ('knn_r', 'knn'):
            for o, dr, r, label in self.search(root, 'knn', ('V', 'W')):
                self.knn_out(o, dr, r, label)

    def knn_out(self, o, dr, r, label):
        st = o.st
        ok, v = self.result(o.val)
        if not ok:
            if v == 'OutOfBounds':
                self.oob(o, dr, label)
            else:
                self.need('C11', False, 'error ' + v, label, 'unexpected error %s' % v, o)
            return
        self.inb(o, dr, label)
        if not isinstance(v, Seq):
            raise Unsupported('result list %r' % (v,))
        got = self.pairs(v, 'C11', label, o)
        k = st.facts.ibound(isplit(v.len)[0], 'k')
        n = isplit(v.len)[1]
        self.need('C11', k is not None and k + n <= 0, 'count', label, 'more than k data may be returned (%r)' % (v.len,), o)
        lo = st.facts.ibound('k', isplit(v.len)[0])
        full = lo is not None and lo - n <= 0
        for did, x in got:
            self.need('C11', st.nle(x, r), 'radius', label, 'a datum beyond the radius may be returned', o)
        self.need('C11', len(set(d for d, x in got)) == len(got), 'twice', label, 'a datum is returned twice', o)
        if len(got) == 2:
            self.need('C11', st.nle(got[0][1], got[1][1]), 'order', label, 'the list may not be in ascending order', o)
        have = set(d for d, x in got)
        for w in ('V', 'W'):
            if w in have:
                continue
            dw = F('d', (w,))
            if st.nlt(r, dw):
                self.col.ok('C11')
                continue
            self.need('C11', full, 'left', label, 'a datum within the radius may be left out of a list with fewer than k entries', o)
            for did, x in got:
                self.need('C11', st.nle(x, dw), 'nearer', label, 'a nearer datum may be left out', o)

    def pairs(self, v, prop, label, o):
        """Tracked (datum, distance) pairs of a result list, after checking that every pair carries its own distance."""
        got = []
        st = o.st
        for it in v.items:
            if it[0] == 'e':
                ps = [it[1]]
            elif it[0] == 'any':
                ps = it[1]
            else:
                raise Unsupported('result segment')
            for x in ps:
                did, d = self.pair(x)
                self.need(prop, d is F('d', (did,)) or it[0] == 'e' and st.neq(d, F('d', (did,))), 'own', label,
                          'a datum is paired with %r instead of its own distance' % (d,), o)
                if it[0] == 'e' and named(did):
                    got.append((did, d))
        return got

    def st_sorted(self):
        self.stage('insert', ())
        for o, dr, r, label in self.search('sorted', 'sorted', ('V', 'W')):
            st = o.st
            v = st.heap['out']
            if not isinstance(v, Seq):
                raise Unsupported('output %r' % (v,))
            if st.nlt(ZERO, dr):
                self.need('C13', not v.items, 'oob', label, 'data are yielded although the comparator does not touch the bounds', o)
                continue
            self.inb(o, dr, label)
            got = self.pairs(v, 'C12', label, o)
            for w in ('V', 'W'):
                k = sum(1 for d, x in got if d == w)
                self.need('C12', k == 1, 'count %d' % k, label, 'a stored datum is yielded %d times' % k, o)
            if len(got) == 2:
                self.need('C12', st.nle(got[0][1], got[1][1]), 'order', label, 'the data may not come in ascending order', o)

    def st_errors(self):
        """Documented errors of the searches."""
        self.stage('insert', ())
        for root in ('find_r', 'find', 'knn_r', 'knn'):
            for o, dr, r, label in self.search(root, 'none', (), method=0):
                ok, v = self.result(o.val)
                self.need('C13', not ok and v == 'CalcMethodNotSet', 'method', label, 'the answer is %s instead of CalcMethodNotSet' % ('Ok' if ok else v), o)
            for o, dr, r, label in self.search(root, 'empty', (), empty=True):
                label += ' on an empty tree'
                ok, v = self.result(o.val)
                if root in ('find', 'find_r'):
                    if o.st.nlt(ZERO, dr):
                        good = not ok and v in ('OutOfBounds', 'Empty')
                    else:
                        good = not ok and v == 'Empty'
                elif o.st.nlt(ZERO, dr):
                    good = not ok and v == 'OutOfBounds'
                else:
                    good = ok and isinstance(v, Seq) and not v.items
                self.need('C13', good, 'empty', label, 'the answer is %s' % ('Ok' if ok else v), o)
            errs = ('err',) if root in ('find', 'find_r') else ('err', 'inf', 'nan')
            for o, dr, r, label in self.search(root, 'errs', (), errs=errs):
                self.err_out(o, root, label)
        for o, dr, r, label in self.search('sorted', 'none', (), method=0):
            v = o.st.heap['out']
            self.need('C13', isinstance(v, Seq) and not v.items, 'method', label, 'data are yielded without a calculation method', o)

    def st_opened(self):
        """Which nodes the searches look into."""
        self.stage('insert', ())
        for root, names, opened in (('find_r', ('V', 'W'), 'near'), ('knn_r', ('W',), 'radius'), ('knn_r', ('V', 'W'), 'one'),
                                    ('sorted', ('V', 'W'), 'near')):
            self.search(root, root, names, opened=opened)

    def st_lossy(self):
        """Distance-sorted iteration when some distances are not available."""
        self.stage('insert', ())
        for o, dr, r, label in self.search('sorted', 'errs', ('W',), errs=('err', 'inf', 'nan')):
            st = o.st
            n = self.yielded(st, ('W',)).count('W')
            if st.g.get('lost'):
                self.need('C13', n == 0, 'unskipped', label, 'a datum whose distance, or that of its node, is not available is yielded', o)
            elif st.nlt(ZERO, dr):
                self.need('C13', n == 0, 'oob', label, 'data are yielded although the comparator does not touch the bounds', o)
            else:
                self.need('C13', n == 1, 'skipped', label, 'a datum is yielded %d times although its own distance and those of its nodes are fine' % n, o)

    def st_methods(self):
        """Every search measures with the method of the tree and from the comparator."""
        self.stage('insert', ())
        for method in (1, 2, 0):
            for root in ('find_r', 'find', 'knn_r', 'knn', 'sorted'):
                self.search(root, 'none', (), method=method)

    # ---- display ----
    def st_show0(self):
        self.st_show(0)

    def st_show1(self):
        self.st_show(1)

    def st_show2(self):
        self.st_show(2)

    def st_show3(self):
        self.st_show(3)

    def st_show(self, part):
        """Display: the header, then every recursive node function on an arbitrary node of every depth (in four parts)."""
        self.stage('insert', ())
        first = [0, 1, 2, 3, 8, 16, 17, 32, 33, 64, 65, 128, 129, 254, 255]
        depths = [d for d in first + [d for d in range(256) if d not in first] if d % 4 == part or d < 2]
        label = '%s display' % self.nm
        h = self.hooks('show', label)
        ev = self.interp(h)
        st = State()
        t = self.tree(st, None, ())
        st.heap['sink'] = fmtmodel.txt(())
        for o in self.panics(self.run(ev, st, self.inst('show'), [t, Ptr(('H', 'sink'), ())], label), label, 'C26'):
            if part:
                break
            if not self.shown_ok(o, label):
                continue
            line, marks = self.split(o)
            self.show(marks == ['R'], 'tree', label, 'after the header the nodes displayed are %s' % marks, o)
            s = fmtmodel.plain(line)
            self.show(s is not None and len(s) > 1 and s.count('\n') == 1 and s[-1] == '\n', 'header', label,
                      'the header is %s and not one line' % self.linetext(line), o)
        todo = sorted(h.used)
        done = []
        while todo:
            n = todo.pop()
            if n in done:
                continue
            done.append(n)
            indents = {}
            for leaf in (True, False):
                label = '%s display of a node %s sub-nodes' % (self.nm, 'without' if leaf else 'with')
                for d in depths:
                    if not leaf and d > 254 or self.failed('C26'):
                        continue
                    h = self.hooks('show', label)
                    ev = self.interp(h)
                    limits = (None, d + 1, d + 3) if d == 1 else (None,)
                    for st, total, lens in (x for md in limits for x in self.show_subject(h, ev, leaf, d, md)):
                        st.heap['sink'] = fmtmodel.txt(())
                        for o in self.panics(self.run(ev, st, n, [VRef(ONode('S')), Ptr(('H', 'sink'), ())], label), label, 'C26'):
                            self.show_out(o, d, leaf, total, indents, label, ev.counted)
                    todo += [x for x in h.used if x not in done]
            if self.failed('C26'):
                continue
            step = indents.get(1, (0,))[0]
            for d, (k, o, label) in sorted(indents.items()):
                self.show(step > 0 and k == step * d, 'indent', label, 'a node at depth %d is indented by %d, one at depth 1 by %d' % (d, k, step), o)
        if not done:
            raise Unsupported('no display of nodes found')

    def show(self, cond, key_, label, text, o, certain=True):
        if cond:
            self.col.ok('C26')
        else:
            self.col.bad('C26', '%s %s' % (key_, label), '%s: %s; %s' % (label, text, self.trail(o)), certain and not o.st.imp)
        return cond

    def failed(self, prop):
        return any(x[0] == prop and not x[1] and x[2] for x in self.col.obl)

    def show_subject(self, h, ev, leaf, d, md=None):
        st = State()
        b = self.mkrect(st, 'S')
        if md is None:
            md = self.int0(st, 'maxd', 255)
            st.facts.iassume('0', 'maxd', -d if leaf else -d - 1)
        mc = self.int0(st, 'maxc', (1 << 64) - 1)
        h.subject = 'S'
        st.heap['subject'] = ONode('S')
        g = st.ghost['S'] = Ghost(b, d, md, mc)
        ev.fresh_n = max(ev.fresh_n, 50)
        vals = h.leafvals(ev, st, 'S', g, ()) if leaf else h.intvals(ev, st, 'S', g, (), lambda k: 'N%d' % k)
        for s, v in vals:
            vecs = [i for i in self.sh.vecs if v.f[i].items]
            if len(vecs) > 2:
                raise Unsupported('%d lists of data in a node' % len(vecs))
            for has in itertools.product((False, True), repeat=len(vecs)):
                s2 = s.copy()
                f = list(v.f)
                full = []
                for i, x in zip(vecs, has):
                    if x:
                        full.append(f[i].len.s)
                        s2.facts.iassume('0', f[i].len.s, -1)
                    else:
                        f[i] = Seq((), 0)
                total = 0
                if len(full) == 1:
                    total = Lin(full[0], 0)
                elif full:
                    total = Lin('total', 0)
                    ev.sums[frozenset(full)] = 'total'
                    for x in full:
                        s2.facts.iassume(x, 'total', -1)
                    s2.facts.iassume('total', '0', 1 << 60)
                s2.ghost['S'] = g.rep(mat=Agg(v.ty, v.var, tuple(f)))
                yield s2, total, full

    def shown_ok(self, o, label):
        """Did the display succeed?  It fails exactly when the sink does."""
        ok, v = self.result(o.val)
        fail = bool(o.st.g.get('sinkerr'))
        if fail:
            self.show(not ok, 'sink', label, 'an error of the output sink is not passed on', o)
        else:
            self.show(ok, 'spurious', label, 'the display fails although the sink works', o)
        return ok and not fail

    def split(self, o):
        """Text before the first displayed node, and the nodes; text after it must be empty."""
        parts = o.st.heap['sink'].f
        line, marks = [], []
        for x in parts:
            if x.ty == 'fmt:N':
                marks.append(x.f[0].nid)
            elif marks:
                marks.append('text')
            else:
                line.append(x)
        return line, marks

    def linetext(self, line):
        return repr(''.join(x.f[0].s if x.ty == 'fmt:l' else '{%r}' % (x.f[0],) for x in line))

    def known_eq(self, st, t, v):
        s, k = isplit(t)
        u, l = isplit(v)
        if s == u:
            return k == l
        return st.facts.ibound(s, u) == l - k and st.facts.ibound(u, s) == k - l

    def show_out(self, o, d, leaf, total, indents, label, counted):
        if not self.shown_ok(o, label):
            return
        st = o.st
        line, marks = self.split(o)
        lt = self.linetext(line)
        if leaf:
            self.show(not marks, 'leaf', label, 'it goes on with %s' % marks, o)
        else:
            quad = {'N%d' % k: q for k, q in (self.learn.quad or {}).items()}
            got = [quad.get(x, x) for x in marks]
            self.show(got == ['ll', 'hl', 'hh', 'lh'], 'order', label, 'after its own line the quadrants displayed are %s' % got, o)
        lits = ''.join(x.f[0].s for x in line if x.ty == 'fmt:l')
        if not self.show(lits.count('\n') == 1 and line[-1].ty == 'fmt:l' and line[-1].f[0].s[-1] == '\n', 'line', label,
                         'the text %s is not one line' % lt, o):
            return
        n = 0
        for x in line:
            if x.ty != 'fmt:l':
                break
            s = x.f[0].s
            n += len(s) - len(s.lstrip(' \t'))
            if s.strip(' \t'):
                break
        old = indents.get(d)
        if old is None:
            indents[d] = (n, o, label)
        elif old[0] != n:
            self.show(False, 'indent', label, 'nodes at depth %d are indented by %d and by %d' % (d, old[0], n), o)
        pos = [i for i, x in enumerate(line) if x.ty == 'fmt:d']
        b = self.sh.rectof(o.st.ghost['S'].mat.f[self.sh.rect]) if isinstance(o.st.ghost['S'].mat, Agg) else None
        if b is None:
            raise Unsupported('node vanished')
        fl = [i for i in pos if isinstance(line[i].f[0], F)]
        good = len(fl) >= 2 and pos[:2] == fl[:2]
        if good:
            x, y = line[fl[0]].f[0], line[fl[1]].f[0]
            good = (st.neq(x, b[0]) or self.realeq(st, x, b[0])) and (st.neq(y, b[1]) or self.realeq(st, y, b[1]))
        if not self.show(good, 'corner', label, 'the line %s does not give the minimum corner (%r, %r)' % (lt, b[0], b[1]), o):
            return
        rest = line[fl[1] + 1:]
        sh = [x.f[0] for x in rest if x.ty == 'fmt:d']
        nums = re.findall(r'\d+', ' '.join(x.f[0].s for x in rest if x.ty == 'fmt:l'))
        if len(sh) + len(nums) > 1 or any(isinstance(x, F) for x in sh):
            return self.show(False, 'number', label, 'the line %s gives more than one number after the corner' % lt, o)
        v = sh[0] if sh else int(nums[0]) if nums else 0
        exact = isinstance(v, Lin) and not isanon(v.s)
        if isinstance(v, int):
            # a number found by counting agrees with the length of what is counted in ways that are not followed
            a, b = st.facts.ibound(isplit(total)[0], '0'), st.facts.ibound('0', isplit(total)[0])
            exact = not counted or a is not None and a + isplit(total)[1] < v or b is not None and -b + isplit(total)[1] > v
        self.show(self.known_eq(st, total, v), 'number', label, 'the line %s stands for %r data, the node holds %r' % (lt, v, total), o, exact)

    def err_out(self, o, root, label):
        ok, v = self.result(o.val)
        g = o.st.g
        err = g.get('err') or g.get('root err')
        odd = g.get('inf') or g.get('nan')
        rodd = g.get('root inf') or g.get('root nan')
        ans = 'Ok' if ok else v
        if err:
            self.need('C13', not ok and v == 'dist', 'swallowed', label, 'the error of a distance calculation is not returned (%s)' % ans, o)
        elif odd:
            self.need('C13', not ok and v == 'InvalidDistance', 'nonfinite', label, 'a non-finite distance is answered with %s' % ans, o)
        elif rodd:
            self.need('C13', not ok and v in ('InvalidDistance', 'OutOfBounds'), 'nonfinite root', label, 'a non-finite distance is answered with %s' % ans, o)
        else:
            self.need('C13', ok or v not in ('dist', 'InvalidDistance'), 'spurious', label, 'the answer is %s although all distances are fine' % ans, o)


def gridcase(facts, owners):
    """Coordinates of boxes on a small grid that satisfy what is known about the owners (one axis at a time), or None."""
    import refute
    own = set(owners)
    terms = [t for t in facts.terms() if t.owners() <= own]
    ts = set(terms)
    env = {}
    for axis in 'xy':
        vs = [var(o, axis + k) for o in owners for k in '12']
        rel = []
        for a in terms:
            for b, strict in facts.reach(a).items():
                if b is not a and b in ts and all(v in vs or v.op == 'c' for v in leaves(a) + leaves(b)):
                    rel.append((a, b, strict))
        found = None
        for c in itertools.product(range(0, 9), repeat=2):
            e = dict(zip(vs, [float(c[0]), float(c[1]), 0.0, 8.0]))
            if c[0] <= c[1] and all(refute.ev(a, e) < refute.ev(b, e) if strict else refute.ev(a, e) <= refute.ev(b, e) for a, b, strict in rel):
                found = e
                break
        if found is None:
            return None
        env.update(found)
    return ', '.join('%s.%s=%g' % (v.args + (x,)) for v, x in sorted(env.items(), key=lambda p: repr(p[0])))


def leaves(t):
    if t.op in 'vc':
        return [t]
    r = []
    for a in t.args:
        if isinstance(a, F):
            r += leaves(a)
    return r


def rel_set(r):
    return set(r)


def demid(t):
    if t.op == 'mid':
        return mul(const(0.5), add(demid(t.args[0]), demid(t.args[1])))
    if t.op in ('v', 'c'):
        return t
    return F(t.op, tuple(demid(a) if isinstance(a, F) else a for a in t.args))


def ladd(n, k):
    return n + k if isinstance(n, int) else Lin(n.s, n.k + k)


# ---- property checks ----

RULES = {
    'C29': 'a datum below the root is measured only if its node is known to be within the radius and no farther than a datum measured before',
    'C30': 'a datum yielded by retrieval is stored at the node asked, below the sub-node the query fits, or in a quadrant that the query meets '
           'while fitting none',
    'C26': 'the display of a node writes one line, indented by a fixed multiple of its depth, with its minimum corner and the number of its '
           'own data, then displays its quadrants in their order; it fails exactly when the sink does',
    'C01': 'the inserted datum and every datum stored before are each stored once after Ok, and the inserted one not at all after an error',
    'C02': 'the counter starts at 0, grows by one exactly on Ok, and size() returns it',
    'C03': 'insertion answers Ok exactly for data within the closed root rectangle, and with the documented error otherwise',
    'C04': 'nodes are subdivided only when full and above the maximum depth, sub-nodes are one deeper with the same limits, and the recursion descends',
    'C05': 'fresh sub-rectangles tile the parent at its midpoint, data are handed only to sub-nodes whose rectangle contains them, data kept do not fit',
    'C06': 'a datum stored at any place of a node is yielded exactly once by the iterator',
    'C07': 'of two data the one ranked first (own data, then quadrants in order) is yielded first',
    'C08': 'retrieve asks exactly the sub-node insertion routes the query to, and yields its data once',
    'C10': 'the reported datum carries its own distance, within the radius, and no datum stored anywhere is nearer; NoneInRadius only if none is within it',
    'C11': 'of two data stored anywhere, each is returned at most once, in ascending order, within the radius; one left out is beyond the radius '
           'or no nearer than every returned one of a full list; the list has at most k entries',
    'C12': 'of two data stored anywhere each is yielded exactly once and the nearer one first, paired with its own distance',
    'C13': 'each error is answered exactly under its documented condition; sorted skips exactly what has no finite distance',
    'C14': 'constructors keep the method they are given and every distance of a search is measured from the comparator with the method of the tree',
    'C23': 'no path reaches a panic, a failed arithmetic or bounds check or unreachable code, and nested calls are bounded by the depth of the tree',
    'C09': 'a datum that overlaps the query or has its box is yielded wherever insertion may have put it, none is yielded twice',
}
STAGES = {
    'C01': ('new', 'insert', 'tree'), 'C02': ('new', 'tree'), 'C03': ('new', 'insert', 'tree'), 'C04': ('new', 'insert'),
    'C05': ('insert', 'tree'), 'C06': ('iter',), 'C07': ('iter',), 'C08': ('retrieve',), 'C09': ('retrieve',),
    'C10': ('find',), 'C11': ('knn',), 'C12': ('sorted',), 'C13': ('find', 'knn', 'sorted', 'errors', 'lossy'), 'C14': ('new', 'methods'),
    'C23': ('new', 'insert', 'tree', 'iter', 'retrieve', 'find', 'knn', 'sorted', 'errors', 'lossy'), 'C26': ('show0', 'show1', 'show2', 'show3'),
    'C29': ('opened',), 'C30': ('stray',),
}
KINDS = {'C08': ('pt',), 'C09': ('bx',), 'C30': ('bx',)}
EARLY = ('new', 'insert', 'tree')


def unclear(v):
    """Does v stem from a field the analysis does not follow?"""
    r = []
    walk(v, lambda x: r.append(x) if isinstance(x, Wild) or isinstance(x, Lin) and x.s[0] == 'h' and isanon(x.s) else None)
    return bool(r)


def work(job):
    """Run stages of one tree type; returns what the report needs."""
    p, prop, kind, stages = WORK[job]
    unsure = []
    try:
        t = Tree(p, kind, (prop,))
    except Exception as e:
        return [], ['%s: %s' % (NAMES[kind], e)], []
    start = runs = 0
    if stages[0] not in EARLY:
        try:
            t.stage('insert', ())
        except Unsupported:
            pass
        start, runs = len(t.col.obl), len(t.col.runs)
    for s in stages:
        try:
            t.stage(s, (prop,))
        except Unsupported as e:
            unsure.append('%s: %s' % (NAMES[kind], e))
        except Dead:
            unsure.append('%s: contradiction outside a path (%s)' % (NAMES[kind], s))
        except Exception as e:          # a construct the analysis was not written for
            unsure.append('%s: internal %s %s (%s)' % (NAMES[kind], type(e).__name__, str(e)[:200], s))
            if os.environ.get('VP_DEBUG'):
                raise
    return ([x for x in t.col.obl[start:] if x[0] == prop], unsure,
            [(label, ev.seen_fns, ev.seen_calls, ev.nheads, n) for label, ev, n in t.col.runs[runs:]])


WORK = []


class Seen:
    def __init__(self, fns, calls, heads):
        self.seen_fns, self.seen_calls, self.nheads = fns, calls, heads


def decide(rep, p):
    prop = rep.prop
    rep.rule(RULES[prop])
    del WORK[:]
    early = tuple(s for s in STAGES[prop] if s in EARLY)
    for kind in KINDS.get(prop, ('pt', 'bx')):
        if early:
            WORK.append((p, prop, kind, early))
        for s in STAGES[prop]:
            if s not in EARLY:
                WORK.append((p, prop, kind, (s,)))
    if len(WORK) == 1:
        res = [work(0)]
    else:
        with multiprocessing.get_context('fork').Pool(min(8, len(WORK))) as pool:
            res = pool.map(work, range(len(WORK)), 1)
    labels = {}
    for obl, unsure, runs in res:
        for u in unsure:
            rep.unsure(u)
        for pr, ok, certain, key_, text in obl:
            if ok:
                rep.ok()
            elif certain:
                rep.bad(key_, text)
            else:
                rep.unsure(text)
        for label, fns, calls, heads, n in runs:
            rep.used(p, Seen(fns, calls, heads), None, n)
            labels[label] = labels.get(label, 0) + n
    for l, n in sorted(labels.items()):
        rep.entries.append('%s: %d paths' % (l, n))
