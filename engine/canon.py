"""Canonical form of states at loop heads: garbage collection, summarisation of
sequences, renaming of anonymous identities; entailment and join of facts."""
from dom import *
from values import *
from interp import ANON, Ghost


def isanon(x):
    return isinstance(x, str) and ANON.match(x) is not None


def named(o):
    return isinstance(o, str) and not isanon(o) and '@' not in o


def special(st, v):
    """Does v mention a named identity (witness, subject, comparator)?"""
    hit = []
    nums = []
    ids = []

    def f(x):
        if isinstance(x, Datum):
            ids.append(x)
            if named(x.did):
                hit.append(x)
        elif isinstance(x, ONode):
            ids.append(x)
            if '@' in x.nid:
                return
            if not isanon(x.nid):
                hit.append(x)
            else:
                g = st.ghost.get(x.nid)
                if g is not None and g.has:
                    hit.append(x)
        elif isinstance(x, OIter):
            ids.append(x)
            if x.pend or not isanon(x.nid):
                hit.append(x)
        elif isinstance(x, Ptr):
            hit.append(x)
        elif isinstance(x, F):
            if any(named(o) for o in x.owners()):
                nums.append(x)
    walk(v, f)
    return bool(hit) or bool(nums and not ids)


def carries(v):
    """Does v mention a datum, a node or an anonymous coordinate (so that sequences of it may be summarised)?"""
    hit = []

    def f(x):
        if isinstance(x, (Datum, ONode, OIter)):
            hit.append(x)
        elif isinstance(x, F) and any(o[0] == 'd' and not named(o) for o in x.owners()):
            hit.append(x)
    walk(v, f)
    return bool(hit)


def template(v, keep=()):
    """Close v over its anonymous identities."""
    m = {}

    def ren(x):
        if isanon(x) and x not in keep:
            if x not in m:
                m[x] = '%s@%d' % (x[0], len(m))
            return m[x]
        return x

    return vmap(v, renfn(ren))


def renfn(ren):
    def fn(x):
        if isinstance(x, Datum):
            return Datum(ren(x.did))
        if isinstance(x, ONode):
            return ONode(ren(x.nid))
        if isinstance(x, OGeom):
            return OGeom(ren(x.did))
        if isinstance(x, OIter):
            return OIter(ren(x.nid), x.pend, x.kind)
        if isinstance(x, Lin):
            r = ren(x.s)
            return Lin(r, x.k) if not isinstance(r, tuple) else imk(r[0], x.k + r[1])
        if isinstance(x, F):
            if x.op == 'c':
                return x
            mm = {}
            for o in x.owners():
                r = ren(o)
                if isinstance(r, tuple):
                    r = r[0]
                if r != o:
                    mm[o] = r
            return fmap(x, mm) if mm else x
        if isinstance(x, Ptr):
            if x.obj[0] == 'N':
                r = ren(x.obj[1])
                return Ptr(('N', r), x.path) if r != x.obj[1] else x
            return x
        if isinstance(x, OErr):
            t = x.tag
            if isinstance(t, tuple):
                return OErr(tuple(ren(y) if isinstance(y, str) else fn(y) if isinstance(y, F) else y for y in t))
            return x
        return x
    return fn


def instantiate(ev, st, tmpl, inv):
    """Fresh instance of a template; registers ghosts for fresh nodes."""
    m = {}

    def ren(x):
        if isinstance(x, str) and '@' in x:
            if x not in m:
                m[x] = ev.fresh(x[0])
                if x[0] == 'n':
                    st.ghost[m[x]] = ev.hooks.anon_node(ev, st, m[x])
            return m[x]
        return x
    v = vmap(tmpl, renfn(ren), False)
    for nn in m.values():
        if nn[0] == 'i':
            st.facts.iassume('0', nn, 0)
            st.facts.iassume(nn, '0', 1 << 60)
    if ev.hooks is not None:
        for o, nn in m.items():
            if nn[0] == 'd':
                ev.hooks.new_datum(ev, st, nn, inv)
    return v


def fold_items(st, items):
    """Summarise the non-special elements of a sequence."""
    out = []
    for it in items:
        if it[0] == 'e':
            if carries(it[1]) and not special(st, it[1]):
                new = ('any', (template(it[1]),), it[2] if len(it) > 2 else None)
            else:
                out.append(it)
                continue
        elif it[0] == 'cur':
            out.append(it)
            continue
        elif it[0] == 'bag':
            new = ('bag', fold_bag(st, it[1]), it[2])
        else:
            new = it
        if out and out[-1][0] == 'any' and new[0] == 'any':
            out[-1] = merge_any(out[-1], new)
        else:
            out.append(new)
    return tuple(out)


def merge_any(a, b):
    ts = {repr(key(t)): t for t in a[1]}
    for t in b[1]:
        ts.setdefault(repr(key(t)), t)
    return ('any', tuple(ts[k] for k in sorted(ts)), a[2] if a[2] == b[2] else None)


def mess(items):
    """A sorted sequence to which more was added is only known by its contents (a bag without order)."""
    if len(items) < 2 or items[0][0] != 'bag':
        return items
    flat = []
    for it in items:
        if it[0] == 'bag':
            flat.extend(it[1])
        elif it[0] in ('e', 'any'):
            flat.append(it)
        else:
            return items
    return (('bag', tuple(flat), None),)


def fold_bag(st, items):
    out = []
    anyi = None
    for it in fold_items(st, items):
        if it[0] == 'any':
            anyi = it if anyi is None else merge_any(anyi, it)
        else:
            out.append(it)
    out.sort(key=lambda i: repr(ikey(i)))
    if anyi is not None:
        out.append(anyi)
    return tuple(out)


def fold(ev, st, v, at, ptrs):
    """Summarise growable sequences inside v (located at at), unless references into them are held."""
    if isinstance(v, Seq):
        if at in ptrs:
            return v
        its = mess(fold_items(st, v.items))
        if its and its[-1][0] == 'bag':
            its = its[:-1] + (('bag', fold_bag(st, its[-1][1]), its[-1][2]),)
        return Seq(its, seqlen(ev, st, v, its))
    if isinstance(v, Iter):
        if v.fixed or v.mode == 'mut':
            return v
        its = fold_items(st, v.items)
        n = seqlen(ev, st, v, its)
        if isinstance(n, Lin) and (not isanon(n.s) or n.s in ev.seqsyms):
            m = ev.fresh('i')
            st.facts.iassume(m, n.s, n.k)
            st.facts.iassume(n.s, m, -n.k)
            st.facts.iassume('0', m, 0)
            n = Lin(m, 0)
        return Iter(its, n, v.mode, v.base, v.fixed)
    if isinstance(v, Win):
        return Win(fold_items(st, v.items), v.prev)
    if isinstance(v, Agg):
        if not v.f:
            return v
        nf = tuple([fold(ev, st, x, (at[0], at[1] + (i,)), ptrs) for i, x in enumerate(v.f)])
        return Agg(v.ty, v.var, nf)
    if isinstance(v, Box):
        return Box(fold(ev, st, v.c, (at[0], at[1] + ('b',)), ptrs))
    return v


def pointed(st):
    """Places that some reference points inside of."""
    r = set()

    def f(x):
        if isinstance(x, Ptr):
            for j in range(len(x.path)):
                if isinstance(x.path[j], int) or x.path[j][0] == '<':
                    r.add((x.obj, x.path[:j]))
    for fr in st.frames:
        for v in fr.loc.values():
            walk(v, f)
    for v in st.heap.values():
        walk(v, f)
    for g in st.ghost.values():
        if g.mat is not None:
            walk(g.mat, f)
    return r


def lensyms(st):
    """Length symbols of sequences (other than iterators)."""
    r = set()

    def f(x):
        if isinstance(x, Seq) and isinstance(x.len, Lin):
            r.add(x.len.s)
    for v in st.heap.values():
        walk(v, f)
    for g in st.ghost.values():
        if g.mat is not None:
            walk(g.mat, f)
    return r


def seqlen(ev, st, v, its):
    if isinstance(v.len, int) and any(i[0] == 'any' or (i[0] == 'bag' and any(j[0] == 'any' for j in i[1])) for i in its):
        n = ev.fresh('i')
        st.facts.iassume(n, '0', v.len)
        st.facts.iassume('0', n, -v.len)
        return Lin(n, 0)
    if isinstance(v.len, Lin) and not isanon(v.len.s) and v.len.k not in (0, 1):
        # a known length that a loop keeps changing
        n = ev.fresh('i')
        st.facts.iassume(n, v.len.s, v.len.k)
        st.facts.iassume(v.len.s, n, -v.len.k)
        st.facts.iassume('0', n, 0)
        return Lin(n, 0)
    return v.len


def canonical(ev, st):
    p = ev.p
    # 1. drop dead locals of every frame
    for d, fr in enumerate(st.frames):
        livein, taken = p.live(fr.n)
        if d == len(st.frames) - 1:
            live = livein[fr.bb]
        else:
            blk = p.insts[fr.n]['blocks'][fr.bb]
            t = blk['t']
            live = set(livein[t[4]]) if t[0] == 'call' and t[4] is not None else set()
            if t[0] == 'call' and t[3][1]:
                live.add(t[3][0])
        live |= taken
        if len(fr.loc) > len(live):
            fr.loc = {k: v for k, v in fr.loc.items() if k in live and v is not None}
        else:
            fr.loc = {k: v for k, v in fr.loc.items() if k in live and v is not None}
    if ev.hooks is not None:
        ev.hooks.prepare(ev, st)
    # 2. summarise
    ptrs = pointed(st)
    ev.seqsyms = lensyms(st)
    for d, fr in enumerate(st.frames):
        for k, v in fr.loc.items():
            if isinstance(v, (Seq, Iter, Win, Agg, Box)):
                fr.loc[k] = fold(ev, st, v, (('L', d, k), ()), ptrs)
    for k, v in list(st.heap.items()):
        st.heap[k] = fold(ev, st, v, (('H', k), ()), ptrs)
    for nid, g in list(st.ghost.items()):
        if g.mat is not None:
            st.ghost[nid] = g.rep(mat=fold(ev, st, g.mat, (('N', nid), ()), ptrs))
    # 3. discover and rename
    m = {}
    cnt = {}
    order = []
    iinfo = {}

    def see(x):
        if isanon(x) and x not in m:
            c = cnt.get(x[0], 0)
            cnt[x[0]] = c + 1
            m[x] = '%s%d' % (x[0], c)
            if x[0] == 'n':
                order.append(x)

    def f(x):
        if isinstance(x, (Datum, OGeom)):
            see(x.did)
        elif isinstance(x, (ONode, OIter)) or isinstance(x, Ptr) and x.obj[0] == 'N':
            nid = x.obj[1] if isinstance(x, Ptr) else x.nid
            see(nid)
            if not isanon(nid) and '@' not in nid and nid not in seen_named:
                seen_named.append(nid)
        elif isinstance(x, Lin):
            if isanon(x.s) and x.s not in iinfo:
                iinfo[x.s] = x.k
            see(x.s)
        elif isinstance(x, F):
            if x.op != 'c':
                for o in sorted(x.owners()):
                    see(o)
        elif isinstance(x, OErr) and isinstance(x.tag, tuple):
            for y in x.tag:
                if isinstance(y, str):
                    see(y)
                elif isinstance(y, F):
                    f(y)
    seen_named = []
    for fr in st.frames:
        for k in sorted(fr.loc):
            walk(fr.loc[k], f)
    for k in sorted(st.heap):
        walk(st.heap[k], f)
    for k in sorted(st.g):
        if not k.startswith('$'):
            walkg(st.g[k], f)
    i = j = 0
    while i < len(order) or j < len(seen_named):
        if j < len(seen_named):
            nid = seen_named[j]
            j += 1
        else:
            nid = order[i]
            i += 1
        g = st.ghost.get(nid)
        if g is None:
            continue
        walkghost(g, f)

    reach_n = set(order) | set(seen_named)

    def ren(x):
        if isanon(x):
            r = m.get(x)
            if r is None:
                return x
            if x[0] in 'iwh':
                return (r, -iinfo.get(x, 0))
            return r
        return x
    fn = renfn(ren)
    for fr in st.frames:
        for k in fr.loc:
            fr.loc[k] = vmap(fr.loc[k], fn)
    for k in st.heap:
        st.heap[k] = vmap(st.heap[k], fn)
    newg = {}
    for nid in sorted(reach_n, key=str):
        g = st.ghost.get(nid)
        if g is None:
            continue
        newg[ren(nid)] = mapghost(g, fn)
    st.ghost = newg
    for k in list(st.g):
        if not k.startswith('$'):
            st.g[k] = mapg(st.g[k], fn)
    # 4. facts
    old = st.facts
    nf = Facts()
    live = {}
    for t in old.terms():
        ok = True
        for o in t.owners():
            if isanon(o) and o not in m:
                ok = False
                break
        if ok:
            live[t] = fn(t)
    for t in live:
        for b, s in old.reach(t).items():
            if b is not t and b in live:
                nf_add(nf, live[t], live[b], s)
    nf.ne = frozenset((fn(a), fn(b)) for a, b in old.ne if a in live and b in live or
                      all(not isanon(o) or o in m for o in a.owners() | b.owners()))
    names = [x for x in old.inames() if not isanon(x) or x in m]
    for a in names:
        for b in names:
            if a != b:
                c = old.ibound(a, b)
                if c is not None and abs(c) <= 2 * (1 << 62):
                    ra, rb = ren(a), ren(b)
                    ka = kb = 0
                    if isinstance(ra, tuple):
                        ra, ka = ra
                    if isinstance(rb, tuple):
                        rb, kb = rb
                    # a = ra + ka ; b = rb + kb
                    nf.ib[(ra, rb)] = c - ka + kb
    st.facts = nf
    shape = (
        tuple((fr.n, fr.bb, tuple((k, key(fr.loc[k])) for k in sorted(fr.loc))) for fr in st.frames),
        tuple((k, key(st.heap[k])) for k in sorted(st.heap)),
        tuple((k, ghostkey(st.ghost[k])) for k in sorted(st.ghost)),
        tuple((k, gkey(st.g[k])) for k in sorted(st.g) if not k.startswith('$')),
    )
    # keep fresh numbering away from canonical names
    ev.fresh_n = max(ev.fresh_n, max(cnt.values(), default=0) + 1)
    return st, shape


def nf_add(nf, a, b, s):
    if isc(a) and isc(b):
        return
    d = nf.e.get(a)
    if d is None:
        d = nf.e[a] = {}
    d[b] = s or d.get(b, False)


def walkg(v, f):
    if isinstance(v, tuple):
        for x in v:
            walkg(x, f)
    elif isinstance(v, (str, bool, int)) or v is None:
        pass
    else:
        walk(v, f)


def mapg(v, fn):
    if isinstance(v, tuple):
        return tuple(mapg(x, fn) for x in v)
    if isinstance(v, (str, bool, int)) or v is None:
        return v
    return vmap(v, fn)


def gkey(v):
    if isinstance(v, tuple):
        return tuple(gkey(x) for x in v)
    return key(v)


def walkghost(g, f):
    for t in g.b or ():
        f(t)
    for x in (g.depth, g.maxd, g.maxc):
        if x is not None:
            f(x)
    if g.mat is not None:
        walk(g.mat, f)
    if g.tag is not None:
        walkg(g.tag, f)


def mapghost(g, fn):
    return Ghost(tuple(fn(t) for t in g.b) if g.b else g.b,
                 None if g.depth is None else fn(g.depth),
                 None if g.maxd is None else fn(g.maxd),
                 None if g.maxc is None else fn(g.maxc),
                 g.has, None if g.mat is None else vmap(g.mat, fn),
                 None if g.tag is None else mapg(g.tag, fn))


def ghostkey(g):
    return (tuple(key(t) for t in g.b or ()), key(g.depth), key(g.maxd), key(g.maxc), g.has, key(g.mat),
            None if g.tag is None else gkey(g.tag))


def floatentails(f, g):
    """Everything g knows about floats is known by f."""
    for a, d in g.e.items():
        r = None
        for b, s in d.items():
            if r is None:
                r = f.reach(a)
            x = r.get(b)
            if x is None or (s and not x):
                if not (f.lt(a, b) if s else f.le(a, b)):
                    return False
    if not g.ne <= f.ne:
        for a, b in g.ne:
            if not f.distinct(a, b):
                return False
    return True


def entails(f, g):
    """Everything g knows is known by f."""
    if not floatentails(f, g):
        return False
    for (a, b), c in g.ib.items():
        x = f.ibound(a, b)
        if x is None or x > c:
            return False
    return True


STEPS = (-3, -2, -1, 0, 1, 255)


def join(f, g, n):
    """Facts known in both (widening integer bounds after n joins)."""
    h = Facts()
    for a, d in f.e.items():
        for b, s in d.items():
            if g.lt(a, b):
                nf_add(h, a, b, s)
            elif g.le(a, b):
                nf_add(h, a, b, False)
    for a, d in g.e.items():
        for b, s in d.items():
            if f.lt(a, b):
                nf_add(h, a, b, s)
            elif f.le(a, b):
                nf_add(h, a, b, False)
    h.ne = frozenset(p for p in f.ne | g.ne if f.distinct(*p) and g.distinct(*p))
    for k in set(f.ib) | set(g.ib):
        x, y = f.ibound(*k), g.ibound(*k)
        if x is not None and y is not None:
            c = max(x, y)
            if n > 4 and y > x:
                c = next((t for t in STEPS if t >= y), None)
                if c is None:
                    continue
            h.ib[k] = c
    return h
