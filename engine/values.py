"""Abstract values."""
from dom import F, Lin


class Unsupported(Exception):
    """The analysis cannot model this construct: no answer."""


class Dead(Exception):
    """The current path is infeasible."""


class Fork(Exception):
    def __init__(self, states):
        self.states = states


class Agg:
    __slots__ = ('ty', 'var', 'f')

    def __init__(self, ty, var, f):
        self.ty = ty
        self.var = var
        self.f = f

    def __repr__(self):
        return 'Agg%s/%s%r' % (self.ty, self.var, self.f)


class Ptr:
    __slots__ = ('obj', 'path')

    def __init__(self, obj, path=()):
        self.obj = obj
        self.path = path

    def __repr__(self):
        return '&%r%r' % (self.obj, self.path)


class VRef:
    """Shared reference to a snapshot value."""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return '&(%r)' % (self.v,)


class Box:
    __slots__ = ('c',)

    def __init__(self, c):
        self.c = c

    def __repr__(self):
        return 'Box(%r)' % (self.c,)


class Seq:
    """Vec / slice contents.  items: ('e', v) | ('any', templates, inv) | ('bag', items, cmp)."""
    __slots__ = ('items', 'len')

    def __init__(self, items, n):
        self.items = items
        self.len = n

    def __repr__(self):
        return 'Seq%r#%r' % (list(self.items), self.len)


class Iter:
    """Sequence iterator. mode: ref | mut | own."""
    __slots__ = ('items', 'len', 'mode', 'base', 'fixed', 'ety')

    def __init__(self, items, n, mode, base=None, fixed=False):
        self.items = items
        self.len = n
        self.mode = mode
        self.base = base
        self.fixed = fixed

    def __repr__(self):
        return 'Iter:%s%r' % (self.mode, list(self.items))


class Win:
    """slice::Windows of size 2 (prev element, remaining items)."""
    __slots__ = ('items', 'prev')

    def __init__(self, items, prev):
        self.items = items
        self.prev = prev


class ONode:
    __slots__ = ('nid',)

    def __init__(self, nid):
        self.nid = nid

    def __repr__(self):
        return 'node<%s>' % self.nid


class Datum:
    __slots__ = ('did',)

    def __init__(self, did):
        self.did = did

    def __repr__(self):
        return 'datum<%s>' % self.did


class OGeom:
    """GeometryRef obtained from an opaque datum / comparator."""
    __slots__ = ('did',)

    def __init__(self, did):
        self.did = did

    def __repr__(self):
        return 'geom<%s>' % self.did


class OIter:
    """Contract iterator over the data of a sub-node; pend = witnesses still to come."""
    __slots__ = ('nid', 'pend', 'kind')

    def __init__(self, nid, pend, kind):
        self.nid = nid
        self.pend = pend
        self.kind = kind

    def __repr__(self):
        return 'oiter<%s %r>' % (self.nid, self.pend)


class Wild:
    """Any value of a type: the content of a field the analysis attaches no meaning to."""
    __slots__ = ('ty', 'count')

    def __init__(self, ty, count=False):
        self.ty = ty
        self.count = count      # counted up from zero: every number does arise

    def __repr__(self):
        return 'any'


class OErr:
    """Opaque error value."""
    __slots__ = ('tag',)

    def __init__(self, tag):
        self.tag = tag

    def __repr__(self):
        return 'err<%s>' % (self.tag,)


class Str:
    __slots__ = ('s',)

    def __init__(self, s):
        self.s = s

    def __repr__(self):
        return repr(self.s)


class Opq:
    """Opaque uninterpreted value with a structural key (strings, formatting...)."""
    __slots__ = ('k',)

    def __init__(self, k):
        self.k = k

    def __repr__(self):
        return 'Opq%r' % (self.k,)


class Marker:
    pass


def walk(v, fn):
    """Call fn on v and every value inside it."""
    fn(v)
    if isinstance(v, Agg):
        for x in v.f:
            walk(x, fn)
    elif isinstance(v, VRef):
        walk(v.v, fn)
    elif isinstance(v, Box):
        walk(v.c, fn)
    elif isinstance(v, (Seq, Iter, Win)):
        for it in v.items:
            walk_item(it, fn)
        if isinstance(v, Win):
            walk(v.prev, fn)
        elif v.len is not None:
            fn(v.len)
        if isinstance(v, Iter) and v.base is not None:
            fn(v.base)
    elif isinstance(v, Opq):
        for x in v.k:
            if not isinstance(x, (str, tuple)):
                walk(x, fn)


def walk_item(it, fn):
    if it[0] == 'e':
        walk(it[1], fn)
    elif it[0] == 'any':
        for t in it[1]:
            walk(t, fn)
    elif it[0] == 'bag':
        for x in it[1]:
            walk_item(x, fn)
        walk(it[2], fn)


def vmap(v, fn, deep=True):
    """Rebuild bottom-up: fn(v) is applied to leaves, returns replacement.
    Templates of nested summaries are closed scopes: skipped unless deep."""
    if isinstance(v, Agg):
        if not v.f:
            return v
        nf = tuple([vmap(x, fn, deep) for x in v.f])
        return Agg(v.ty, v.var, nf)
    if isinstance(v, VRef):
        return VRef(vmap(v.v, fn, deep))
    if isinstance(v, Box):
        return Box(vmap(v.c, fn, deep))
    if isinstance(v, Seq):
        return Seq(tuple(imap(i, fn, deep) for i in v.items), fn(v.len))
    if isinstance(v, Iter):
        return Iter(tuple(imap(i, fn, deep) for i in v.items), fn(v.len), v.mode, v.base, v.fixed)
    if isinstance(v, Win):
        return Win(tuple(imap(i, fn, deep) for i in v.items), vmap(v.prev, fn, deep))
    if isinstance(v, Opq):
        return Opq(tuple(x if isinstance(x, (str, tuple)) else vmap(x, fn, deep) for x in v.k))
    return fn(v)


def imap(it, fn, deep=True):
    if it[0] == 'e':
        return ('e', vmap(it[1], fn, deep))
    if it[0] == 'any':
        if not deep:
            return it
        inv = it[2]
        if inv is not None:
            inv = fn(ONode(inv)).nid
        return ('any', tuple(vmap(t, fn) for t in it[1]), inv)
    if it[0] == 'cur':
        return it
    return ('bag', tuple(imap(x, fn, deep) for x in it[1]), vmap(it[2], fn, deep))


def key(v):
    """Structural key."""
    if v is None or isinstance(v, (bool, int, str, F)):
        return ('b', v) if isinstance(v, bool) else v
    if isinstance(v, Lin):
        return ('lin', v.s, v.k)
    if isinstance(v, Agg):
        return ('a', v.ty, v.var, tuple([key(x) for x in v.f]))
    if isinstance(v, Ptr):
        return ('p', v.obj, v.path)
    if isinstance(v, VRef):
        return ('vr', key(v.v))
    if isinstance(v, Box):
        return ('box', key(v.c))
    if isinstance(v, Seq):
        return ('seq', tuple([ikey(i) for i in v.items]), key(v.len))
    if isinstance(v, Iter):
        return ('it', tuple([ikey(i) for i in v.items]), key(v.len), v.mode, key(v.base), v.fixed)
    if isinstance(v, Win):
        return ('win', tuple([ikey(i) for i in v.items]), key(v.prev))
    if isinstance(v, ONode):
        return ('on', v.nid)
    if isinstance(v, Datum):
        return ('dt', v.did)
    if isinstance(v, OGeom):
        return ('og', v.did)
    if isinstance(v, OIter):
        return ('oi', v.nid, v.pend, v.kind)
    if isinstance(v, OErr):
        return ('oe', v.tag)
    if isinstance(v, Wild):
        return ('wild', v.ty, v.count)
    if isinstance(v, Str):
        return ('s', v.s)
    if isinstance(v, Opq):
        return ('q', tuple(x if isinstance(x, (str, tuple)) else key(x) for x in v.k))
    raise Unsupported('key of %r' % (v,))


def ikey(it):
    if it[0] == 'e':
        return ('e', key(it[1]))
    if it[0] == 'any':
        return ('any', tuple(sorted((key(t) for t in it[1]), key=repr)), it[2])
    if it[0] == 'cur':
        return it
    return ('bag', tuple(sorted((ikey(x) for x in it[1]), key=repr)), key(it[2]))
