"""Models of std functions whose bodies use raw memory, and of float primitives."""
import math
from dom import *
from values import *
from interp import Outcome, Lin, MODE, ANON
from canon import instantiate, special, fold_bag

EXACT = {}
PREFIX = []


def m(*paths):
    def deco(f):
        for p in paths:
            EXACT[p] = f
        return f
    return deco


def pre(*ps):
    def deco(f):
        for p in ps:
            PREFIX.append((p, f))
        return f
    return deco


class Models:
    def get(self, path):
        return EXACT.get(path)

    def lookup(self, inst):
        p = inst['path']
        for q, f in PREFIX:
            if p.startswith(q):
                return f
        if p.endswith('::precondition_check'):
            return unit
        return None


# ---- helpers ---------------------------------------------------------------

def one(st, v):
    return [(st, v)]


def unit(ev, st, c):
    return one(st, Agg(c.destty, 0, ()))


def some(c, v):
    return Agg(c.destty, 1, (v,))


def none(c):
    return Agg(c.destty, 0, ())


def strip(ev, st, p):
    """Follow references to references down to the container pointer."""
    while True:
        if isinstance(p, Ptr):
            v = ev.load(st, p.obj, p.path)
            if isinstance(v, (Ptr, VRef)):
                p = v
                continue
            if isinstance(v, Box) and isinstance(v.c, (Seq, Agg)):
                p = Ptr(p.obj, p.path + ('b',))
                continue
            return p, v
        if isinstance(p, VRef):
            v = p.v
            if isinstance(v, (Ptr, VRef)):
                p = v
                continue
            if isinstance(v, Box) and isinstance(v.c, (Seq, Agg)):
                p = VRef(v.c)
                continue
            return p, v
        if isinstance(p, Box):
            p = VRef(p.c)
            continue
        if isinstance(p, (Seq, Agg)):
            return VRef(p), p
        raise Unsupported('container %r' % (p,))


def cont(ev, st, p):
    """(pointer, items, len, rebuild) of a Vec/slice/array behind p."""
    p, v = strip(ev, st, p)
    if isinstance(v, Seq):
        return p, v.items, v.len, v
    if isinstance(v, Agg):
        return p, tuple(('e', x) for x in v.f), len(v.f), v
    raise Unsupported('sequence %r' % (v,))


def put(ev, st, p, v):
    if not isinstance(p, Ptr):
        raise Unsupported('mutation of a shared snapshot')
    ev.store(st, p.obj, p.path, v)


def nfixed(items):
    n = 0
    for i in items:
        if i[0] == 'e':
            n += 1
        elif i[0] == 'bag':
            n += nfixed(i[1])
    return n


def nopen(items):
    return sum(1 for i in items if i[0] == 'any' or i[0] == 'bag' and nopen(i[1]))


def ladd(n, k):
    if isinstance(n, int):
        return n + k
    return Lin(n.s, n.k + k)


def imin(st, n, k):
    """Assume n >= k."""
    if isinstance(n, int):
        return n >= k
    return st.facts.iassume('0', n.s, n.k - k)


def imaxeq(st, n, k):
    """Assume n == k."""
    if isinstance(n, int):
        return n == k
    return st.facts.iassume('0', n.s, n.k - k) and st.facts.iassume(n.s, '0', k - n.k)


def lsub(ev, st, v, n):
    return ladd(v, n)


def open_first(ev, st, items, n, back, rebuild):
    """If the first (last) segment is summarised, fork so that it becomes explicit.
    rebuild(state, items, n) stores the new contents.  n counts all elements."""
    its = [i for i in items]
    k = len(its) - 1 if back else 0
    seg = its[k]
    if seg[0] == 'e':
        return seg[1]
    if seg[0] == 'cur':
        raise Unsupported('cursor')
    out = []
    if seg[0] == 'any':
        rest = its[:k] + its[k + 1:]
        # nothing (left) in the segment
        s = st.copy()
        ok = True
        if n is not None:
            ok = imin(s, n, nfixed(rest)) if nopen(rest) else imaxeq(s, n, nfixed(rest))
        if ok:
            rebuild(s, tuple(rest), n)
            out.append(s)
        for t in seg[1]:
            s = st.copy()
            if n is not None and not imin(s, n, nfixed(items) + 1):
                continue
            try:
                v = instantiate(ev, s, t, seg[2])
            except Dead:
                continue
            new = its[:k] + ([seg, ('e', v)] if back else [('e', v), seg]) + its[k + 1:]
            rebuild(s, tuple(new), n)
            out.append(s)
        raise Fork(out)
    if seg[0] == 'bag':
        mem = list(seg[1])
        cmpf = seg[2]
        if not mem:
            s = st.copy()
            rebuild(s, tuple(its[:k] + its[k + 1:]), n)
            raise Fork([s])
        for j, it in enumerate(mem):
            if it[0] == 'e':
                cands = [(st.copy(), it[1], mem[:j] + mem[j + 1:])]
            else:
                cands = []
                others = mem[:j] + mem[j + 1:]
                for t in it[1]:
                    s = st.copy()
                    if n is not None and not imin(s, n, nfixed(items) + 1):
                        continue
                    try:
                        cands.append((s, instantiate(ev, s, t, it[2]), mem))
                    except Dead:
                        pass
                # the summarised part may also be empty: only relevant when nothing else is left
                if not others:
                    s = st.copy()
                    rest = its[:k] + its[k + 1:]
                    if n is None or (imin(s, n, nfixed(rest)) if nopen(rest) else imaxeq(s, n, nfixed(rest))):
                        rebuild(s, tuple(rest), n)
                        out.append(s)
            for s, x, rest in cands:
                ss = [s]
                for o in rest:
                    if o[0] != 'e':
                        continue
                    nxt = []
                    for s1 in ss:
                        nxt.extend(notgreater(ev, s1, cmpf, o[1], x) if back else notgreater(ev, s1, cmpf, x, o[1]))
                    ss = nxt
                nb = [('bag', tuple(rest), cmpf)] if rest else []
                new = its[:k] + (nb + [('e', x)] if back else [('e', x)] + nb) + its[k + 1:]
                for s1 in ss:
                    rebuild(s1, tuple(new), n)
                    out.append(s1)
        raise Fork(out)
    raise Unsupported('segment %r' % (seg,))


def notgreater(ev, st, cmpf, a, b):
    """States in which cmp(a, b) is not Greater."""
    if cmpf is None:
        return [st.copy()]
    if cmpf == ('ord',):
        if not isinstance(a, F):
            raise Unsupported('sort of %r' % (a,))
        s = st.copy()
        return [s] if s.facts.add_le(a, b) else []
    r = []
    for o in ev.call_value(st, cmpf, None, [VRef(a), VRef(b)]):
        if o.kind == 'panic':
            r.append(o.st)
            o.st.g['$panic'] = (o.val, o.span)
            continue
        v = o.val
        if isinstance(v, bool):
            raise Unsupported('boolean comparator')
        if v.var != 2:
            r.append(o.st)
    return r


# ---- Vec -------------------------------------------------------------------

@m('alloc::vec::Vec::<T>::new', '<alloc::vec::Vec<T> as core::default::Default>::default',
   'alloc::vec::Vec::<T>::new_in', 'alloc::vec::Vec::<T, A>::new_in')
def vec_new(ev, st, c):
    return one(st, Seq((), 0))


@m('alloc::vec::Vec::<T>::with_capacity', 'alloc::vec::Vec::<T, A>::with_capacity_in')
def vec_wc(ev, st, c):
    return room(st, c.args[0], Seq((), 0)) if isinstance(c.args[0], (int, Lin)) else one(st, Seq((), 0))


def room(st, n, v):
    """Asking for room for n elements: a number given from outside may be more than memory can ever hold."""
    big = 1 << 60
    if isinstance(n, Lin) and ANON.match(n.s):
        return one(st, v)
    if isinstance(n, int):
        return one(st, v) if n <= big else [('panic', st, 'capacity overflow')]
    if st.idecide_le(n, big):
        return one(st, v)
    return [('panic', st, 'capacity overflow')]


@m('alloc::vec::Vec::<T, A>::shrink_to_fit')
def vec_nop(ev, st, c):
    return unit(ev, st, c)


@m('alloc::vec::Vec::<T, A>::reserve', 'alloc::vec::Vec::<T, A>::reserve_exact')
def vec_reserve(ev, st, c):
    r = unit(ev, st, c)
    return room(r[0][0], c.args[1], r[0][1]) if len(r) == 1 and isinstance(c.args[1], (int, Lin)) else r


@m('alloc::vec::Vec::<T, A>::push')
def vec_push(ev, st, c):
    p, items, n, v = cont(ev, st, c.args[0])
    put(ev, st, p, Seq(items + (('e', c.args[1]),), ladd(n, 1)))
    return unit(ev, st, c)


@m('alloc::vec::Vec::<T, A>::push_mut')
def vec_push_mut(ev, st, c):
    p, items, n, v = cont(ev, st, c.args[0])
    put(ev, st, p, Seq(items + (('e', c.args[1]),), ladd(n, 1)))
    return one(st, Ptr(p.obj, p.path + (len(items),)))


@m('alloc::vec::Vec::<T, A>::insert')
def vec_insert(ev, st, c):
    p, items, n, v = cont(ev, st, c.args[0])
    i = c.args[1]
    if not isinstance(i, int) or any(x[0] != 'e' for x in items[:i]) or i > len(items):
        raise Unsupported('Vec::insert at unknown position')
    put(ev, st, p, Seq(items[:i] + (('e', c.args[2]),) + items[i:], ladd(n, 1)))
    return unit(ev, st, c)


def pop_end(ev, st, c, back):
    p, items, n, v = cont(ev, st, c.args[0])
    if not items:
        return one(st, none(c))
    x = open_first(ev, st, items, n, back, lambda s, i, k: put(ev, s, p, Seq(i, k)))
    put(ev, st, p, Seq(items[:-1] if back else items[1:], ladd(n, -1)))
    return one(st, some(c, x))


@m('alloc::vec::Vec::<T, A>::pop')
def vec_pop(ev, st, c):
    return pop_end(ev, st, c, True)


@m('alloc::collections::vec_deque::VecDeque::<T, A>::pop_back')
def dq_popb(ev, st, c):
    return pop_end(ev, st, c, True)


@m('alloc::collections::vec_deque::VecDeque::<T, A>::pop_front')
def dq_popf(ev, st, c):
    return pop_end(ev, st, c, False)


EXACT['alloc::collections::vec_deque::VecDeque::<T>::new'] = vec_new
EXACT['alloc::collections::vec_deque::VecDeque::<T>::with_capacity'] = vec_wc
EXACT['alloc::collections::vec_deque::VecDeque::<T, A>::push_back'] = vec_push


@m('alloc::collections::vec_deque::VecDeque::<T, A>::push_front')
def dq_pushf(ev, st, c):
    p, items, n, v = cont(ev, st, c.args[0])
    put(ev, st, p, Seq((('e', c.args[1]),) + items, ladd(n, 1)))
    return unit(ev, st, c)


@m('alloc::vec::Vec::<T, A>::len', 'core::slice::<impl [T]>::len', 'alloc::collections::vec_deque::VecDeque::<T, A>::len')
def vec_len(ev, st, c):
    p, items, n, v = cont(ev, st, c.args[0])
    return one(st, n)


@m('alloc::vec::Vec::<T, A>::is_empty', 'core::slice::<impl [T]>::is_empty',
   'alloc::collections::vec_deque::VecDeque::<T, A>::is_empty')
def vec_is_empty(ev, st, c):
    p, items, n, v = cont(ev, st, c.args[0])
    if isinstance(n, int):
        return one(st, n == 0)
    if nfixed(items):
        return one(st, False)
    e = st.idecide_le(n, 0)
    if e and isinstance(p, Ptr) and isinstance(v, Seq):
        put(ev, st, p, Seq((), 0))
    return one(st, e)


@m('alloc::vec::Vec::<T, A>::clear')
def vec_clear(ev, st, c):
    p, items, n, v = cont(ev, st, c.args[0])
    put(ev, st, p, Seq((), 0))
    return unit(ev, st, c)


@m('alloc::vec::Vec::<T, A>::truncate')
def vec_truncate(ev, st, c):
    p, items, n, v = cont(ev, st, c.args[0])
    k = c.args[1]
    if st.idecide_le(n, k):
        return unit(ev, st, c)
    if isinstance(k, int) and all(i[0] == 'e' for i in items[:k]) and len(items) >= k:
        put(ev, st, p, Seq(items[:k], k))
        return unit(ev, st, c)
    # keep a prefix: whatever remains of the summarised parts, specials may be cut
    out = []
    for j in range(len(items), -1, -1):
        its = items[:j]
        s = st.copy()
        if nopen(its):
            ok = nfixed(its) == 0 or imin(s, k, nfixed(its))
        else:
            ok = imaxeq(s, k, nfixed(its))
        if ok:
            put(ev, s, p, Seq(its, k))
            out.append((s, Agg(c.destty, 0, ())))
    return out


@m('alloc::vec::Vec::<T, A>::swap_remove', 'alloc::vec::Vec::<T, A>::remove')
def vec_remove(ev, st, c):
    p, items, n, v = cont(ev, st, c.args[0])
    i = c.args[1]
    if not isinstance(i, int):
        if isinstance(i, Lin) and isinstance(n, Lin) and i.s == n.s and i.k == n.k - 1:
            x = open_first(ev, st, items, n, True, lambda s, a, k: put(ev, s, p, Seq(a, k)))
            put(ev, st, p, Seq(items[:-1], ladd(n, -1)))
            return one(st, x)
        raise Unsupported('Vec::remove at unknown position')
    if isinstance(n, int) and i >= n:
        return [('panic', st, 'Vec::remove out of bounds')]
    if not isinstance(n, int) and not st.idecide_le(i + 1, n):
        return [('panic', st, 'Vec::remove out of bounds')]
    for j in range(i + 1):
        if j >= len(items):
            raise Dead()
        if items[j][0] != 'e':
            open_first(ev, st, items[j:], None, False, lambda s, a, k: put(ev, s, p, Seq(items[:j] + a, n)))
    x = items[i][1]
    if c.inst['path'].endswith('::swap_remove') and i < len(items) - 1:
        y = open_first(ev, st, items, n, True, lambda s, a, k: put(ev, s, p, Seq(a, k)))
        rest = items[:i] + (('e', y),) + items[i + 1:-1]
    else:
        rest = items[:i] + items[i + 1:]
    put(ev, st, p, Seq(rest, ladd(n, -1)))
    return one(st, x)


@m('alloc::vec::Vec::<T, A>::append')
def vec_append(ev, st, c):
    p, items, n, v = cont(ev, st, c.args[0])
    q, items2, n2, v2 = cont(ev, st, c.args[1])
    put(ev, st, q, Seq((), 0))
    put(ev, st, p, Seq(items + items2, sumlen(ev, st, n, n2)))
    return unit(ev, st, c)


def sumlen(ev, st, n, k):
    if isinstance(n, int) and isinstance(k, int):
        return n + k
    if isinstance(k, int):
        return ladd(n, k)
    if isinstance(n, int):
        return ladd(k, n)
    s = ev.fresh('i')
    st.facts.iassume('0', s, 0)
    st.facts.iassume(n.s, s, -n.k)
    st.facts.iassume(k.s, s, -k.k)
    return Lin(s, 0)


@m('alloc::vec::Vec::<T, A>::drain')
def vec_drain(ev, st, c):
    p, items, n, v = cont(ev, st, c.args[0])
    if 'RangeFull' not in repr(ev.p.tyname(c.argtys[1])):
        raise Unsupported('partial drain')
    put(ev, st, p, Seq((), 0))
    return one(st, Iter(items, n, 'own'))


@m('<alloc::vec::Vec<T, A> as core::clone::Clone>::clone', 'alloc::slice::<impl [T]>::to_vec',
   '<alloc::vec::Vec<T> as core::clone::Clone>::clone')
def vec_clone(ev, st, c):
    p, items, n, v = cont(ev, st, c.args[0])
    for i in items:
        if i[0] == 'e' and not copyable(i[1]) or i[0] == 'any' and not all(copyable(t) for t in i[1]):
            raise Unsupported('clone of non-copy elements')
    return one(st, Seq(items, n))


def copyable(v):
    ok = [True]

    def f(x):
        if isinstance(x, (Datum, ONode, Ptr)):
            ok[0] = ok[0] and False
    if isinstance(v, VRef):
        return True
    if isinstance(v, Agg):
        return all(copyable(x) for x in v.f)
    walk(v, f)
    return ok[0]


@m('<alloc::vec::Vec<T, A> as core::ops::deref::Deref>::deref', '<alloc::vec::Vec<T, A> as core::ops::deref::DerefMut>::deref_mut',
   'alloc::vec::Vec::<T, A>::as_slice', 'alloc::vec::Vec::<T, A>::as_mut_slice',
   '<alloc::vec::Vec<T, A> as core::convert::AsRef<[T]>>::as_ref', '<alloc::vec::Vec<T, A> as core::borrow::Borrow<[T]>>::borrow',
   'core::array::<impl [T; N]>::as_slice', '<alloc::boxed::Box<T, A> as core::ops::deref::Deref>::deref',
   '<alloc::boxed::Box<T, A> as core::convert::AsRef<T>>::as_ref', '<alloc::boxed::Box<T, A> as core::ops::deref::DerefMut>::deref_mut',
   '<alloc::boxed::Box<T, A> as core::convert::AsMut<T>>::as_mut')
def vec_deref(ev, st, c):
    a = c.args[0]
    v = ev.load(st, a.obj, a.path) if isinstance(a, Ptr) else a.v
    if isinstance(v, Box):
        return one(st, Ptr(a.obj, a.path + ('b',)) if isinstance(a, Ptr) else VRef(v.c))
    return one(st, a)


def elemref(p, i, x):
    """Reference to element i (value x) of the container at p."""
    if isinstance(x, (Datum, ONode, OGeom)) or not isinstance(p, Ptr):
        return VRef(x)
    return Ptr(p.obj, p.path + (i,))


def mutref(p, i, x):
    if not isinstance(p, Ptr):
        raise Unsupported('mutable access to snapshot')
    if isinstance(x, ONode):
        return Ptr(('N', x.nid), ())
    return Ptr(p.obj, p.path + (i,))


def peek(ev, st, c, back, mut):
    p, items, n, v = cont(ev, st, c.args[0])
    if not items:
        return one(st, none(c))
    if isinstance(p, Ptr):
        x = open_first(ev, st, items, n, back,
                       lambda s, i, k: put(ev, s, p, Seq(i, k)))
        i = len(items) - 1 if back else 0
        return one(st, some(c, (mutref if mut else elemref)(p, i, x)))
    # snapshot: forget the correlation
    seg = items[-1 if back else 0]
    if seg[0] == 'e':
        return one(st, some(c, VRef(seg[1])))
    raise Unsupported('end of a summarised snapshot')


@m('core::slice::<impl [T]>::first')
def sl_first(ev, st, c):
    return peek(ev, st, c, False, False)


@m('core::slice::<impl [T]>::last')
def sl_last(ev, st, c):
    return peek(ev, st, c, True, False)


@m('core::slice::<impl [T]>::first_mut')
def sl_first_mut(ev, st, c):
    return peek(ev, st, c, False, True)


@m('core::slice::<impl [T]>::last_mut')
def sl_last_mut(ev, st, c):
    return peek(ev, st, c, True, True)


EXACT['alloc::collections::vec_deque::VecDeque::<T, A>::front'] = sl_first
EXACT['alloc::collections::vec_deque::VecDeque::<T, A>::back'] = sl_last


def index(ev, st, c, mut, unchecked, opt):
    p, items, n, v = cont(ev, st, c.args[0])
    i = c.args[1]
    if isinstance(i, Agg):
        return subslice(ev, st, c, p, items, n, i)
    if isinstance(i, Lin):
        s, k = isplit(i)
        lo, hi = st.facts.ibound('0', s), st.facts.ibound(s, '0')
        if lo is not None and hi is not None and -lo == hi:
            i = hi + k
        elif isinstance(n, Lin) and n.s == s:
            # index from the end
            d = n.k - k
            if d <= 0:
                return one(st, none(c)) if opt else [('panic', st, 'index out of bounds')]
            if d == 1 and items:
                x = open_first(ev, st, items, n, True, lambda s_, a, b: put(ev, s_, p, Seq(a, b)))
                r = (mutref if mut else elemref)(p, len(items) - 1, x)
                return one(st, some(c, r) if opt else r)
            raise Unsupported('index from the end')
        elif isinstance(n, int) and all(x[0] == 'e' for x in items) and len(items) <= 16:
            out = []
            for j in range(n + 1):
                s2 = st.copy()
                if j < n:
                    if not (s2.facts.iassume(s, '0', j - k) and s2.facts.iassume('0', s, k - j)):
                        continue
                else:
                    if not s2.facts.iassume('0', s, k - n):
                        continue
                out.append(s2)
            if len(out) == 1:
                st.facts = out[0].facts
                lo, hi = st.facts.ibound('0', s), st.facts.ibound(s, '0')
                if lo is not None and hi is not None and -lo == hi:
                    i = hi + k
                else:
                    return one(st, none(c)) if opt else [('panic', st, 'index out of bounds')]
            else:
                raise Fork(out)
        else:
            raise Unsupported('symbolic index %r into %r' % (i, n))
    if isinstance(n, int):
        inb = i < n
    else:
        inb = st.idecide_le(i + 1, n)
    if not inb:
        if unchecked:
            raise Unsupported('get_unchecked out of bounds')
        return one(st, none(c)) if opt else [('panic', st, 'index out of bounds')]
    for j in range(i + 1):
        if j >= len(items):
            raise Dead()
        if items[j][0] != 'e':
            if not isinstance(p, Ptr):
                raise Unsupported('index into summarised snapshot')
            open_first(ev, st, items[j:], None, False, lambda s, a, k: put(ev, s, p, Seq(items[:j] + a, n)))
    r = (mutref if mut else elemref)(p, i, items[i][1])
    return one(st, some(c, r) if opt else r)


def subslice(ev, st, c, p, items, n, r):
    name = ev.p.tyname(r.ty) if r.ty is not None else ''
    if 'RangeFull' in name:
        return one(st, p)
    if not isinstance(n, int) or not all(x[0] == 'e' for x in items):
        if 'RangeFrom' in name and r.f[0] in (0, 1):
            if r.f[0] == 0:
                return one(st, p)
            if not items:
                return [('panic', st, 'slice index out of bounds')]
            if not isinstance(p, Ptr):
                if items[0][0] != 'e':
                    raise Unsupported('subslice of summarised snapshot')
            else:
                open_first(ev, st, items, n, False, lambda s, a, k: put(ev, s, p, Seq(a, k)))
            return one(st, VRef(Seq(items[1:], ladd(n, -1))))
        raise Unsupported('subslice of summarised sequence')
    lo, hi = 0, n
    if 'RangeFrom' in name:
        lo = r.f[0]
    elif 'RangeToInclusive' in name:
        hi = r.f[0] + 1
    elif 'RangeTo' in name:
        hi = r.f[0]
    elif 'RangeInclusive' in name:
        lo, hi = r.f[0], r.f[1] + 1
    elif 'Range' in name:
        lo, hi = r.f[0], r.f[1]
    else:
        raise Unsupported('index by %s' % name)
    if not (isinstance(lo, int) and isinstance(hi, int)):
        raise Unsupported('symbolic subslice')
    if not 0 <= lo <= hi <= n:
        return [('panic', st, 'slice index out of bounds')]
    return one(st, VRef(Seq(tuple(items[lo:hi]), hi - lo)))


@m('<alloc::vec::Vec<T, A> as core::ops::index::Index<I>>::index', 'core::slice::index::<impl core::ops::index::Index<I> for [T]>::index',
   'core::array::<impl core::ops::index::Index<I> for [T; N]>::index')
def v_index(ev, st, c):
    return index(ev, st, c, False, False, False)


@m('<alloc::vec::Vec<T, A> as core::ops::index::IndexMut<I>>::index_mut',
   'core::slice::index::<impl core::ops::index::IndexMut<I> for [T]>::index_mut',
   'core::array::<impl core::ops::index::IndexMut<I> for [T; N]>::index_mut')
def v_index_mut(ev, st, c):
    return index(ev, st, c, True, False, False)


@m('core::slice::<impl [T]>::get', 'core::slice::<impl [T]>::get::<I>')
def v_get(ev, st, c):
    return index(ev, st, c, False, False, True)


@m('core::slice::<impl [T]>::get_mut')
def v_get_mut(ev, st, c):
    return index(ev, st, c, True, False, True)


@m('core::slice::<impl [T]>::get_unchecked')
def v_get_u(ev, st, c):
    return index(ev, st, c, False, True, False)


@m('core::slice::<impl [T]>::reverse')
def v_reverse(ev, st, c):
    p, items, n, v = cont(ev, st, c.args[0])
    its = tuple(reversed(items))
    if any(i[0] == 'bag' for i in its):
        its = tuple(('bag', i[1], Opq(('rev', i[2]))) if i[0] == 'bag' else i for i in its)
        raise Unsupported('reverse of a sorted sequence')
    put(ev, st, p, Seq(its, n) if isinstance(v, Seq) else Agg(v.ty, v.var, tuple(i[1] for i in its)))
    return unit(ev, st, c)


@m('core::slice::<impl [T]>::swap')
def v_swap(ev, st, c):
    p, items, n, v = cont(ev, st, c.args[0])
    i, j = c.args[1], c.args[2]
    if not (isinstance(i, int) and isinstance(j, int)) or any(x[0] != 'e' for x in items[:max(i, j) + 1]):
        raise Unsupported('swap at unknown positions')
    if max(i, j) >= len(items):
        return [('panic', st, 'swap out of bounds')]
    its = list(items)
    its[i], its[j] = its[j], its[i]
    put(ev, st, p, Seq(tuple(its), n) if isinstance(v, Seq) else Agg(v.ty, v.var, tuple(x[1] for x in its)))
    return unit(ev, st, c)


@m('core::slice::<impl [T]>::sort_unstable_by', 'alloc::slice::<impl [T]>::sort_by')
def v_sort(ev, st, c):
    p, items, n, v = cont(ev, st, c.args[0])
    return dosort(ev, st, c, p, items, n, c.args[1])


def dosort(ev, st, c, p, items, n, cmpf):
    while isinstance(cmpf, (Ptr, VRef)):
        cmpf = cmpf.v if isinstance(cmpf, VRef) else ev.load(st, cmpf.obj, cmpf.path)
    flat = []
    for i in items:
        if i[0] == 'bag':
            flat.extend(i[1])
        else:
            flat.append(i)
    if not flat:
        return unit(ev, st, c)
    if len(flat) == 1 and flat[0][0] == 'e':
        new = tuple(flat)
    else:
        # a comparator that panics on some pair panics in the sort
        es = [i[1] for i in flat if i[0] == 'e']
        for i in flat:
            if i[0] == 'any':
                for t in i[1]:
                    s = st.copy()
                    try:
                        es.append((s, instantiate(ev, s, t, i[2]), instantiate(ev, s, t, i[2])))
                    except Dead:
                        pass
        for x in es:
            if isinstance(x, tuple):
                s, a, b = x
            else:
                s, a, b = st.copy(), x, x
            for o in ev.call_value(s, cmpf, None, [VRef(a), VRef(b)]) if cmpf != ('ord',) else ():
                if o.kind == 'panic':
                    return [('panic', o.st, o.val)]
        new = (('bag', tuple(flat), cmpf),)
    put(ev, st, p, Seq(new, n))
    return unit(ev, st, c)


def applyall(ev, st, c, f, arglists):
    """Call f on each argument list in order; (state, values) per path, or a panic."""
    key = 'fn%d' % ev.nheap()
    st.heap[key] = f
    done = []
    cur = [(st, ())]
    for args in arglists:
        nxt = []
        for s, vs in cur:
            for o in ev.call_value(s, Ptr(('H', key), ()), None, args):
                if o.kind == 'panic':
                    o.st.heap.pop(key, None)
                    done.append(('panic', o.st, o.val))
                else:
                    nxt.append((o.st, vs + (o.val,)))
        cur = nxt
    for s, vs in cur:
        s.heap.pop(key, None)
        done.append((s, Agg(c.destty, None, vs)))
    return done


@m('core::array::<impl [T; N]>::map')
def a_map(ev, st, c):
    v = c.args[0]
    if not isinstance(v, Agg):
        raise Unsupported('map of %r' % (v,))
    return applyall(ev, st, c, c.args[1], [[x] for x in v.f])


@m('core::array::from_fn')
def a_from_fn(ev, st, c):
    k = ev.p.types[c.destty]['k']
    n = ev.p.types[c.destty].get('len')
    if not isinstance(n, int):
        raise Unsupported('from_fn of %r' % (k,))
    return applyall(ev, st, c, c.args[0], [[i] for i in range(n)])


# ---- iterators -------------------------------------------------------------

@m('core::slice::<impl [T]>::iter', 'core::slice::iter::<impl core::iter::traits::collect::IntoIterator for &\'a [T]>::into_iter',
   '<&\'a alloc::vec::Vec<T, A> as core::iter::traits::collect::IntoIterator>::into_iter',
   'core::array::<impl core::iter::traits::collect::IntoIterator for &\'a [T; N]>::into_iter',
   'core::slice::iter::Iter::<\'a, T>::new', 'alloc::collections::vec_deque::VecDeque::<T, A>::iter')
def it_new(ev, st, c):
    p, items, n, v = cont(ev, st, c.args[0])
    fixed = isinstance(v, Agg)
    return one(st, Iter(items, n, 'ref', None, fixed))


@m('core::slice::<impl [T]>::iter_mut',
   'core::slice::iter::<impl core::iter::traits::collect::IntoIterator for &\'a mut [T]>::into_iter',
   '<&\'a mut alloc::vec::Vec<T, A> as core::iter::traits::collect::IntoIterator>::into_iter',
   'core::array::<impl core::iter::traits::collect::IntoIterator for &\'a mut [T; N]>::into_iter',
   'core::slice::iter::IterMut::<\'a, T>::new')
def it_mut(ev, st, c):
    p, items, n, v = cont(ev, st, c.args[0])
    if not isinstance(p, Ptr):
        raise Unsupported('iter_mut of snapshot')
    if isinstance(v, Agg):
        its = tuple(('e', mutref(p, i, x[1])) for i, x in enumerate(items))
        return one(st, Iter(its, n, 'own', None, True))
    if all(x[0] == 'e' and isinstance(x[1], ONode) for x in items):
        return one(st, Iter(tuple(('e', mutref(p, i, x[1])) for i, x in enumerate(items)), n, 'own', None, True))
    cid = 'c%d' % sum(1 for i in items if i[0] == 'cur')
    put(ev, st, p, Seq((('cur', cid),) + items, n))
    return one(st, Iter((('cur', cid),), n, 'mut', p))


@m('<alloc::vec::Vec<T, A> as core::iter::traits::collect::IntoIterator>::into_iter',
   '<alloc::collections::vec_deque::VecDeque<T, A> as core::iter::traits::collect::IntoIterator>::into_iter',
   'core::array::iter::<impl core::iter::traits::collect::IntoIterator for [T; N]>::into_iter')
def it_own(ev, st, c):
    v = c.args[0]
    if isinstance(v, Seq):
        return one(st, Iter(v.items, v.len, 'own'))
    if isinstance(v, Agg):
        return one(st, Iter(tuple(('e', x) for x in v.f), len(v.f), 'own', None, True))
    raise Unsupported('into_iter of %r' % (v,))


@m('<alloc::boxed::Box<[I], A> as core::iter::traits::collect::IntoIterator>::into_iter')
def it_boxed(ev, st, c):
    v = c.args[0]
    if isinstance(v, Box):
        v = v.c
    c.args = [v]
    return it_own(ev, st, c)


def it_load(ev, st, p):
    while True:
        v = ev.load(st, p.obj, p.path) if isinstance(p, Ptr) else p.v
        if isinstance(v, (Ptr, VRef)):
            p = v
            continue
        return p, v


def it_step(ev, st, c, back):
    p, it = it_load(ev, st, c.args[0])
    if isinstance(it, Win):
        return win_next(ev, st, c, p, it, back)
    if not isinstance(it, Iter):
        raise Unsupported('iterator %r' % (it,))
    if not isinstance(p, Ptr):
        raise Unsupported('iterator snapshot')
    if it.mode == 'mut':
        if back:
            raise Unsupported('reverse mutable iteration')
        return mut_next(ev, st, c, p, it)
    if not it.items:
        return one(st, none(c))
    x = open_first(ev, st, it.items, it.len, back,
                   lambda s, i, k: put(ev, s, p, Iter(i, k, it.mode, it.base, it.fixed)))
    rest = it.items[:-1] if back else it.items[1:]
    put(ev, st, p, Iter(rest, ladd(it.len, -1), it.mode, it.base, it.fixed))
    return one(st, some(c, VRef(x) if it.mode == 'ref' else x))


def mut_next(ev, st, c, p, it):
    base = it.base
    cid = it.items[0][1] if it.items else None
    if cid is None:
        return one(st, none(c))
    seq = ev.load(st, base.obj, base.path)
    items = list(seq.items)
    k = next(i for i, x in enumerate(items) if x[0] == 'cur' and x[1] == cid)
    if k + 1 >= len(items):
        del items[k]
        put(ev, st, base, Seq(tuple(items), seq.len))
        put(ev, st, p, Iter((), 0, 'mut', base))
        return one(st, none(c))
    nxt = items[k + 1]
    if nxt[0] != 'e':
        def rb(s, i, n):
            put(ev, s, base, Seq(tuple(items[:k + 1]) + i, seq.len))
        rest = tuple(items[k + 1:])
        if nopen(tuple(items[:k])) == 0 and isinstance(seq.len, Lin):
            n = ladd(seq.len, -nfixed(tuple(items[:k])))
        else:
            n = None
        open_first(ev, st, rest, n, False, rb)
    items[k], items[k + 1] = items[k + 1], items[k]
    put(ev, st, base, Seq(tuple(items), seq.len))
    return one(st, some(c, Ptr(base.obj, base.path + ('<' + cid,))))


def win_next(ev, st, c, p, it, back):
    if back:
        raise Unsupported('windows backwards')
    if not it.items:
        return one(st, none(c))
    if it.prev is None:
        x = open_first(ev, st, it.items, None, False, lambda s, i, k: put(ev, s, p, Win(i, None)))
        put(ev, st, p, Win(it.items[1:], x))
        it = Win(it.items[1:], x)
        raise Fork([st.copy()])
    x = open_first(ev, st, it.items, None, False, lambda s, i, k: put(ev, s, p, Win(i, it.prev)))
    put(ev, st, p, Win(it.items[1:], x))
    return one(st, some(c, VRef(Seq((('e', it.prev), ('e', x)), 2))))


@m('core::slice::<impl [T]>::windows')
def win_new(ev, st, c):
    p, items, n, v = cont(ev, st, c.args[0])
    if c.args[1] != 2:
        raise Unsupported('windows of size %r' % (c.args[1],))
    return one(st, Win(items, None))


ITP = ("<core::slice::iter::Iter<'a, T> as ", "<core::slice::iter::IterMut<'a, T> as ",
       '<alloc::vec::into_iter::IntoIter<T, A> as ', "<core::slice::iter::Windows<'a, T> as ",
       '<core::array::iter::IntoIter<T, N> as ', '<core::array::iter::IntoIter<T, N, A> as ',
       "<alloc::vec::drain::Drain<'_, T, A> as ", '<alloc::vec::drain::Drain<T, A> as ',
       "<alloc::collections::vec_deque::iter::Iter<'a, T> as ",
       '<alloc::collections::vec_deque::into_iter::IntoIter<T, A> as ',
       '<core::slice::iter::Iter<T> as ', '<core::slice::iter::Iter<\'_, T> as ', '<core::slice::iter::IterMut<\'_, T> as ')
for _p in ITP:
    EXACT[_p + 'core::iter::traits::iterator::Iterator>::next'] = lambda ev, st, c: it_step(ev, st, c, False)
    EXACT[_p + 'core::iter::traits::double_ended::DoubleEndedIterator>::next_back'] = lambda ev, st, c: it_step(ev, st, c, True)


def it_len(ev, st, c):
    a = c.args[0]
    if isinstance(a, (Ptr, VRef)):
        p, it = it_load(ev, st, a)
    else:
        it = a
    if not isinstance(it, Iter) or it.len is None:
        raise Unsupported('iterator length')
    return one(st, it.len)


def it_hint(ev, st, c):
    p, it = it_load(ev, st, c.args[0])
    n = it.len if isinstance(it, Iter) and it.len is not None else 0
    ty = c.destty
    opt = ev.p.types[ty]['k'][1][1]
    return one(st, Agg(ty, 0, (n, Agg(opt, 1, (n,)))))


for _p in ITP:
    EXACT[_p + 'core::iter::traits::exact_size::ExactSizeIterator>::len'] = it_len
    EXACT[_p + 'core::iter::traits::exact_size::ExactSizeIterator>::is_empty'] = lambda ev, st, c: one(st, st.idecide_le(it_len(ev, st, c)[0][1], 0))
    EXACT[_p + 'core::iter::traits::iterator::Iterator>::count'] = it_len
    EXACT[_p + 'core::iter::traits::iterator::Iterator>::size_hint'] = it_hint


@m("<core::slice::iter::Iter<'_, T> as core::clone::Clone>::clone", '<core::slice::iter::Iter<T> as core::clone::Clone>::clone',
   "<core::slice::iter::Iter<'a, T> as core::clone::Clone>::clone")
def it_clone(ev, st, c):
    p, it = it_load(ev, st, c.args[0])
    return one(st, it)


# ---- boxes -----------------------------------------------------------------

@m('alloc::boxed::Box::<T>::new')
def box_new(ev, st, c):
    return one(st, Box(c.args[0]))


@m('alloc::boxed::Box::<T>::new_uninit', 'alloc::boxed::box_new_uninit')
def box_uninit(ev, st, c):
    return one(st, Box(None))


def inner(v):
    while isinstance(v, Agg) and v.ty is None:
        xs = [x for x in v.f if x is not None]
        if len(xs) != 1:
            break
        v = xs[0]
    return v


@m('alloc::boxed::box_assume_init_into_vec_unsafe')
def box_vec(ev, st, c):
    v = c.args[0]
    if isinstance(v, Box):
        v = inner(v.c)
    if v is None:
        return one(st, Seq((), 0))
    if not isinstance(v, Agg):
        raise Unsupported('vec! of %r' % (v,))
    return one(st, Seq(tuple(('e', x) for x in v.f), len(v.f)))


@m('alloc::slice::<impl [T]>::into_vec')
def slice_into_vec(ev, st, c):
    v = c.args[0]
    if isinstance(v, Box):
        v = v.c
    if isinstance(v, Seq):
        return one(st, v)
    return one(st, Seq(tuple(('e', x) for x in v.f), len(v.f)))


@m('alloc::boxed::Box::<core::mem::maybe_uninit::MaybeUninit<T>, A>::assume_init')
def box_assume(ev, st, c):
    v = c.args[0]
    return one(st, Box(inner(v.c)))


@m('<alloc::vec::Vec<T> as core::convert::From<[T; N]>>::from', '<alloc::vec::Vec<T> as core::convert::From<&[T]>>::from')
def vec_from(ev, st, c):
    v = c.args[0]
    if isinstance(v, (Ptr, VRef)):
        p, items, n, v = cont(ev, st, v)
        return one(st, Seq(items, n))
    if isinstance(v, Agg):
        return one(st, Seq(tuple(('e', x) for x in v.f), len(v.f)))
    raise Unsupported('Vec::from')


@m('core::intrinsics::typed_swap_nonoverlapping')
def swap_mem(ev, st, c):
    a, b = c.args
    x, y = ev.load(st, a.obj, a.path), ev.load(st, b.obj, b.path)
    put(ev, st, a, y)
    put(ev, st, b, x)
    return unit(ev, st, c)


@m('core::intrinsics::cold_path', 'core::intrinsics::assume', 'core::hint::assert_unchecked', 'core::ptr::drop_glue',
   'core::mem::drop', 'core::mem::forget', 'core::ptr::drop_in_place')
def nop(ev, st, c):
    return unit(ev, st, c)


@m('core::hint::unreachable_unchecked')
def ub(ev, st, c):
    raise Dead()


@m('core::mem::size_of', 'core::intrinsics::size_of')
def size_of(ev, st, c):
    return one(st, 8)


@m('core::hint::black_box')
def bb(ev, st, c):
    return one(st, c.args[0])


# ---- panics ----------------------------------------------------------------

@pre('core::panicking::', 'std::rt::begin_panic', 'core::option::expect_failed', 'core::option::unwrap_failed',
     'core::result::unwrap_failed', 'alloc::alloc::handle_alloc_error', 'alloc::raw_vec::capacity_overflow',
     'core::slice::index::slice_', 'core::cell::panic_', 'std::panicking::', 'core::str::slice_error_fail')
def panics(ev, st, c):
    msg = c.inst['path'].rsplit('::', 1)[-1]
    if c.args and isinstance(c.args[0], Str):
        msg += ': ' + c.args[0].s
    return [('panic', st, msg)]


# ---- floats ----------------------------------------------------------------

def fmodel(*names):
    def deco(f):
        for n in names:
            for pfx in ('std::f64::<impl f64>::', 'core::f64::<impl f64>::', 'core::num::f64::<impl f64>::',
                        'std::num::f64::<impl f64>::'):
                EXACT[pfx + n] = f
        return f
    return deco


for _n in ('sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'sqrt', 'exp', 'ln', 'floor', 'ceil', 'round', 'trunc', 'cbrt'):
    def _mk(n):
        @fmodel(n)
        def f(ev, st, c):
            return one(st, fn(n, c.args[0]))
        return f
    _mk(_n)


@m('core::intrinsics::sqrtf64')
def isqrt(ev, st, c):
    return one(st, fn('sqrt', c.args[0]))


@fmodel('powi')
def powi(ev, st, c):
    x, k = c.args
    if k == 1:
        return one(st, x)
    if k == 0:
        return one(st, ONE)
    if isc(x) and isinstance(k, int):
        return one(st, const(x.args[0] ** k))
    if k == 2:
        return one(st, mul(x, x))
    return one(st, F('powi', (x, k)))


@fmodel('powf', 'atan2', 'hypot')
def powf(ev, st, c):
    n = c.inst['path'].rsplit('::', 1)[-1]
    x, y = c.args
    if n == 'powf' and isc(y) and y.args[0] == 2.0:
        return one(st, mul(x, x))
    if n == 'powf' and isc(y) and y.args[0] == 0.5:
        return one(st, fn('sqrt', x))
    if n == 'hypot':
        return one(st, fn('sqrt', add(mul(x, x), mul(y, y))))
    return one(st, F(n, (x, y)))


@fmodel('sin_cos')
def sincos(ev, st, c):
    return one(st, Agg(c.destty, 0, (fn('sin', c.args[0]), fn('cos', c.args[0]))))


@fmodel('mul_add')
def muladd(ev, st, c):
    return one(st, add(mul(c.args[0], c.args[1]), c.args[2]))


@fmodel('to_radians')
def torad(ev, st, c):
    return one(st, mul(c.args[0], const(math.pi / 180)))


@fmodel('to_degrees')
def todeg(ev, st, c):
    return one(st, mul(c.args[0], const(180 / math.pi)))


@fmodel('recip')
def recip(ev, st, c):
    return one(st, div(ONE, c.args[0]))


@fmodel('abs')
def fabs(ev, st, c):
    x = c.args[0]
    if x.op == 'fn' or nonneg(x):
        return one(st, x)
    if MODE['real'] and not isc(x):
        import real
        s = real.sign(st.facts, real.under(st.facts, real.rpoly(x)))
        return one(st, x if s > 0 else neg(x) if s < 0 else F('abs', (x,)))
    return one(st, x if st.decide_le(ZERO, x) else neg(x))


def nonneg(x):
    return x.op in ('sqrt', 'abs') or (x.op == 'mul' and x.args[0] is x.args[1]) or (isc(x) and x.args[0] >= 0)


EXACT['core::intrinsics::fabsf64'] = fabs
EXACT['core::intrinsics::fabs'] = fabs


@fmodel('signum')
def signum(ev, st, c):
    if MODE['real'] and not isc(c.args[0]):
        import real
        s = real.sign(st.facts, real.under(st.facts, real.rpoly(c.args[0])))
        return one(st, ONE if s > 0 else neg(ONE) if s < 0 else F('sgn', (c.args[0],)))
    return one(st, ONE if st.decide_le(ZERO, c.args[0]) else neg(ONE))


@fmodel('copysign')
def copysign(ev, st, c):
    x, y = c.args
    a = x if st.decide_le(ZERO, x) else neg(x)
    return one(st, a if st.decide_le(ZERO, y) else neg(a))


EXACT['core::intrinsics::copysignf64'] = copysign


@fmodel('is_sign_negative')
def issn(ev, st, c):
    return one(st, not st.decide_le(ZERO, c.args[0]))


@fmodel('is_sign_positive')
def issp(ev, st, c):
    return one(st, st.decide_le(ZERO, c.args[0]))


@fmodel('max', 'maximum')
def fmax(ev, st, c):
    a, b = c.args
    return one(st, b if st.decide_le(a, b) else a)


@fmodel('min', 'minimum')
def fmin(ev, st, c):
    a, b = c.args
    return one(st, a if st.decide_le(a, b) else b)


for _n in ('maximum_number_nsz_f64', 'maxnumf64', 'maximumf64', 'maximum_number_nsz'):
    EXACT['core::intrinsics::' + _n] = fmax
for _n in ('minimum_number_nsz_f64', 'minnumf64', 'minimumf64', 'minimum_number_nsz'):
    EXACT['core::intrinsics::' + _n] = fmin


@fmodel('clamp')
def fclamp(ev, st, c):
    x, a, b = c.args
    if st.decide_lt(x, a):
        return one(st, a)
    return one(st, b if st.decide_lt(b, x) else x)


@fmodel('is_nan')
def isnan(ev, st, c):
    x = c.args[0]
    return one(st, isc(x) and x.args[0] != x.args[0])


@fmodel('is_finite')
def isfinite(ev, st, c):
    x = c.args[0]
    if isc(x):
        return one(st, math.isfinite(x.args[0]))
    if not st.decide_lt(x, INF):
        return one(st, False)
    if x.op != 'd' and not nonneg(x) and not st.facts.le(ZERO, x):
        return one(st, st.decide_lt(NINF, x))
    return one(st, True)


@fmodel('is_infinite')
def isinf(ev, st, c):
    return one(st, not isfinite(ev, st, c)[0][1])


@fmodel('total_cmp')
def totalcmp(ev, st, c):
    a, b = [ev.deref(st, x) for x in c.args]
    if st.decide_le(a, b):
        return one(st, ev.ordering(0 if st.decide_le(b, a) else -1))
    return one(st, ev.ordering(1))


@m('core::intrinsics::float_to_int_unchecked')
def f2i(ev, st, c):
    x = c.args[0]
    if isc(x):
        return one(st, int(x.args[0]))
    raise Unsupported('float to int')


@m('core::intrinsics::integer_max')
def imax_(ev, st, c):
    a, b = c.args
    return one(st, b if st.idecide_le(a, b) else a)


EXACT['core::intrinsics::integer_min'] = lambda ev, st, c: one(st, c.args[0] if st.idecide_le(c.args[0], c.args[1]) else c.args[1])


@m('core::intrinsics::saturating_add', 'core::intrinsics::saturating_sub')
def isat(ev, st, c):
    a, b = c.args
    op = 'Add' if c.inst['path'].endswith('add') else 'Sub'
    signed, bits = ev.tybits(c.destty)
    lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
    v = ev.arith(st, op, a, b)
    if not st.idecide_le(v, hi):
        return one(st, hi)
    if not st.idecide_le(lo, v):
        return one(st, lo)
    return one(st, v)


@m('core::intrinsics::three_way_compare')
def twc(ev, st, c):
    a, b = c.args
    if st.idecide_le(a, b):
        return one(st, ev.ordering(0 if st.idecide_le(b, a) else -1))
    return one(st, ev.ordering(1))


@m('core::intrinsics::wrapping_add', 'core::intrinsics::wrapping_sub', 'core::intrinsics::wrapping_mul')
def wrap(ev, st, c):
    op = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mul'}[c.inst['path'][-3:]]
    return one(st, ev.wrapint(st, ev.intop(st, op, c.args[0], c.args[1], c.destty), c.destty))


@m('core::intrinsics::add_with_overflow', 'core::intrinsics::sub_with_overflow', 'core::intrinsics::mul_with_overflow')
def owf(ev, st, c):
    nm = c.inst['path'].rsplit('::', 1)[-1][:3]
    op = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mul'}[nm]
    r = ev.intop(st, op + 'WithOverflow', c.args[0], c.args[1], c.argtys[0])
    return one(st, Agg(c.destty, 0, r.f))


@m('core::intrinsics::discriminant_value')
def discrv(ev, st, c):
    a = c.args[0]
    v = ev.deref(st, a)
    ty = ev.p.types[c.argtys[0]]['k'][1] if c.argtys else None
    return one(st, ev.discr(st, v, ty))


@m('core::intrinsics::ptr_offset_from_unsigned')
def pofu(ev, st, c):
    raise Unsupported('pointer arithmetic')


@m('core::ptr::eq', 'core::ptr::addr_eq')
def ptreq(ev, st, c):
    a, b = [ev.identity(st, x) for x in c.args]
    if a is None or b is None:
        raise Unsupported('pointer comparison')
    return one(st, a == b)
