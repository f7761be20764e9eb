"""Path-sensitive abstract interpreter over the dumped, monomorphic MIR."""
import json
import re
import sys
import time
from dom import *
import dom
from values import *

sys.setrecursionlimit(20000)
ANON = re.compile(r'^[dnsiwh]\d+$')
TMPL = re.compile(r'^[dnsiwh]@\d+$')
MAXLEN = (1 << 62)
WIDEN = 12
MODE = {'real': False}
DEADLINE = [None]         # monotonic time after which the analysis gives up
# bodies that work on raw memory: never interpreted
RAW = ('<core::slice::iter::', '<alloc::vec::into_iter::', '<core::array::iter::', '<alloc::vec::drain::', '<alloc::collections::',
       'alloc::collections::', '<alloc::vec::Vec<', 'alloc::vec::Vec::', 'alloc::raw_vec::', 'core::slice::raw::', 'core::slice::sort')


def intime():
    if DEADLINE[0] is not None and time.monotonic() > DEADLINE[0]:
        raise Unsupported('the time for this check is used up')


class Program:
    def __init__(self, path):
        m = json.load(open(path))
        self.types = m['types']
        self.insts = m['insts']
        self.roots = dict(m['roots'])
        self._live = {}
        self._heads = {}
        self._self = {}
        self._calls = {}
        self.cuts = {}
        self.ordty = None
        for t in self.types:
            k = t['k']
            if k in ('ref', 'ptr'):
                t['k'] = (k, t['to'], t['mut'])
            elif k in ('slice', 'array'):
                t['k'] = (k, t['to'], t.get('len'))
            elif k == 'tuple':
                t['k'] = (k, t['args'])
            elif k in ('int', 'uint', 'float'):
                t['k'] = (k, t['bits'])
            elif k == 'adt':
                t['k'] = (k, t['path'])
            elif k in ('closure', 'fndef'):
                t['k'] = (k, t['path'], t.get('inst', t.get('args')))
            else:
                t['k'] = (k,)
        for n, t in enumerate(self.types):
            if t['k'] == ('adt', 'core::cmp::Ordering'):
                self.ordty = n
        for n, i in enumerate(self.insts):
            i['n'] = n

    def kind(self, t):
        return self.types[t]['k'][0]

    def tyname(self, t):
        return self.types[t]['s']

    def adt(self, t):
        k = self.types[t]['k']
        return k if k[0] == 'adt' else None

    def adtinfo(self, t):
        if t is None:
            return None
        t = self.types[t]
        return t if t['k'][0] == 'adt' else None

    def short(self, n):
        i = self.insts[n]
        return i['path']

    # --- per-instance analyses ---
    def succ(self, t):
        k = t[0]
        if k == 'goto':
            return [t[1]]
        if k == 'switch':
            return [b for _, b in t[2]] + ([t[3]] if t[3] is not None else [])
        if k == 'drop':
            return [t[2]]
        if k == 'call':
            return [t[4]] if t[4] is not None else []
        if k == 'assert':
            return [t[4]]
        return []

    def selfcalls(self, n):
        """Can the body of n reach a call of n?"""
        r = self._self.get(n)
        if r is None:
            seen = set()
            work = [n]
            r = False
            while work and not r:
                x = work.pop()
                for y in self.calls(x):
                    if y == n:
                        r = True
                        break
                    if y not in seen:
                        seen.add(y)
                        work.append(y)
            self._self[n] = r
        return r

    def calls(self, n):
        r = self._calls.get(n)
        if r is None:
            r = []
            for b in self.insts[n].get('blocks') or ():
                t = b['t']
                if t[0] == 'call' and 'i' in t[1] and t[1]['i'] not in r:
                    r.append(t[1]['i'])
            self._calls[n] = r
        return r

    def cutpoints(self, roots, cand):
        """Recursive functions among cand, nearest to the roots first, that cut every recursion through cand."""
        order, seen = [], set(roots)
        work = list(roots)
        while work:
            nxt = []
            for x in work:
                for y in self.calls(x):
                    if y not in seen:
                        seen.add(y)
                        nxt.append(y)
            order += sorted(nxt)
            work = nxt
        order += [n for n in range(len(self.insts)) if n not in seen]       # only reached through function values
        r = []
        for n in order:
            if not cand(n) or not self.selfcalls(n):
                continue
            s, work, hit = set(r), [n], False
            while work and not hit:
                for y in self.calls(work.pop()):
                    if y == n:
                        hit = True
                    elif y not in s:
                        s.add(y)
                        work.append(y)
            if hit:
                r.append(n)
        return r

    def heads(self, n):
        """Blocks that are targets of back edges."""
        r = self._heads.get(n)
        if r is None:
            r = set()
            blocks = self.insts[n]['blocks']
            color = {}
            stack = [(0, iter(self.succ(blocks[0]['t'])))]
            color[0] = 1
            while stack:
                b, it = stack[-1]
                for s in it:
                    if color.get(s) == 1:
                        r.add(s)
                    elif s not in color:
                        color[s] = 1
                        stack.append((s, iter(self.succ(blocks[s]['t']))))
                        break
                else:
                    color[b] = 2
                    stack.pop()
            self._heads[n] = r
        return r

    def live(self, n):
        """(live-in sets per block, address-taken locals)."""
        r = self._live.get(n)
        if r is not None:
            return r
        inst = self.insts[n]
        blocks = inst['blocks']
        taken = set()

        def pl_use(p, s):
            s.add(p[0])
            for q in p[1]:
                if isinstance(q, list) and q[0] == 'i':
                    s.add(q[1])

        def op_use(o, s):
            if o[0] in 'cm' and isinstance(o[1], list) and o[0] != 'k':
                pl_use(o[1], s)

        def rv_use(r, s):
            k = r[0]
            if k in ('use', 'rep'):
                op_use(r[1], s)
            elif k == 'ref':
                pl_use(r[2], s)
                if not r[2][1] or r[2][1][0] != '*':
                    taken.add(r[2][0])
            elif k == 'cast':
                op_use(r[2], s)
            elif k == 'bin':
                op_use(r[2], s)
                op_use(r[3], s)
            elif k == 'un':
                op_use(r[2], s)
            elif k == 'discr':
                pl_use(r[1], s)
            elif k == 'agg':
                for o in r[-1]:
                    op_use(o, s)

        info = []
        for b in blocks:
            use, dfn = set(), set()

            def u(s):
                use.update(s - dfn)
            for st in b['s']:
                if st[0] == '=':
                    s = set()
                    rv_use(st[2], s)
                    if st[1][1]:
                        pl_use(st[1], s)
                    u(s)
                    if not st[1][1]:
                        dfn.add(st[1][0])
                elif st[0] == 'd':
                    s = set()
                    pl_use(st[1], s)
                    u(s)
                elif st[0] in ('x', 'l'):
                    dfn.add(st[1])
            t = b['t']
            s = set()
            if t[0] == 'switch':
                op_use(t[1], s)
            elif t[0] == 'ret':
                s.add(0)
            elif t[0] == 'drop':
                pl_use(t[1], s)
            elif t[0] == 'call':
                if 'ptr' in t[1]:
                    op_use(t[1]['ptr'], s)
                for o in t[2]:
                    op_use(o, s)
                if t[3][1]:
                    pl_use(t[3], s)
            elif t[0] == 'assert':
                op_use(t[1], s)
            u(s)
            info.append((use, dfn, t))
        livein = [set() for _ in blocks]
        ch = True
        while ch:
            ch = False
            for bi in range(len(blocks) - 1, -1, -1):
                use, dfn, t = info[bi]
                out = set()
                for s2 in self.succ(t):
                    out |= livein[s2]
                if t[0] == 'call' and not t[3][1]:
                    out.discard(t[3][0])
                new = use | (out - dfn)
                if new != livein[bi]:
                    livein[bi] = new
                    ch = True
        r = (livein, taken)
        self._live[n] = r
        return r


class Frame:
    __slots__ = ('n', 'bb', 'si', 'loc', 'ret', 'retbb', 'base', 'hist', 'jump')

    def __init__(self, n, loc, ret, retbb, base=False):
        self.n = n
        self.bb = 0
        self.si = 0
        self.loc = loc
        self.ret = ret
        self.retbb = retbb
        self.base = base
        self.hist = ()
        self.jump = None            # (re-entered just now, state at the last re-entry)

    def copy(self):
        f = Frame.__new__(Frame)
        f.n, f.bb, f.si, f.ret, f.retbb, f.base = self.n, self.bb, self.si, self.ret, self.retbb, self.base
        f.loc = dict(self.loc)
        f.hist = self.hist
        f.jump = self.jump
        return f


class Uninit(Unsupported):
    pass


class Ghost:
    """Ghost record of an opaque node."""
    __slots__ = ('b', 'depth', 'maxd', 'maxc', 'has', 'mat', 'tag')

    def __init__(self, b, depth, maxd, maxc, has=(), mat=None, tag=None):
        self.b = b          # (x1,y1,x2,y2) terms
        self.depth = depth
        self.maxd = maxd
        self.maxc = maxc
        self.has = has      # tuple of witnesses stored below
        self.mat = mat
        self.tag = tag

    def rep(self, **kw):
        g = Ghost(self.b, self.depth, self.maxd, self.maxc, self.has, self.mat, self.tag)
        for k, v in kw.items():
            setattr(g, k, v)
        return g


class State:
    __slots__ = ('frames', 'heap', 'ghost', 'facts', 'g', 'trace', 'imp')

    def __init__(self):
        self.frames = []
        self.heap = {}
        self.ghost = {}
        self.facts = Facts()
        self.g = {}
        self.trace = None
        self.imp = ()

    def copy(self):
        s = State.__new__(State)
        s.frames = [f.copy() for f in self.frames]
        s.heap = dict(self.heap)
        s.ghost = dict(self.ghost)
        s.facts = self.facts.copy()
        s.g = dict(self.g)
        s.trace = self.trace
        s.imp = self.imp
        return s

    def note(self, msg):
        self.trace = (self.trace, msg)

    def trail(self):
        r = []
        t = self.trace
        while t is not None:
            r.append(t[1])
            t = t[0]
        r.reverse()
        return r

    # ---- decisions ----
    def where(self):
        if not self.frames:
            return ''
        return ''

    def decide_le(self, a, b, why=''):
        """Truth of a <= b, forking if unknown."""
        if a.op == 'c' and a.args[0] != a.args[0] or b.op == 'c' and b.args[0] != b.args[0]:
            return False
        a, b = self.normcmp(a, b)
        f = self.facts
        if f.le(a, b):
            return True
        if f.lt(b, a):
            return False
        out = []
        c = self.copy()
        if c.facts.add_le(a, b):
            c.note('assume %r <= %r%s' % (a, b, why))
            out.append(c)
        c = self.copy()
        if c.facts.add_le(b, a, True):
            c.note('assume %r > %r%s' % (a, b, why))
            out.append(c)
        raise Fork(out)

    def decide_lt(self, a, b, why=''):
        if a.op == 'c' and a.args[0] != a.args[0] or b.op == 'c' and b.args[0] != b.args[0]:
            return False
        return not self.decide_le(b, a, why)

    def decide_eq(self, a, b, why=''):
        if a.op == 'c' and a.args[0] != a.args[0] or b.op == 'c' and b.args[0] != b.args[0]:
            return False
        a, b = self.normcmp(a, b)
        if self.facts.eq(a, b):
            return True
        if self.facts.distinct(a, b):
            return False
        out = []
        c = self.copy()
        if c.facts.add_le(a, b) and c.facts.add_le(b, a):
            c.note('assume %r == %r%s' % (a, b, why))
            out.append(c)
        c = self.copy()
        if self.facts.le(a, b):
            ok = c.facts.add_le(a, b, True)
        elif self.facts.le(b, a):
            ok = c.facts.add_le(b, a, True)
        else:
            c.facts.ne = c.facts.ne | {(a, b)}
            ok = True
        if ok:
            c.note('assume %r != %r%s' % (a, b, why))
            out.append(c)
        raise Fork(out)

    def normcmp(self, a, b):
        """Rewrite a comparison of differences to one of atoms (exact in IEEE arithmetic)."""
        if MODE['real']:
            import real
            return real.rcmp(self.facts, a, b)
        for _ in range(6):
            if b is ZERO and a.op == 'sub':
                a, b = a.args
            elif a is ZERO and b.op == 'sub':
                a, b = b.args[1], b.args[0]
                a, b = a, b
            elif a.op == 'neg' and b.op == 'neg':
                a, b = b.args[0], a.args[0]
            elif a.op == 'neg' and isc(b):
                a, b = const(-b.args[0]), a.args[0]
            elif b.op == 'neg' and isc(a):
                a, b = b.args[0], const(-a.args[0])
            elif a.op == 'mul' and b is ZERO and isc(a.args[0]) and a.args[0].args[0] > 0:
                a = a.args[1]
            elif a.op == 'mul' and b is ZERO and isc(a.args[1]) and a.args[1].args[0] > 0:
                a = a.args[0]
            else:
                break
        return self.lemma(a), self.lemma(b)

    def lemma(self, t):
        """Midpoint formulas have one normal form; their order facts are recorded."""
        m = midparts(t)
        if m is None:
            return t
        a, b = m
        c = midterm(a, b)
        f = self.facts
        if f.le(a, b):
            f.add_le(a, c)
            f.add_le(c, b)
        elif f.le(b, a):
            f.add_le(b, c)
            f.add_le(c, a)
        return c

    def nle(self, a, b):
        """Is a <= b known?"""
        a, b = self.normcmp(a, b)
        return self.facts.le(a, b)

    def nlt(self, a, b):
        a, b = self.normcmp(a, b)
        return self.facts.lt(a, b)

    def neq(self, a, b):
        a, b = self.normcmp(a, b)
        return self.facts.eq(a, b)

    def assume_le(self, a, b, strict=False):
        a, b = self.normcmp(a, b)
        return self.facts.add_le(a, b, strict)

    def assume_eq(self, a, b):
        a, b = self.normcmp(a, b)
        return self.facts.add_le(a, b) and self.facts.add_le(b, a)

    def idecide_le(self, a, b):
        """a <= b over ints."""
        if isinstance(a, int) and isinstance(b, int):
            return a <= b
        s, k = isplit(a)
        u, l = isplit(b)
        if s == u:
            return k <= l
        f = self.facts
        d = f.ibound(s, u)
        if d is not None and d + k - l <= 0:
            return True
        d = f.ibound(u, s)
        if d is not None and d + l - k < 0:
            return False
        if s != '0' and u != '0' and (s[0] == 'w' and ANON.match(s) or u[0] == 'w' and ANON.match(u)):
            # what a counter and the sequence it counts have in common is lost
            self.imp = self.imp + ('counter',)
        if s[0] == 'h' and ANON.match(s) or u[0] == 'h' and ANON.match(u):
            self.imp = self.imp + ('unknown field',)
        out = []
        c = self.copy()
        if c.facts.iassume(s, u, l - k):
            c.note('assume %r <= %r' % (a, b))
            out.append(c)
        c = self.copy()
        if c.facts.iassume(u, s, k - l - 1):
            c.note('assume %r > %r' % (a, b))
            out.append(c)
        raise Fork(out)

    def idecide_eq(self, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return a == b
        s, k = isplit(a)
        u, l = isplit(b)
        if s == u:
            return k == l
        return self.idecide_le(a, b) and self.idecide_le(b, a)


def half_of(t):
    """t == x * 0.5 -> x"""
    if t.op == 'mul':
        for i in (0, 1):
            if isc(t.args[i]) and t.args[i].args[0] == 0.5:
                return t.args[1 - i]
    return None


def midparts(t):
    """(a, b) if t is a midpoint formula of a and b, else None."""
    if t.op == 'add':
        for i in (0, 1):
            h = half_of(t.args[i])
            o = t.args[1 - i]
            if h is not None and h.op == 'sub' and h.args[1] is o:
                return (o, h.args[0])
            if h is not None:
                h2 = half_of(o)
                if h2 is not None:
                    return (h, h2)
    if t.op == 'sub':
        h = half_of(t.args[1])
        if h is not None and h.op == 'sub' and h.args[0] is t.args[0]:
            return (h.args[1], t.args[0])
    h = half_of(t)
    if h is not None and h.op == 'add':
        return h.args
    return None


class Outcome:
    __slots__ = ('kind', 'st', 'val', 'span')

    def __init__(self, kind, st, val, span=None):
        self.kind = kind
        self.st = st
        self.val = val
        self.span = span


class Call:
    __slots__ = ('n', 'inst', 'args', 'argtys', 'destty', 'span', 'gargs')


class Interp:
    def __init__(self, prog, models, hooks=None, budget=4000000):
        self.p = prog
        self.models = models
        self.hooks = hooks
        self.fresh_n = 0
        self.steps = 0
        self.budget = budget
        self.seen_fns = set()
        self.seen_calls = set()
        self.npaths = 0
        self.nheads = 0
        self.heap_n = 0
        self._mcache = {}
        self.rec_edges = {}         # self-recursive function -> state at a nested entry -> states at the next nested entry
        self.rec_span = {}
        self.widen = WIDEN
        self.counted = False        # an integer differs from one round of a loop to the next
        self.sums = {}              # {a, b}: name of a + b, with facts about it in the states
        self.pinned = ()
        self.disj = 0               # states per loop head and shape that differ in what is known about floats

    # ---- fresh names ----
    def fresh(self, k):
        self.fresh_n += 1
        return '%s%d' % (k, self.fresh_n)

    # ---- memory ----
    def load(self, st, obj, path):
        k = obj[0]
        if k == 'L':
            v = st.frames[obj[1]].loc.get(obj[2])
        elif k == 'H':
            v = st.heap[obj[1]]
        elif k == 'N':
            g = st.ghost[obj[1]]
            if g.mat is None:
                v = self.hooks.header(self, st, obj[1], path[0]) if path else None
                if v is not None:
                    for s in path[1:]:
                        v = self.sub(st, v, s)
                    return v
                self.hooks.materialize(self, st, obj[1])
                g = st.ghost[obj[1]]
            v = g.mat
        else:
            raise Unsupported('object %r' % (obj,))
        for i, s in enumerate(path):
            if isinstance(v, Wild):
                v = self.tame(st, obj, path[:i], v)
            v = self.sub(st, v, s)
        return self.tame(st, obj, path, v) if isinstance(v, Wild) else v

    def tame(self, st, obj, path, v):
        """Look into an unknown field: what is found there need not go with the rest of the state."""
        k = self.p.types[v.ty]['k']
        alts = None
        if k[0] in ('int', 'uint'):
            x = Lin(self.fresh('w' if v.count else 'h'), 0)
            bits = k[1] or 64
            st.facts.iassume('0', x.s, 0 if k[0] == 'uint' else 1 << bits - 1)
            st.facts.iassume(x.s, '0', (1 << bits - (k[0] == 'int')) - 1)
        elif k[0] == 'float':
            x = var(self.fresh('d'), 'x')
            st.imp = st.imp + ('unknown field',)
        elif k[0] == 'bool':
            alts = (False, True)
        elif k[0] == 'tuple':
            x = Agg(v.ty, 0, tuple(Wild(t) for t in k[1]))
        elif k[0] == 'adt':
            alts = [Agg(v.ty, i, tuple(Wild(f[1]) for f in w['fields'])) for i, w in enumerate(self.p.adtinfo(v.ty)['variants'])]
            if len(alts) == 1:
                x, alts = alts[0], None
        else:
            raise Unsupported('unknown field of type %s' % self.p.tyname(v.ty))
        if alts is None:
            self.store(st, obj, path, x)
            return x
        out = []
        for x in alts:
            s = st.copy()
            self.store(s, obj, path, x)
            s.imp = s.imp + ('unknown field',)
            out.append(s)
        raise Fork(out)

    def peekat(self, st, obj, path):
        """Like load, but None below uninitialised memory."""
        for j in range(len(path), 0, -1):
            try:
                v = self.load(st, obj, path[:j])
            except Uninit:
                continue
            return v if j == len(path) else None
        return self.load(st, obj, path)

    def sub(self, st, v, s):
        if isinstance(v, Agg):
            try:
                return v.f[s]
            except (IndexError, TypeError):
                raise Unsupported('field %r of %r' % (s, v))
        if isinstance(v, Box):
            if s == 'b':
                return v.c
            return VRef(v.c)
        if isinstance(v, Seq):
            if s == 'b':
                return v
            it = v.items[self.atcur(v, s)]
            if it[0] != 'e':
                raise Unsupported('index into summarised sequence')
            return it[1]
        if isinstance(v, ONode):
            return self.load(st, ('N', v.nid), (s,))
        if isinstance(v, (Ptr, VRef)) and s == 0:
            return v            # NonNull / Unique wrappers
        if v is None:
            raise Uninit('read of an uninitialised or moved value')
        raise Unsupported('field %r of %r' % (s, v))

    def atcur(self, v, s):
        """Item index of a path step into a sequence ('<c0': just before cursor c0)."""
        if not isinstance(s, str):
            return s
        for k, x in enumerate(v.items):
            if x[0] == 'cur' and x[1] == s[1:]:
                return k - 1
        raise Unsupported('stale iterator reference')

    def store(self, st, obj, path, val):
        k = obj[0]
        if k == 'L':
            loc = st.frames[obj[1]].loc
            loc[obj[2]] = val if not path else self.upd(st, loc.get(obj[2]), path, 0, val)
        elif k == 'H':
            st.heap[obj[1]] = val if not path else self.upd(st, st.heap[obj[1]], path, 0, val)
        elif k == 'N':
            g = st.ghost[obj[1]]
            if g.mat is None:
                self.hooks.materialize(self, st, obj[1])
                g = st.ghost[obj[1]]
            st.ghost[obj[1]] = g.rep(mat=val if not path else self.upd(st, g.mat, path, 0, val))
        else:
            raise Unsupported('store to %r' % (obj,))

    def upd(self, st, v, path, i, val):
        if i == len(path):
            return val
        s = path[i]
        if isinstance(v, Agg):
            if s >= len(v.f):
                f = list(v.f) + [None] * (s + 1 - len(v.f))
            else:
                f = list(v.f)
            f[s] = self.upd(st, f[s], path, i + 1, val)
            return Agg(v.ty, v.var, tuple(f))
        if isinstance(v, Box):
            return Box(self.upd(st, v.c, path, i + 1, val))
        if isinstance(v, Seq):
            it = list(v.items)
            s = self.atcur(v, s)
            if it[s][0] != 'e':
                raise Unsupported('write into summarised sequence')
            it[s] = ('e', self.upd(st, it[s][1], path, i + 1, val))
            return Seq(tuple(it), v.len)
        if isinstance(v, ONode):
            self.store(st, ('N', v.nid), path[i:], val)
            return v
        if v is None:
            f = [None] * (s + 1)
            f[s] = self.upd(st, None, path, i + 1, val)
            return Agg(None, 0, tuple(f))
        raise Unsupported('write to field %r of %r' % (s, v))

    # ---- places ----
    def place(self, st, pl):
        """('p', obj, path) or ('v', value)."""
        d = len(st.frames) - 1
        obj, path = ('L', d, pl[0]), ()
        v = None
        inval = False
        for pr in pl[1]:
            if pr == '*':
                x = v if inval else self.load(st, obj, path)
                if isinstance(x, Ptr):
                    obj, path, inval = x.obj, x.path, False
                elif isinstance(x, VRef):
                    v, inval = x.v, True
                elif isinstance(x, Box):
                    if inval:
                        v = x.c
                    else:
                        path = path + ('b',)
                elif isinstance(x, (Str, Opq)):
                    v, inval = x, True
                else:
                    raise Unsupported('dereference of %r' % (x,))
                continue
            k = pr[0]
            if k == 'v':
                continue
            if k == 'f':
                x = v if inval else self.peekat(st, obj, path)
                if isinstance(x, ONode):
                    obj, path, inval = ('N', x.nid), (pr[1],), False
                elif isinstance(x, Box):
                    v = VRef(x.c) if inval else Ptr(obj, path + ('b',))
                    inval = True
                elif isinstance(x, (Ptr, VRef)):
                    v, inval = x, True
                elif isinstance(x, (OGeom, OIter, OErr, Datum, Seq, Iter)):
                    raise Unsupported('field access into opaque %r' % (x,))
                elif inval:
                    v = self.sub(st, x, pr[1])
                else:
                    path = path + (pr[1],)
                continue
            if k == 'i':
                idx = st.frames[d].loc.get(pr[1])
            elif k == 'c':
                x = v if inval else self.load(st, obj, path)
                idx = pr[1]
                if pr[3]:
                    n = len(x.f) if isinstance(x, Agg) else x.len
                    if not isinstance(n, int):
                        raise Unsupported('slice pattern on unknown length')
                    idx = n - pr[1]
            else:
                raise Unsupported('projection %r' % (pr,))
            x = v if inval else self.load(st, obj, path)
            idx = self.seqindex(st, x, idx)
            if inval:
                v = self.sub(st, x, idx)
            else:
                path = path + (idx,)
        return ('v', v) if inval else ('p', obj, path)

    def seqindex(self, st, x, idx):
        if isinstance(idx, Lin):
            s, k = isplit(idx)
            lo = st.facts.ibound('0', s)
            hi = st.facts.ibound(s, '0')
            if lo is not None and hi is not None and -lo == hi:
                idx = hi + k
            else:
                raise Unsupported('symbolic index %r' % (idx,))
        if isinstance(x, Seq):
            for j in range(min(idx + 1, len(x.items))):
                if x.items[j][0] != 'e':
                    raise Unsupported('index into summarised sequence')
        return idx

    def read(self, st, pl):
        if not pl[1]:
            return st.frames[-1].loc.get(pl[0])
        r = self.place(st, pl)
        return r[1] if r[0] == 'v' else self.load(st, r[1], r[2])

    def write(self, st, pl, val):
        if not pl[1]:
            st.frames[-1].loc[pl[0]] = val
            return
        r = self.place(st, pl)
        if r[0] == 'v':
            raise Unsupported('write through a shared snapshot')
        self.store(st, r[1], r[2], val)

    # ---- operands ----
    def operand(self, st, o):
        k = o[0]
        if k == 'c':
            return self.read(st, o[1])
        if k == 'm':
            return self.read(st, o[1])
        if k == 'k':
            return self.constant(o[1][0], o[1][1])
        if k == 'rt':
            return False
        raise Unsupported('operand %r' % (o,))

    def moved(self, st, o):
        """Invalidate moved-from locals (after the statement committed)."""
        if o[0] == 'm':
            pl = o[1]
            if not pl[1]:
                st.frames[-1].loc.pop(pl[0], None)
            else:
                # partial move: only worth clearing for owned data
                r = self.place(st, pl)
                if r[0] == 'p':
                    try:
                        self.store(st, r[1], r[2], None)
                    except Unsupported:
                        pass

    def constant(self, ty, c):
        k = self.p.types[ty]['k']
        t = k[0]
        if isinstance(c, bool):
            return c
        if isinstance(c, int):
            if t == 'bool':
                return bool(c)
            if t == 'float':
                raise Unsupported('float const %r' % c)
            return c
        if isinstance(c, float):
            return int(c)
        if isinstance(c, str):
            return Opq(('const', c))
        h = c[0]
        if h == 'f':
            return const(float(c[1])) if c[1].lower() not in ('nan', '-nan') else F('c', (float('nan'),))
        if h == 'zst':
            return self.zst(ty)
        if h == 'agg':
            return self.constagg(ty, c)
        if h == 'refstr':
            return Str(c[1])
        if h == 'refslice':
            ety = self.elemty(self.p.types[ty]['k'][1])
            items = tuple(('e', self.constant(ety, x)) for x in c[1])
            return VRef(Seq(items, len(items)))
        if h == 'ref':
            return VRef(self.constant(c[1], c[2]))
        if h == 'fn':
            return Opq(('fn', str(c[1])))
        if h == 'addr':
            return Opq(('addr', str(c[1])))
        if h == 'static':
            return Opq(('static', str(c[1:])))
        if isinstance(h, str) and h.startswith('?'):
            return Opq(('const', h))
        raise Unsupported('constant %r' % (c,))

    def elemty(self, t):
        k = self.p.types[t]['k']
        if k[0] in ('slice', 'array'):
            return k[1]
        return t

    def constagg(self, ty, c):
        k = self.p.types[ty]['k']
        var, vals = c[1], c[2]
        if k[0] == 'tuple':
            tys = k[1]
        elif k[0] == 'array':
            tys = [k[1]] * len(vals)
        elif k[0] == 'adt':
            if k[1] == 'alloc::vec::Vec':
                return Seq((), 0)
            tys = [f[1] for f in self.p.adtinfo(ty)['variants'][var]['fields']]
        else:
            tys = [None] * len(vals)
        return Agg(ty, var, tuple(self.constant(t, x) for t, x in zip(tys, vals)))

    def zst(self, ty):
        k = self.p.types[ty]['k']
        if k[0] == 'tuple' or k[0] in ('closure', 'fndef'):
            return Agg(ty, 0, ())
        if k[0] == 'adt':
            return Agg(ty, 0, tuple(self.zst(f[1]) for f in self.p.adtinfo(ty)['variants'][0]['fields']) if self.p.adtinfo(ty)['variants'] else ())
        if k[0] == 'array':
            return Agg(ty, 0, ())
        return Agg(ty, 0, ())

    # ---- running ----
    def run(self, st):
        """Explore all paths of st until its base frame returns."""
        base = len(st.frames)
        memo = {}
        out = []
        work = [st]
        while work:
            s = work.pop()
            while True:
                pk = s.g.get('$panic')
                if pk is not None:
                    del s.frames[base - 1:]
                    out.append(Outcome('panic', s, pk[0], pk[1]))
                    break
                self.steps += 1
                if self.steps > self.budget:
                    raise Unsupported('step budget exhausted')
                if self.steps & 127 == 0:
                    intime()
                try:
                    r = self.step(s, base, memo)
                except Fork as f:
                    self.npaths += max(0, len(f.states) - 1)
                    work.extend(f.states)
                    break
                except Dead:
                    break
                if r is None:
                    continue
                if isinstance(r, Outcome):
                    out.append(r)
                    break
                work.extend(r)
                break
        return out

    def enter(self, st, n, args, ret, retbb, base=False):
        inst = self.p.insts[n]
        if not inst.get('blocks'):
            raise Unsupported('no body for %s' % inst['path'])
        self.seen_fns.add(n)
        if len(st.frames) > 60:
            raise Unsupported('call depth at %s' % inst['path'])
        loc = {}
        for i, a in enumerate(args):
            loc[i + 1] = a
        st.frames.append(Frame(n, loc, ret, retbb, base))

    def call_nested(self, st, n, args):
        """Run instance n on a copy of st; list of outcomes whose states have the same frames as st."""
        s = st.copy()
        inst = self.p.insts[n]
        m = self.model_for(n)
        if m is not None:
            c = Call()
            c.n, c.inst, c.args, c.argtys, c.destty, c.span, c.gargs = n, inst, args, None, None, None, inst.get('args')
            res = []
            r = m(self, s, c)
            if r is not NotImplemented:
                for x in r:
                    if x[0] == 'panic':
                        res.append(Outcome('panic', x[1], x[2]))
                    elif x[0].g.get('$panic') is not None:
                        res.append(Outcome('panic', x[0], x[0].g['$panic'][0], x[0].g['$panic'][1]))
                    else:
                        res.append(Outcome('ret', x[0], x[1]))
                return res
        self.enter(s, n, args, None, None, True)
        return self.run(s)

    def call_value(self, st, f, fty, args):
        """Call a closure / fn item value (by reference or by value) with a list of args."""
        v = f
        byref = False
        n0 = 0
        while isinstance(v, (Ptr, VRef)):
            v = v.v if isinstance(v, VRef) else self.load(st, v.obj, v.path)
            byref = True
            n0 += 1
        if not isinstance(v, Agg):
            raise Unsupported('call of %r' % (v,))
        k = self.p.types[v.ty]['k']
        if k[0] == 'closure':
            n = self.closure_inst(v.ty)
            selfk = self.p.types[self.selfty(n)]['k'][0]
            if selfk == 'ref':
                a0 = f if byref else VRef(v)
            else:
                a0 = v
            return self.call_nested(st, n, [a0] + list(args))
        if k[0] == 'fndef':
            n = k[2] if len(k) > 2 else None
            if n is None:
                raise Unsupported('fndef %r' % (k,))
            return self.call_nested(st, n, list(args))
        raise Unsupported('call of %r' % (k,))

    def selfty(self, n):
        l = self.p.insts[n]['locals'][1]
        return l if isinstance(l, int) else l[0]

    def nheap(self):
        self.heap_n += 1
        return self.heap_n

    def closure_inst(self, ty):
        r = self._mcache.get(('cl', ty))
        if r is None:
            r = self.p.types[ty].get('body')
            if r is not None and not self.p.insts[r].get('blocks'):
                r = None
        if r is None:
            for i in self.p.insts:
                if i.get('blocks') and '{closure#' in i['path'].rsplit('::', 1)[-1] and i['argc'] >= 1:
                    t = self.selfty(i['n'])
                    k = self.p.types[t]['k']
                    if t == ty or (k[0] in ('ref', 'ptr') and k[1] == ty):
                        r = i['n']
                        break
            if r is None:
                raise Unsupported('closure body not found for %s' % self.p.tyname(ty))
            self._mcache[('cl', ty)] = r
        return r

    def model_for(self, n):
        r = self._mcache.get(n, 0)
        if r == 0:
            inst = self.p.insts[n]
            r = self.models.get(inst['path'])
            if r is None and self.hooks is not None:
                r = self.hooks.model(self, inst)
            if r is None:
                r = self.models.lookup(inst)
            self._mcache[n] = r
        return r

    # ---- one step: a basic block ----
    def step(self, st, base, memo):
        fr = st.frames[-1]
        inst = self.p.insts[fr.n]
        blk = inst['blocks'][fr.bb]
        if fr.si == 0 and fr.bb in self.p.heads(fr.n):
            st2 = self.loop_head(st, memo, base)
            if st2 is None:
                raise Dead()
            st = st2
            fr = st.frames[-1]
            # continue with the canonical state
            r = self.block(st, fr, inst, blk, base, memo)
            if r is None:
                return [st]
            return r
        return self.block(st, fr, inst, blk, base, memo)

    def block(self, st, fr, inst, blk, base, memo):
        stm = blk['s']
        while fr.si < len(stm):
            self.stmt(st, fr, inst, stm[fr.si])
            fr.si += 1
        return self.term(st, fr, inst, blk['t'], base, memo)

    def touch(self, st, pl):
        """Expand the node a place lives in before anything is changed."""
        r = self.place(st, pl)
        if r[0] == 'p' and r[1][0] == 'N' and st.ghost[r[1][1]].mat is None:
            self.hooks.materialize(self, st, r[1][1])

    def goto(self, fr, bb):
        fr.bb = bb
        fr.si = 0

    def stmt(self, st, fr, inst, s):
        k = s[0]
        if k == '=':
            if s[1][1]:
                self.touch(st, s[1])
            v, mv = self.rvalue(st, s[2])
            if isinstance(v, Box) and s[2][0] == 'use' and s[2][1][0] == 'c' and not s[1][1] and s[1][0] in self.boxderefs(inst):
                # the compiler's own `*box`: the temporary stands for the address of the contents
                pl = s[2][1][1]
                r = self.place(st, pl) if pl[1] else ('p', ('L', len(st.frames) - 1, pl[0]), ())
                v = Ptr(r[1], r[2] + ('b',)) if r[0] == 'p' else VRef(v.c)
            for o in mv:
                self.moved(st, o)
            self.write(st, s[1], v)
        elif k == 'x':
            fr.loc.pop(s[1], None)
        elif k == 'l':
            fr.loc.pop(s[1], None)
        elif k == 'd':
            x = self.read(st, s[1])
            if isinstance(x, Agg):
                self.write(st, s[1], Agg(x.ty, s[2], x.f))
            else:
                raise Unsupported('set discriminant')
        elif k == 'cno':
            raise Unsupported('copy_nonoverlapping')

    def boxderefs(self, inst):
        """Locals whose raw pointer field the function dereferences."""
        r = self._mcache.get(('bd', inst['n']))
        if r is None:
            r = set()
            for b in inst['blocks']:
                for s in b['s']:
                    if s[0] == '=' and s[2][0] == 'cast' and s[2][1] == 'BoxDerefTransmute' and s[2][2][0] in 'cm':
                        r.add(s[2][2][1][0])
            self._mcache[('bd', inst['n'])] = r
        return r

    def rvalue(self, st, r):
        k = r[0]
        if k == 'use':
            return self.operand(st, r[1]), (r[1],)
        if k == 'ref':
            return self.mkref(st, r[1], r[2]), ()
        if k == 'cast':
            v = self.operand(st, r[2])
            return self.cast(st, r, v), (r[2],)
        if k == 'bin':
            a = self.operand(st, r[2])
            b = self.operand(st, r[3])
            return self.binop(st, r[1], a, b, r[4]), (r[2], r[3])
        if k == 'un':
            v = self.operand(st, r[2])
            return self.unop(st, r[1], v, r), (r[2],)
        if k == 'discr':
            return self.discr(st, self.read(st, r[1]), r[2]), ()
        if k == 'agg':
            ops = r[-1]
            vals = tuple([self.operand(st, o) for o in ops])
            kind, ty, var = r[1], r[2], r[3]
            if kind == 'adt':
                kk = self.p.types[ty]['k']
                if kk[1] == 'alloc::vec::Vec':
                    raise Unsupported('raw Vec construction')
            if kind == 'rawptr':
                return vals[0], tuple(ops)
            return Agg(ty, var, vals), tuple(ops)
        if k == 'rep':
            n = r[2]
            if not isinstance(n, int):
                raise Unsupported('repeat count')
            v = self.operand(st, r[1])
            return Agg(None, 0, (v,) * n), (r[1],)
        raise Unsupported('rvalue %s' % k)

    def mkref(self, st, mut, pl):
        r = self.place(st, pl)
        if r[0] == 'v':
            return VRef(r[1]) if not isinstance(r[1], (Str,)) else r[1]
        if not mut:
            # identity objects are referenced by identity
            try:
                v = self.load(st, r[1], r[2])
            except Unsupported:
                v = None
            if isinstance(v, (ONode, Datum, OGeom)):
                return VRef(v)
        return Ptr(r[1], r[2])

    def cast(self, st, r, v):
        kind = r[1]
        if kind == 'i2i':
            fk = self.p.types[r[3]]['k']
            tk = self.p.types[r[4]]['k']
            if isinstance(v, bool):
                v = int(v)
            bits = tk[1] if len(tk) > 1 and isinstance(tk[1], int) else 64
            if isinstance(v, int):
                v &= (1 << bits) - 1
                if tk[0] == 'int' and v >> (bits - 1):
                    v -= 1 << bits
                return v
            if isinstance(v, Lin):
                fb = fk[1] if len(fk) > 1 and isinstance(fk[1], int) else 64
                if fb <= bits and fk[0] == tk[0] or (fk[0] == 'uint' and fb < bits):
                    return v
                u = st.facts.ibound(v.s, '0')
                l = st.facts.ibound('0', v.s)
                mx = (1 << (bits if tk[0] == 'uint' else bits - 1)) - 1
                if u is not None and l is not None and u + v.k <= mx and -l + v.k >= 0:
                    return v
                if tk[0] != 'uint' or fk[0] != 'uint' or l is None or -l + v.k < 0:
                    raise Unsupported('narrowing cast of unknown integer')
                if -l + v.k > mx and u is not None and u + v.k <= 2 * mx + 1:
                    return Lin(v.s, v.k - mx - 1)
                if -l + v.k > 2 * mx + 1:
                    w = self.fresh('i')
                    st.facts.iassume('0', w, 0)
                    st.facts.iassume(w, '0', mx)
                    st.imp = st.imp + ('wrapped %r' % (v,),)
                    return Lin(w, 0)
                out = []
                for lo, hi in ((0, mx), (mx + 1, 2 * mx + 1), (2 * mx + 2, None)):
                    s = st.copy()
                    if u is not None and u + v.k < lo or -l + v.k > (hi or lo):
                        continue
                    s.facts.iassume('0', v.s, v.k - lo)
                    if hi is not None:
                        s.facts.iassume(v.s, '0', hi - v.k)
                    s.note('assume %r %s' % (v, '<= %d' % hi if lo == 0 else '> %d' % (lo - 1)))
                    out.append(s)
                raise Fork(out)
            raise Unsupported('i2i of %r' % (v,))
        if kind == 'i2f':
            if isinstance(v, bool):
                v = int(v)
            if isinstance(v, int):
                return const(v)
            raise Unsupported('int to float of unknown')
        if kind in ('f2f',):
            return v
        if kind == 'f2i':
            if isinstance(v, F) and isc(v) and abs(v.args[0]) < 2 ** 62:
                return int(v.args[0])
            raise Unsupported('float to int')
        if kind in ('ptr', 'transmute', 'unsize', 'BoxDerefTransmute', 'Subtype', 'reify', 'closurefn', 'unsafefn',
                    'mut2const', 'arr2ptr'):
            if kind == 'transmute':
                a, b = self.p.types[r[3]]['k'], self.p.types[r[4]]['k']
                if b[0] == 'adt' and b[1] == 'core::option::Option' and a[0] in ('uint', 'int'):
                    # Option<NonZero>
                    if self.binop(st, 'Eq', v, 0, r[3]):
                        return Agg(r[4], 0, ())
                    return Agg(r[4], 1, (v,))
                if a[0] == 'adt' and a[1] == 'core::option::Option' and b[0] in ('uint', 'int') and isinstance(v, Agg):
                    return v.f[0] if v.var == 1 else 0
                if a[0] == 'float' or b[0] == 'float':
                    if a[0] != b[0]:
                        raise Unsupported('bit cast of float')
                if b[0] in ('uint', 'int') and isinstance(v, (Ptr, VRef)):
                    return Opq(('ptrbits',))
                if isinstance(v, Agg) and a[0] == 'adt' and b[0] == 'adt' and a[1] != b[1] and not self.same_layout(a, b):
                    raise Unsupported('transmute %s -> %s' % (self.p.tyname(r[3]), self.p.tyname(r[4])))
            if kind in ('reify', 'closurefn') and isinstance(v, Agg):
                return v
            return v
        raise Unsupported('cast %s' % kind)

    def same_layout(self, a, b):
        return 'MaybeUninit' in a[1] or 'MaybeUninit' in b[1] or 'Box' in a[1]

    def isfloat(self, ty):
        return ty is not None and self.p.types[ty]['k'][0] == 'float'

    def binop(self, st, op, a, b, ty):
        if isinstance(a, F) or isinstance(b, F):
            if not (isinstance(a, F) and isinstance(b, F)):
                raise Unsupported('float op %r %r' % (a, b))
            if op == 'Add':
                return add(a, b)
            if op == 'Sub':
                return sub(a, b)
            if op == 'Mul':
                return mul(a, b)
            if op == 'Div':
                return div(a, b)
            if op == 'Rem':
                return rem(a, b)
            if op == 'Lt':
                return st.decide_lt(a, b)
            if op == 'Le':
                return st.decide_le(a, b)
            if op == 'Gt':
                return st.decide_lt(b, a)
            if op == 'Ge':
                return st.decide_le(b, a)
            if op == 'Eq':
                return st.decide_eq(a, b)
            if op == 'Ne':
                return not st.decide_eq(a, b)
            raise Unsupported('float op ' + op)
        if isinstance(a, bool) and isinstance(b, bool):
            if op in ('BitAnd',):
                return a and b
            if op == 'BitOr':
                return a or b
            if op == 'BitXor' or op == 'Ne':
                return a != b
            if op == 'Eq':
                return a == b
            if op == 'Lt':
                return a < b
            if op == 'Le':
                return a <= b
            if op == 'Gt':
                return a > b
            if op == 'Ge':
                return a >= b
        if isinstance(a, (int, Lin)) and isinstance(b, (int, Lin)):
            return self.intop(st, op, a, b, ty)
        if isinstance(a, (Ptr, VRef)) and op in ('Eq', 'Ne'):
            ka, kb = self.identity(st, a), self.identity(st, b)
            if ka is not None and kb is not None:
                return (ka == kb) == (op == 'Eq')
        raise Unsupported('binop %s on %r, %r' % (op, a, b))

    def identity(self, st, a):
        """Identity of what a reference points at, when tracked."""
        if isinstance(a, VRef):
            if isinstance(a.v, (Datum, ONode)):
                return key(a.v)
            return None
        if isinstance(a, Ptr):
            return key(a)
        return None

    def tybits(self, ty):
        k = self.p.types[ty]['k'] if ty is not None else ('uint', 64)
        return (k[0] == 'int'), (k[1] if len(k) > 1 and isinstance(k[1], int) else 64)

    def intop(self, st, op, a, b, ty):
        signed, bits = self.tybits(ty)
        lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
        base = op
        for suf in ('WithOverflow', 'Unchecked'):
            if base.endswith(suf):
                base = base[:-len(suf)]
        if base in ('Add', 'Sub', 'Mul'):
            v = self.arith(st, base, a, b)
            if op.endswith('WithOverflow'):
                ov = self.outside(st, v, lo, hi)
                if ov and isinstance(v, int):
                    v &= (1 << bits) - 1
                return Agg(None, 0, (v, ov))
            if isinstance(v, int) and not lo <= v <= hi:
                if op.endswith('Unchecked'):
                    raise Unsupported('unchecked overflow')
                v &= (1 << bits) - 1
                if signed and v >> (bits - 1):
                    v -= 1 << bits
            if op == base and isinstance(v, Lin) and (self.p.insts[st.frames[-1].n].get('name') or '').startswith('wrapping_'):
                return self.wrapint(st, v, ty)
            return v
        if base == 'Lt':
            return not st.idecide_le(b, a)
        if base == 'Le':
            return st.idecide_le(a, b)
        if base == 'Gt':
            return not st.idecide_le(a, b)
        if base == 'Ge':
            return st.idecide_le(b, a)
        if base == 'Eq':
            return st.idecide_eq(a, b)
        if base == 'Ne':
            return not st.idecide_eq(a, b)
        if isinstance(a, int) and isinstance(b, int):
            if base == 'Div':
                return int(a / b) if (a < 0) != (b < 0) else a // b
            if base == 'Rem':
                return a - b * (int(a / b) if (a < 0) != (b < 0) else a // b)
            if base == 'BitAnd':
                return a & b
            if base == 'BitOr':
                return a | b
            if base == 'BitXor':
                return a ^ b
            if base == 'Shl':
                return (a << (b % bits)) & ((1 << bits) - 1)
            if base == 'Shr':
                return a >> (b % bits)
            if base == 'Cmp':
                return self.ordering(-1 if a < b else 1 if a > b else 0)
        if base == 'Cmp':
            if st.idecide_le(a, b):
                return self.ordering(0 if st.idecide_le(b, a) else -1)
            return self.ordering(1)
        raise Unsupported('int op %s on %r, %r' % (op, a, b))

    def wrapint(self, st, v, ty):
        """A sum or difference reduced to its type."""
        if not isinstance(v, Lin):
            return v
        signed, bits = self.tybits(ty)
        lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
        if self.outside(st, v, lo, hi):
            a = st.facts.ibound('0', v.s)
            v = Lin(v.s, v.k - (1 << bits) if a is not None and -a + v.k > hi else v.k + (1 << bits))
            a, b = st.facts.ibound('0', v.s), st.facts.ibound(v.s, '0')
            if a is None or b is None or -a + v.k < lo or b + v.k > hi:
                raise Unsupported('wrapping arithmetic on %r' % (v,))
        return v

    def ordering(self, d):
        """core::cmp::Ordering value (variants Less, Equal, Greater)."""
        return Agg(self.p.ordty, d + 1, ())

    def arith(self, st, op, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return a + b if op == 'Add' else a - b if op == 'Sub' else a * b
        s, k = isplit(a)
        u, l = isplit(b)
        if op == 'Add':
            if s == '0':
                return Lin(u, k + l)
            if u == '0':
                return Lin(s, k + l)
            t = self.sums.get(frozenset((s, u)))
            if t is not None:
                return Lin(t, k + l)
        if op == 'Sub':
            if u == '0':
                return Lin(s, k - l)
            if s == u:
                return k - l
        if op == 'Mul':
            if s == '0' and k in (0, 1):
                return b if k else 0
            if u == '0' and l in (0, 1):
                return a if l else 0
        # opaque integer
        n = self.fresh('i')
        st.imp = st.imp + ('integer arithmetic %r %s %r' % (a, op, b),)
        if op in ('Add', 'Mul'):
            st.facts.iassume('0', n, 0)
        st.facts.iassume(n, '0', MAXLEN)
        return Lin(n, 0)

    def outside(self, st, v, lo, hi):
        if isinstance(v, int):
            return not lo <= v <= hi
        if v.s[0] in 'wh' and ANON.match(v.s) and hi > 1 << 16:
            # a counter that goes up or down by steps does not get that far
            st.facts.iassume(v.s, '0', hi - v.k)
            if lo < 0:
                st.facts.iassume('0', v.s, v.k - lo)
        if not st.idecide_le(v, hi):
            return True
        return not st.idecide_le(lo, v)

    def unop(self, st, op, v, r):
        if op == 'Not':
            if isinstance(v, bool):
                return not v
            if isinstance(v, int):
                return ~v & ((1 << 64) - 1)
        if op == 'Neg':
            if isinstance(v, F):
                return neg(v)
            if isinstance(v, int):
                return -v
        if op == 'PtrMetadata':
            x = self.deref(st, v)
            if isinstance(x, Seq):
                return x.len
            if isinstance(x, Agg):
                return len(x.f)
            if isinstance(x, Str):
                return len(x.s.encode())
        raise Unsupported('unop %s on %r' % (op, v))

    def deref(self, st, v):
        if isinstance(v, VRef):
            return v.v
        if isinstance(v, Ptr):
            return self.load(st, v.obj, v.path)
        if isinstance(v, Box):
            return v.c
        if isinstance(v, (Str, Opq)):
            return v
        raise Unsupported('deref of %r' % (v,))

    def uninhabited(self, ty):
        k = self.p.types[ty]['k']
        if k[0] == 'never':
            return True
        return k[0] == 'adt' and self.p.adtinfo(ty) is not None \
            and not self.p.adtinfo(ty)['variants']

    def discr(self, st, v, ty):
        if isinstance(v, Agg):
            info = self.p.adtinfo(v.ty if v.ty is not None else ty)
            if info is None:
                return v.var
            d = info['variants'][v.var]['discr']
            return v.var if d is None else d
        if v is None:
            # a zero-sized enum is never written: only one variant is inhabited
            info = self.p.adtinfo(ty)
            vs = [i for i, x in enumerate(info['variants']) if not any(self.uninhabited(f[1]) for f in x['fields'])]
            if len(vs) == 1:
                d = info['variants'][vs[0]]['discr']
                return vs[0] if d is None else d
        if self.hooks is not None:
            r = self.hooks.discr(self, st, v, ty)
            if r is not None:
                return r
        raise Unsupported('discriminant of %r' % (v,))

    # ---- terminators ----
    def term(self, st, fr, inst, t, base, memo):
        k = t[0]
        if k == 'goto':
            self.goto(fr, t[1])
            return None
        if k == 'switch':
            v = self.operand(st, t[1])
            if isinstance(v, bool):
                v = int(v)
            if isinstance(v, int):
                for x, b in t[2]:
                    if x == v:
                        self.goto(fr, b)
                        return None
                if t[3] is None:
                    raise Dead()
                self.goto(fr, t[3])
                return None
            if isinstance(v, Lin):
                for x, b in t[2]:
                    if st.idecide_eq(v, x):
                        self.goto(fr, b)
                        return None
                self.goto(fr, t[3])
                return None
            raise Unsupported('switch on %r in %s' % (v, inst['path']))
        if k == 'drop':
            self.goto(fr, t[2])
            return None
        if k == 'assert':
            v = self.operand(st, t[1])
            if not isinstance(v, bool):
                raise Unsupported('assert on %r' % (v,))
            if v != t[2]:
                return Outcome('panic', st, 'assertion failed: %s in %s' % (t[3], inst['path']), t[-1])
            self.goto(fr, t[4])
            return None
        if k == 'ret':
            v = fr.loc.get(0)
            if v is None:
                v = self.unit(inst)
            if fr.base or len(st.frames) == base:
                st.frames.pop()
                return Outcome('ret', st, v)
            ret, retbb = fr.ret, fr.retbb
            st.frames.pop()
            if retbb is None:
                raise Dead()
            self.store(st, ret[0], ret[1], v)
            self.goto(st.frames[-1], retbb)
            return None
        if k == 'unreachable':
            raise Dead()
        if k == 'resume':
            raise Dead()
        if k == 'call':
            return self.call(st, fr, inst, t, base, memo)
        raise Unsupported('terminator %s' % k)

    def unit(self, inst):
        t = inst['locals'][0]
        t = t if isinstance(t, int) else t[0]
        k = self.p.types[t]['k']
        if k[0] in ('tuple', 'closure', 'fndef', 'never', 'adt'):
            return self.zst(t)
        return None

    def call(self, st, fr, inst, t, base, memo):
        callee = t[1]
        args = [self.operand(st, o) for o in t[2]]
        dest, target = t[3], t[4]
        if dest[1]:
            self.touch(st, dest)
        if 'ptr' in callee or 'unresolved' in callee:
            if 'ptr' in callee:
                f = self.operand(st, callee['ptr'])
                if isinstance(f, Agg):
                    outs = self.call_value(st, f, None, args)
                    return self.after_nested(st, t, outs)
            raise Unsupported('unresolved call in %s' % inst['path'])
        n = callee['i']
        ci = self.p.insts[n]
        self.seen_calls.add((fr.n, fr.bb))
        c = Call()
        c.n, c.inst, c.args, c.argtys, c.destty, c.span = n, ci, args, t[5], t[6], t[-1]
        c.gargs = callee.get('args')
        m = self.model_for(n)
        if m is not None:
            snap = None
            res = m(self, st, c)
            if res is not NotImplemented:
                return self.commit(st, t, res, inst)
        if ci['path'].rsplit('::', 1)[-1].startswith('{closure#') and len(args) == 2 and ci['argc'] != 2 \
                or self.is_closure_call(ci, args):
            tup = args[1]
            args = [args[0]] + list(tup.f)
        if not ci.get('blocks') or ci['path'].startswith(RAW):
            if 'dflt' in callee and self.p.insts[callee['dflt']].get('blocks'):
                n = callee['dflt']
                ci = self.p.insts[n]
            else:
                raise Unsupported('call of %s (no model, no body)' % ci['path'])
        for o in t[2]:
            self.moved(st, o)
        if target is None:
            self.goto(fr, fr.bb)
        r = self.place(st, dest) if dest[1] else ('p', ('L', len(st.frames) - 1, dest[0]), ())
        if r[0] != 'p':
            raise Unsupported('call destination')
        isrec = self.recursive(st, n)
        ak = self.argkey(st, n, args)
        if isrec and ak is not None and any(f.n == n and ak in f.hist for f in st.frames):
            return Outcome('panic', st, 'unbounded recursion into %s' % ci['path'], t[-1])
        # tail recursion becomes a jump
        rec = self.tail_frame(st, n, target, r) if isrec else None
        if rec is not None:
            d = rec
            ret, retbb, b = st.frames[d].ret, st.frames[d].retbb, st.frames[d].base
            args = [self.reroot(st, a, d) for a in args]
            hist = st.frames[d].hist
            jump = st.frames[d].jump
            self.rec_span[n] = t[-1]
            del st.frames[d:]
            self.enter(st, n, args, ret, retbb, b)
            st.frames[-1].jump = (True, jump[1] if jump else None)
            st.frames[-1].si = -1
            st.frames[-1].hist = hist + (ak,) if ak is not None and len(hist) < 40 else hist
            return self.rec_head(st, base, memo)
        if isrec:
            cnt = sum(1 for f in st.frames if f.n == n)
            if cnt > 6:
                raise Unsupported('unbounded recursion into %s' % ci['path'])
        self.enter(st, n, args, (r[1], r[2]), target)
        if ak is not None:
            st.frames[-1].hist = (ak,)
        return None

    def deep(self):
        """Functions whose nested activations can repeat a state, so that no bound on the nesting is known."""
        r = []
        for n, g in self.rec_edges.items():
            state = {}
            for root in g:
                if root in state:
                    continue
                work = [(root, iter(g.get(root, ())))]
                state[root] = 1
                while work and n not in r:
                    a, it = work[-1]
                    for b in it:
                        x = state.get(b)
                        if x == 1:
                            r.append(n)
                            break
                        if x is None:
                            state[b] = 1
                            work.append((b, iter(g.get(b, ()))))
                            break
                    else:
                        state[a] = 2
                        work.pop()
        return r

    def argkey(self, st, n, args):
        """Key of the argument values if the callee can see nothing but them and they are fully named, else None."""
        if not self.p.selfcalls(n):
            return None
        inst = self.p.insts[n]
        for i in range(inst['argc']):
            l = inst['locals'][i + 1]
            k = self.p.types[l if isinstance(l, int) else l[0]]['k']
            if k[0] in ('ref', 'ptr') and k[2]:
                return None
        from canon import isanon
        bad = []

        def f(x):
            if isinstance(x, Lin) and isanon(x.s) or isinstance(x, F) and x.op != 'c' and any(isanon(o) for o in x.owners()) \
                    or not isinstance(x, (Lin, F, Agg, VRef, Ptr, Seq, Str, bool, int)):
                bad.append(x)
        r = []
        try:
            for a in args:
                while isinstance(a, (Ptr, VRef)):
                    a = self.deref(st, a)
                walk(a, f)
                r.append(key(a))
        except Unsupported:
            return None
        return None if bad else tuple(r)

    def rec_head(self, st, base, memo):
        st.frames[-1].si = 0
        if 0 in self.p.heads(st.frames[-1].n):
            return [st]
        st2 = self.loop_head(st, memo, base)
        if st2 is None:
            raise Dead()
        return [st2]

    def reroot(self, st, a, d):
        """Arguments must not point into frames that disappear."""
        bad = []

        def f(v):
            if isinstance(v, Ptr) and v.obj[0] == 'L' and v.obj[1] >= d:
                bad.append(v)
        walk(a, f)
        if bad:
            raise Unsupported('tail call argument refers to local')
        return a

    def recursive(self, st, n):
        return any(f.n == n for f in st.frames)

    def tail_frame(self, st, n, target, r):
        """Depth d of the frame of n whose whole continuation just returns the callee's result."""
        if target is None:
            return None
        d = None
        for i in range(len(st.frames) - 1, -1, -1):
            if st.frames[i].n == n:
                d = i
                break
        if d is None:
            return None
        s = st.copy()
        mk = Marker()
        try:
            self.store(s, r[1], r[2], mk)
            self.goto(s.frames[-1], target)
            for _ in range(200):
                fr = s.frames[-1]
                inst = self.p.insts[fr.n]
                blk = inst['blocks'][fr.bb]
                while fr.si < len(blk['s']):
                    self.stmt(s, fr, inst, blk['s'][fr.si])
                    fr.si += 1
                t = blk['t']
                if t[0] == 'ret':
                    v = fr.loc.get(0)
                    if len(s.frames) - 1 == d:
                        return d if v is mk else None
                    if v is None or fr.base:
                        return None
                    ret, retbb = fr.ret, fr.retbb
                    s.frames.pop()
                    self.store(s, ret[0], ret[1], v)
                    self.goto(s.frames[-1], retbb)
                elif t[0] in ('goto', 'drop'):
                    self.goto(fr, t[1] if t[0] == 'goto' else t[2])
                elif t[0] == 'switch':
                    v = self.operand(s, t[1])
                    if not isinstance(v, (bool, int)):
                        return None
                    tb = t[3]
                    for x, b in t[2]:
                        if x == int(v):
                            tb = b
                    self.goto(fr, tb)
                else:
                    return None
        except (Unsupported, Fork, Dead):
            return None
        return None

    def is_closure_call(self, ci, args):
        if not ci['path'].rsplit('::', 1)[-1].startswith('{closure#'):
            return False
        return len(args) == 2 and isinstance(args[1], Agg) and args[1].ty is not None \
            and self.p.types[args[1].ty]['k'][0] == 'tuple' and len(args[1].f) == ci['argc'] - 1 \
            or (len(args) == 2 and isinstance(args[1], Agg) and args[1].ty is None)

    def commit(self, st, t, res, inst):
        """res: list of (state, value) or ('panic', state, msg)."""
        if len(res) == 1 and res[0][0] is st:
            self.finish_call(st, t, res[0][1])
            return None
        out = []
        self.npaths += max(0, len(res) - 1)
        for x in res:
            if x[0] == 'panic':
                if len(res) == 1:
                    return Outcome('panic', x[1], x[2], t[-1])
                s = x[1]
                s.g = dict(s.g)
                s.g['$panic'] = (x[2], t[-1])
                out.append(s)
                continue
            self.finish_call(x[0], t, x[1])
            out.append(x[0])
        return out

    def finish_call(self, st, t, v):
        fr = st.frames[-1]
        for o in t[2]:
            self.moved(st, o)
        if t[4] is None:
            raise Dead()
        self.write(st, t[3], v)
        self.goto(fr, t[4])

    def after_nested(self, st, t, outs):
        res = []
        for o in outs:
            if o.kind == 'panic':
                o.st.g['$panic'] = (o.val, o.span)
                del o.st.frames[len(st.frames):]
                res.append(o.st)
            else:
                self.finish_call(o.st, t, o.val)
                res.append(o.st)
        return res

    # ---- loops ----
    def counters(self, st, shape, seen, base):
        """Integers of the frames that keep changing from one round of a loop to the next become unknown."""
        ints = []

        def mask(v, at, ty):
            if isinstance(v, int) and not isinstance(v, bool):
                ints.append((at, v, ty))
                return '#'
            if isinstance(v, Lin) and v.s[0] == 'w' and ANON.match(v.s):
                return '#'
            if isinstance(v, Agg) and v.f:
                tys = self.fieldtys(v)
                return (v.ty, v.var, tuple([mask(x, at + (i,), tys[i] if i < len(tys) else None) for i, x in enumerate(v.f)]))
            return key(v)
        sk = []
        for d in range(base - 1, len(st.frames)):
            fr = st.frames[d]
            tys = self.p.insts[fr.n]['locals']
            for l in sorted(fr.loc):
                t = tys[l] if l < len(tys) else None
                sk.append((d, l, mask(fr.loc[l], (d, l), t if isinstance(t, int) else None)))
        if not ints:
            return False
        e = seen.setdefault((tuple(sk),) + shape[1:], ({}, set()))
        for at, v, ty in ints:
            vs = e[0].setdefault(at, set())
            if len(vs) <= self.widen:
                vs.add(v)
            self.counted = self.counted or len(vs) > 1
            if len(vs) > self.widen:
                e[1].add(at)
        if not e[1]:
            return False
        done = False
        for at, v, ty in ints:
            if at not in e[1]:
                continue
            n = self.fresh('w')
            st.facts.iassume(n, '0', v)
            st.facts.iassume('0', n, -v)

            def put(x, path):
                if not path:
                    return Lin(n, 0)
                return Agg(x.ty, x.var, x.f[:path[0]] + (put(x.f[path[0]], path[1:]),) + x.f[path[0] + 1:])
            fr = st.frames[at[0]]
            fr.loc = dict(fr.loc)
            fr.loc[at[1]] = put(fr.loc[at[1]], at[2:])
            done = True
        return done

    def fieldtys(self, v):
        if not isinstance(v.ty, int):
            return ()
        k = self.p.types[v.ty]['k']
        if k[0] == 'tuple':
            return [x for x in (k[1] if len(k) == 2 and isinstance(k[1], (list, tuple)) else k[1:])]
        a = self.p.adtinfo(v.ty)
        if not a:
            return ()
        vs = a['variants']
        return [f[1] for f in vs[v.var]['fields']] if v.var is not None and v.var < len(vs) else ()

    def loop_head(self, st, memo, base):
        from canon import canonical, entails, floatentails, join
        self.nheads += 1
        st, shape = canonical(self, st)
        k = (tuple((f.n, f.bb) for f in st.frames[base - 1:]),)
        if self.counters(st, shape, memo.setdefault((k, 'counters'), {}), base):
            st, shape = canonical(self, st)
        tab = memo.setdefault(k, {})
        w = self.hooks.watch(st) if self.hooks is not None else ()
        if w:
            shape = (shape, tuple(repr(t) for x in w for t in sorted(st.facts.below(x), key=lambda t: t.id)))
        if self.hooks is not None:
            sig = self.hooks.signature(st)
            if sig is not None:
                shape = (shape, sig)
        fr = st.frames[-1]
        if fr.jump is not None and fr.jump[0] and fr.bb == 0:
            if fr.jump[1] is not None:
                self.rec_edges.setdefault(fr.n, {}).setdefault(fr.jump[1], set()).add((k, shape))
            fr.jump = (False, (k, shape))
        if len(tab) > 6000:
            raise Unsupported('too many loop states')
        old = tab.get(shape)
        if old is None:
            tab[shape] = [st.facts.copy(), 0]
            if self.disj:
                tab[shape].append([])
            return st
        if entails(st.facts, old[0]):
            return None
        if self.disj:
            # keep apart what is known about floats
            ent = old
            for d in [old] + old[2]:
                if entails(st.facts, d[0]):
                    return None
                if floatentails(st.facts, d[0]):
                    ent = d
                    break
            else:
                if len(old[2]) < self.disj:
                    old[2].append([st.facts.copy(), 0])
                    return st
                st.imp = st.imp + ('joined',)
            old = ent
        j = join(old[0], st.facts, old[1])
        old[0], old[1] = j, old[1] + (j.ib != old[0].ib)
        st.facts = j.copy()
        return st
