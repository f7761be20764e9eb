"""Symbolic inputs for the pure geometry functions."""
from dom import *
from values import *
from interp import State


class Mk:
    """Builds structured values of geo types.  Coordinates are variables owner.attr;
    rectangles satisfy min <= max (the invariant of geo's Rect)."""

    def __init__(self, prog, st):
        self.p = prog
        self.st = st

    def coord(self, ty, x, y):
        return Agg(ty, 0, (x, y))

    def named(self, name):
        for n, t in enumerate(self.p.types):
            if t['k'] == ('adt', name):
                return n
        return None

    def kindname(self, ty):
        k = self.p.types[ty]['k']
        return k[1].rsplit('::', 1)[-1] if k[0] == 'adt' else k[0]

    def make(self, ty, name, shape=None):
        """A value of type ty whose coordinates are named after name."""
        p = self.p
        k = p.types[ty]['k']
        if k[0] in ('ref', 'ptr'):
            return VRef(self.make(k[1], name, shape))
        nm = self.kindname(ty)
        info = p.adtinfo(ty)
        if nm in ('Geometry', 'GeometryRef'):
            for v, x in enumerate(info['variants']):
                if x['name'] == shape:
                    return Agg(ty, v, (self.make(x['fields'][0][1], name),))
            raise Unsupported('no shape %s' % shape)
        f = [x[1] for x in info['variants'][0]['fields']] if info else []
        if nm == 'Point':
            return Agg(ty, 0, (self.coord(f[0], var(name, 'x'), var(name, 'y')),))
        if nm == 'Coord':
            return self.coord(ty, var(name, 'x'), var(name, 'y'))
        if nm == 'Line':
            return Agg(ty, 0, (self.coord(f[0], var(name, 'ax'), var(name, 'ay')),
                               self.coord(f[1], var(name, 'bx'), var(name, 'by'))))
        if nm == 'Rect':
            r = [var(name, a) for a in ('x1', 'y1', 'x2', 'y2')]
            self.st.facts.add_le(r[0], r[2])
            self.st.facts.add_le(r[1], r[3])
            return Agg(ty, 0, (self.coord(f[0], r[0], r[1]), self.coord(f[1], r[2], r[3])))
        if nm == 'Triangle':
            return Agg(ty, 0, tuple(self.coord(f[i], var(name, 'x%d' % i), var(name, 'y%d' % i)) for i in range(3)))
        if nm == 'LineString':
            return self.linestring(ty, self.seq(name))
        if nm == 'Polygon':
            return Agg(ty, 0, (self.linestring(f[0], self.seq(name + 'e')), self.rings(f[1], name)))
        if info is not None and len(f) == 1:
            return Agg(ty, 0, (Opq(('contents', name)),))
        raise Unsupported('make %s' % p.tyname(ty))

    def linestring(self, ty, items):
        return Agg(ty, 0, (items,))

    def coordty(self):
        return self.named('geo_types::geometry::coord::Coord')

    def anypt(self):
        return self.coord(self.coordty(), var('d@0', 'x'), var('d@0', 'y'))

    def pt(self, name):
        return self.coord(self.coordty(), var(name, 'x'), var(name, 'y'))

    def seq(self, name, mids=None):
        """A coordinate sequence: anything, then the named coordinates in the middle, then anything."""
        anyi = ('any', (self.anypt(),), None)
        mids = mids if mids is not None else ()
        items = (anyi,) if not mids else (anyi,) + tuple(('e', self.pt(m)) for m in mids) + (anyi,)
        n = 'len_' + name
        self.st.facts.iassume('0', n, -len(mids))
        self.st.facts.iassume(n, '0', 1 << 60)
        return Seq(items, Lin(n, 0))

    def rings(self, ty, name):
        lsty = self.named('geo_types::geometry::line_string::LineString')
        inner = Agg(lsty, 0, (Seq((('any', (self.anypt(),), None),), Lin('i@0', 0)),))
        n = 'len_' + name + 'r'
        self.st.facts.iassume('0', n, 0)
        self.st.facts.iassume(n, '0', 1 << 60)
        return Seq((('any', (inner,), None),), Lin(n, 0))
