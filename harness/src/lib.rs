//! Roots for the static analysis.  Nothing here is ever executed: the driver
//! monomorphises these functions against the crate under analysis and dumps
//! their MIR.  The bodies of the opaque accessors below are never interpreted.
#![allow(dead_code, clippy::all)]

use geo::{BoundingRect, Line, LineString, Point, Polygon, Rect};
use quadtree::spherical::math as sph;
use quadtree::*;

pub mod stubs;

/// Opaque datum of the point tree: neither Clone nor Copy.
pub struct PtDatum {
    pub id: u64,
    p: Point<f64>,
}
impl AsPoint<f64> for PtDatum {
    fn as_point(&self) -> Point<f64> {
        self.p
    }
}
impl AsGeom<f64> for PtDatum {
    fn as_geom(&self) -> GeometryRef<'_, f64> {
        GeometryRef::Point(&self.p)
    }
}

/// Opaque datum of the bounds tree.
pub struct BxDatum {
    pub id: u64,
    r: Rect<f64>,
}
impl AsGeom<f64> for BxDatum {
    fn as_geom(&self) -> GeometryRef<'_, f64> {
        GeometryRef::Rect(&self.r)
    }
}

/// Opaque comparator.
pub struct Cmp {
    pub id: u64,
    r: Rect<f64>,
}
impl AsGeom<f64> for Cmp {
    fn as_geom(&self) -> GeometryRef<'_, f64> {
        GeometryRef::Rect(&self.r)
    }
}

type PT = PointQuadTree<PtDatum, f64>;
type BT = BoundsQuadTree<BxDatum, f64>;

/// Everything an iterator yields, in order.
pub fn drain<X, I: Iterator<Item = X>>(mut it: I, out: &mut Vec<X>) {
    while let Some(d) = it.next() {
        out.push(d);
    }
}

macro_rules! tree_roots {
    ($t:ty, $d:ty, $new:ident, $from:ident, $ins:ident, $size:ident, $ret:ident, $iter:ident, $find:ident, $findr:ident,
     $knn:ident, $knnr:ident, $sorted:ident, $cm:ident, $show:ident) => {
        pub fn $new(b: Rect<f64>, c: CalcMethod, md: u8, mc: usize) -> $t {
            <$t>::new(b, c, md, mc)
        }
        pub fn $from(b: Rect<f64>, c: CalcMethod) -> $t {
            <$t>::from_bounds(b, c)
        }
        pub fn $ins(t: &mut $t, d: $d) -> Result<(), Error> {
            t.insert(d)
        }
        pub fn $size(t: &$t) -> usize {
            t.size()
        }
        pub fn $ret<'a>(t: &'a $t, q: &$d, out: &mut Vec<&'a $d>) {
            drain(t.retrieve(q), out)
        }
        pub fn $iter<'a>(t: &'a $t, out: &mut Vec<&'a $d>) {
            drain(t.into_iter(), out)
        }
        pub fn $find<'a>(t: &'a $t, q: &Cmp) -> Result<(&'a $d, f64), Error> {
            t.find(q)
        }
        pub fn $findr<'a>(t: &'a $t, q: &Cmp, r: f64) -> Result<(&'a $d, f64), Error> {
            t.find_r(q, r)
        }
        pub fn $knn<'a>(t: &'a $t, q: &Cmp, k: usize) -> Result<Vec<(&'a $d, f64)>, Error> {
            t.knn(q, k)
        }
        pub fn $knnr<'a>(t: &'a $t, q: &Cmp, k: usize, r: f64) -> Result<Vec<(&'a $d, f64)>, Error> {
            t.knn_r(q, k, r)
        }
        pub fn $sorted<'a>(t: &'a $t, q: &'a Cmp, out: &mut Vec<(&'a $d, f64)>) {
            drain(t.sorted(q), out)
        }
        pub fn $cm(t: &$t) -> CalcMethod {
            t.calc_method()
        }
        pub fn $show(t: &$t, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            std::fmt::Display::fmt(t, f)
        }
    };
}

tree_roots!(PT, PtDatum, vp_pt_new, vp_pt_from_bounds, vp_pt_insert, vp_pt_size, vp_pt_retrieve, vp_pt_iter, vp_pt_find,
    vp_pt_find_r, vp_pt_knn, vp_pt_knn_r, vp_pt_sorted, vp_pt_calc_method, vp_pt_show);
tree_roots!(BT, BxDatum, vp_bx_new, vp_bx_from_bounds, vp_bx_insert, vp_bx_size, vp_bx_retrieve, vp_bx_iter, vp_bx_find,
    vp_bx_find_r, vp_bx_knn, vp_bx_knn_r, vp_bx_sorted, vp_bx_calc_method, vp_bx_show);

// ---- geometry -----------------------------------------------------------

pub fn vp_calc_geom(g: GeometryRef<'_, f64>, m: CalcMethod, h: &GeometryRef<'_, f64>) -> Result<f64, Error> {
    g.into_calc(m).dist_geom(h)
}
pub fn vp_calc_bbox(g: GeometryRef<'_, f64>, m: CalcMethod, b: &Rect<f64>) -> Result<f64, Error> {
    g.into_calc(m).dist_bbox(b)
}
pub fn vp_with_calc_geom(c: &Cmp, m: CalcMethod, h: &GeometryRef<'_, f64>) -> Result<f64, Error> {
    c.with_calc(m).dist_geom(h)
}
pub fn vp_with_calc_bbox(c: &Cmp, m: CalcMethod, b: &Rect<f64>) -> Result<f64, Error> {
    c.with_calc(m).dist_bbox(b)
}

macro_rules! dist_roots {
    ($t:ty, $er:ident, $eg:ident, $hr:ident, $hg:ident) => {
        pub fn $er(a: &$t, b: &GeometryRef<'_, f64>) -> f64 {
            DistEuclidean::dist_euclidean(a, b)
        }
        pub fn $eg(a: &$t, b: &Geometry<f64>) -> f64 {
            DistEuclidean::dist_euclidean(a, b)
        }
        pub fn $hr(a: &$t, b: &GeometryRef<'_, f64>) -> Result<f64, Error> {
            DistHaversine::dist_haversine(a, b)
        }
        pub fn $hg(a: &$t, b: &Geometry<f64>) -> Result<f64, Error> {
            DistHaversine::dist_haversine(a, b)
        }
    };
}
dist_roots!(Point<f64>, vp_e_point_ref, vp_e_point_own, vp_h_point_ref, vp_h_point_own);
dist_roots!(Line<f64>, vp_e_line_ref, vp_e_line_own, vp_h_line_ref, vp_h_line_own);
dist_roots!(LineString<f64>, vp_e_linestring_ref, vp_e_linestring_own, vp_h_linestring_ref, vp_h_linestring_own);
dist_roots!(Polygon<f64>, vp_e_polygon_ref, vp_e_polygon_own, vp_h_polygon_ref, vp_h_polygon_own);
dist_roots!(Rect<f64>, vp_e_rect_ref, vp_e_rect_own, vp_h_rect_ref, vp_h_rect_own);
dist_roots!(GeometryRef<'_, f64>, vp_e_gref_ref, vp_e_gref_own, vp_h_gref_ref, vp_h_gref_own);
dist_roots!(Geometry<f64>, vp_e_geom_ref, vp_e_geom_own, vp_h_geom_ref, vp_h_geom_own);

pub fn vp_s_pt_pt(a: &Point<f64>, b: &Point<f64>) -> f64 {
    sph::dist_pt_pt(a, b)
}
pub fn vp_s_pt_line(a: &Point<f64>, b: &Line<f64>) -> f64 {
    sph::dist_pt_line(a, b)
}
pub fn vp_s_pt_linestring(a: &Point<f64>, b: &LineString<f64>) -> f64 {
    sph::dist_pt_linestring(a, b)
}
pub fn vp_s_pt_poly(a: &Point<f64>, b: &Polygon<f64>) -> f64 {
    sph::dist_pt_poly(a, b)
}
pub fn vp_s_pt_rect(a: &Point<f64>, b: &Rect<f64>) -> f64 {
    sph::dist_pt_rect(a, b)
}
pub fn vp_s_rect_rect(a: &Rect<f64>, b: &Rect<f64>) -> f64 {
    sph::dist_rect_rect(a, b)
}

macro_rules! rad_roots {
    ($t:ty, $c:ident, $i:ident) => {
        pub fn $c(a: &$t) -> $t {
            a.to_radians()
        }
        pub fn $i(a: &mut $t) {
            a.to_radians_in_place()
        }
    };
}
rad_roots!(Point<f64>, vp_rad_point, vp_radip_point);
rad_roots!(Line<f64>, vp_rad_line, vp_radip_line);
rad_roots!(LineString<f64>, vp_rad_linestring, vp_radip_linestring);
rad_roots!(Polygon<f64>, vp_rad_polygon, vp_radip_polygon);
rad_roots!(Rect<f64>, vp_rad_rect, vp_radip_rect);
rad_roots!(Geometry<f64>, vp_rad_geom, vp_radip_geom);

macro_rules! conv_roots {
    ($t:ty, $f:ident, $a:ident) => {
        pub fn $f(a: $t) -> Geometry<f64> {
            Geometry::from(a)
        }
        pub fn $a(a: &$t) -> GeometryRef<'_, f64> {
            a.as_geom()
        }
    };
}
conv_roots!(Point<f64>, vp_from_point, vp_asgeom_point);
conv_roots!(Line<f64>, vp_from_line, vp_asgeom_line);
conv_roots!(LineString<f64>, vp_from_linestring, vp_asgeom_linestring);
conv_roots!(Polygon<f64>, vp_from_polygon, vp_asgeom_polygon);
conv_roots!(Rect<f64>, vp_from_rect, vp_asgeom_rect);
pub fn vp_asgeom_geom(a: &Geometry<f64>) -> GeometryRef<'_, f64> {
    a.as_geom()
}
pub fn vp_asgeom_gref<'a>(a: &'a GeometryRef<'a, f64>) -> GeometryRef<'a, f64> {
    a.as_geom()
}
pub fn vp_try_from(g: geo::Geometry<f64>) -> Result<Geometry<f64>, Error> {
    Geometry::try_from(g)
}
pub fn vp_bbox_gref(a: &GeometryRef<'_, f64>) -> Option<Rect<f64>> {
    a.bounding_rect()
}
pub fn vp_bbox_geom(a: &Geometry<f64>) -> Option<Rect<f64>> {
    a.bounding_rect()
}
pub fn vp_aspoint_point(a: &Point<f64>) -> Point<f64> {
    a.as_point()
}
pub fn vp_aspoint_coord(a: &geo::Coord<f64>) -> Point<f64> {
    a.as_point()
}
