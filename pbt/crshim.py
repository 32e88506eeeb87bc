"""The commonroad drivability checker of this sandbox was compiled without its polygon triangulator, so the constructor
`pycrcc.Polygon(outline, holes)` always raises. This stand-in computes the triangles with shapely and hands them to the
library's other constructor (outline, holes, mesh): everything else (collision tests, ray casts) is the real library.
It does nothing where the library can triangulate.
"""
import shapely
from commonroad_dc import pycrcc
from shapely.geometry import Polygon as _SPolygon

_Real = pycrcc.Polygon


def _needed():
    try:
        _Real([[0.0, 0.0], [1.0, 0.0], [0.0, 1.0]], [])
        return False
    except RuntimeError:
        return True


class Polygon(_Real):
    def __init__(self, outline, holes=(), *a):
        if len(a) == 1 and isinstance(a[0], list):
            super().__init__(outline, list(holes), a[0])
            return
        out = [[float(x), float(y)] for x, y in outline]
        hs = [[[float(x), float(y)] for x, y in h] for h in holes]
        mesh = []
        for t in shapely.constrained_delaunay_triangles(_SPolygon(out, hs)).geoms:
            if t.area > 0:
                (ax, ay), (bx, by), (cx, cy) = t.exterior.coords[:3]
                mesh.append(pycrcc.Triangle(ax, ay, bx, by, cx, cy))
        super().__init__(out, hs, mesh)


if _needed():
    import sys

    pycrcc.Polygon = Polygon
    for _name, _mod in list(sys.modules.items()):
        if _name.startswith("dg_commons"):
            for _k, _v in list(vars(_mod).items()):
                if _v is _Real:
                    setattr(_mod, _k, Polygon)
