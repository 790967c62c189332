"""Neutral descriptions of geometries: validity, conversions, reference results."""
from . import oracle as o
from .oracle import P, eq, on_segment, orient

KINDS = ('point', 'segment', 'multisegment', 'contour', 'region',
         'multiregion', 'polygon', 'multipolygon')
LINEAR = 'segment', 'multisegment', 'contour'
AREAL = 'region', 'multiregion', 'polygon', 'multipolygon'
LEVEL = {kind: index for index, kind in enumerate(KINDS)}
FUNCTIONS = (
        [f'point_in_{k}' for k in KINDS[1:]]
        + [f'{a}_in_{b}' for i, a in enumerate(KINDS[1:], 1)
           for b in KINDS[i:]
           if (a, b) not in {('contour', 'multisegment')}]
)


def to_linear(kind, g):
    if kind == 'segment':
        return o.Linear([g])
    elif kind == 'multisegment':
        return o.Linear(g)
    elif kind == 'contour':
        return o.Linear([(g[i - 1], g[i]) for i in range(len(g))])
    raise ValueError(kind)


def to_areal(kind, g):
    if kind == 'region':
        rings = [(g, False)]
    elif kind == 'multiregion':
        rings = [(r, False) for r in g]
    elif kind == 'polygon':
        rings = [(g[0], False)] + [(h, True) for h in g[1]]
    elif kind == 'multipolygon':
        rings = []
        for border, holes in g:
            rings.append((border, False))
            rings.extend((h, True) for h in holes)
    else:
        raise ValueError(kind)
    return o.Areal(rings)


def reference(left_kind, left, right_kind, right):
    """Expected result of ``<left_kind>_in_<right_kind>``."""
    if left_kind == 'point':
        if right_kind in LINEAR:
            return o.locate_in_linear(to_linear(right_kind, right), left)
        else:
            return o.locate_in_areal(to_areal(right_kind, right), left)
    elif left_kind in LINEAR:
        left = to_linear(left_kind, left)
        if right_kind in LINEAR:
            return o.linear_in_linear(left, to_linear(right_kind, right))
        else:
            return o.linear_in_areal(left, to_areal(right_kind, right))
    else:
        return o.areal_in_areal(to_areal(left_kind, left),
                                to_areal(right_kind, right))


def segments_compatible(s, t):
    """Neither crossing nor overlapping."""
    a, b = s
    c, d = t
    if o.proper_crossing(a, b, c, d):
        return False
    if orient(a, b, c) == 0 and orient(a, b, d) == 0:
        # collinear: no common pieces
        if o.lt(b, a):
            a, b = b, a
        if o.lt(d, c):
            c, d = d, c
        return not (o.lt(a, d) and o.lt(c, b))
    return True


def segments_apart(s, t):
    a, b = s
    c, d = t
    return not (o.proper_crossing(a, b, c, d)
                or o.on_segment(a, b, c) or o.on_segment(a, b, d)
                or o.on_segment(c, d, a) or o.on_segment(c, d, b))


def valid_ring(g):
    n = len(g)
    if n < 3:
        return False
    for i in range(n):
        if orient(g[i - 2], g[i - 1], g[i]) == 0:
            return False
    for i in range(n):
        for j in range(i):
            if i - j in (1, n - 1):
                continue
            if not segments_apart((g[i - 1], g[i]), (g[j - 1], g[j])):
                return False
    return True


def _point_contacts_only(flags):
    return not (flags.along_same or flags.along_opposite)


def _disjoint_interiors(a, b):
    af = o.edges_against_areal(a.edges, b, True)
    if af.inside or not _point_contacts_only(af):
        return False
    bf = o.edges_against_areal(b.edges, a, True)
    return not bf.inside and _point_contacts_only(bf)


def _pairwise_disjoint(areals):
    return all(_disjoint_interiors(areals[i], areals[j])
               for i in range(len(areals)) for j in range(i))


def _connected_interior(rings):
    """
    Rings touch only at points, so polygon interior is connected
    iff graph of rings and points shared by them has no cycles.
    """
    contacts = []  # pairs of point and indices of rings
    for i, ring in enumerate(rings):
        edges = [[(r[k - 1], r[k]) for k in range(len(r))] for r in rings]
        for p in ring:
            for j in range(len(rings)):
                if i == j or not any(on_segment(a, b, p)
                                     for a, b in edges[j]):
                    continue
                for q, indices in contacts:
                    if eq(p, q):
                        indices.update((i, j))
                        break
                else:
                    contacts.append((p, {i, j}))
    parents = list(range(len(rings) + len(contacts)))

    def find(node):
        while parents[node] != node:
            node = parents[node]
        return node

    for k, (_, indices) in enumerate(contacts):
        for i in indices:
            first, second = find(i), find(len(rings) + k)
            if first == second:
                return False
            parents[first] = second
    return True


def valid_polygon(g):
    border, holes = g
    if not valid('region', border) or not all(valid('region', h) for h in holes):
        return False
    if not holes:
        return True
    ba = to_areal('region', border)
    for hole in holes:
        ha = to_areal('region', hole)
        hf = o.edges_against_areal(ha.edges, ba, True)
        if hf.outside or not _point_contacts_only(hf):
            return False
        bf = o.edges_against_areal(ba.edges, ha, True)
        if bf.inside:
            return False
    return (_pairwise_disjoint([to_areal('region', h) for h in holes])
            and _connected_interior([border] + holes))


def valid(kind, g):
    key = constant_key(g)
    if key is None:
        return _valid(kind, g)
    key = kind, key
    if key not in VALID:
        if len(VALID) > 100000:
            VALID.clear()
        VALID[key] = _valid(kind, g)
    return VALID[key]


VALID = {}


def constant_key(g):
    """``None`` if geometry has symbolic coordinates."""
    if isinstance(g, P):
        x, y = g.x, g.y
        if hasattr(x, 'engine'):
            x, y = x.const, y.const
            if x is None or y is None:
                return None
        return x, y
    result = []
    for part in g:
        key = constant_key(part)
        if key is None:
            return None
        result.append(key)
    return tuple(result)


def _valid(kind, g):
    if kind == 'point':
        return True
    elif kind == 'segment':
        return not eq(*g)
    elif kind == 'multisegment':
        return (len(g) > 0 and all(not eq(*s) for s in g)
                and all(segments_compatible(g[i], g[j])
                        for i in range(len(g)) for j in range(i)))
    elif kind in ('contour', 'region'):
        return valid_ring(g)
    elif kind == 'multiregion':
        return (len(g) > 0 and all(valid('region', r) for r in g)
                and _pairwise_disjoint([to_areal('region', r) for r in g]))
    elif kind == 'polygon':
        return valid_polygon(g)
    elif kind == 'multipolygon':
        return (len(g) > 0
                and all(valid('polygon', p) for p in g)
                and _pairwise_disjoint([to_areal('polygon', p) for p in g]))
    raise ValueError(kind)


def to_real(kind, g, context):
    """Converts to the objects the library accepts."""
    point = lambda p: context.point_cls(p.x, p.y)
    segment = lambda s: context.segment_cls(point(s[0]), point(s[1]))
    contour = lambda r: context.contour_cls([point(v) for v in r])
    polygon = lambda p: context.polygon_cls(contour(p[0]),
                                            [contour(h) for h in p[1]])
    if kind == 'point':
        return point(g)
    elif kind == 'segment':
        return segment(g)
    elif kind == 'multisegment':
        return context.multisegment_cls([segment(s) for s in g])
    elif kind in ('contour', 'region'):
        return contour(g)
    elif kind == 'multiregion':
        return [contour(r) for r in g]
    elif kind == 'polygon':
        return polygon(g)
    elif kind == 'multipolygon':
        return context.multipolygon_cls([polygon(p) for p in g])
    raise ValueError(kind)


def map_points(f, g):
    if isinstance(g, P):
        return f(g)
    elif isinstance(g, tuple):
        return tuple(map_points(f, x) for x in g)
    return [map_points(f, x) for x in g]


def points_of(g):
    if isinstance(g, P):
        return [g]
    return [p for x in g for p in points_of(x)]
