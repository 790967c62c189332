"""Makes pairs with lots of points out of small ones."""
from fractions import Fraction
from math import ceil, floor, lcm

from . import oracle as o
from .model import AREAL, map_points, points_of, to_areal, valid
from .oracle import P
from .shapes import edges_of

STEP = 10  # distance between points of the grid when parts are added
CURVATURE = 2000


def integral(left, right):
    """The same geometries scaled to have integer coordinates."""
    points = points_of(left) + points_of(right)
    factor = lcm(*(Fraction(v).denominator for p in points
                   for v in (p.x, p.y)))
    return [map_points(lambda p: P(int(p.x * factor), int(p.y * factor)), g)
            for g in (left, right)]


def bent(random, left_kind, left, right_kind, right):
    """
    Edges are replaced with pieces between vertical lines, after that
    points are moved so that pieces of an edge are not on a line.
    """
    density = random.choice((1, 1, 2, 3))
    points = points_of(left) + points_of(right)
    vertical = random.random() < .5
    if vertical:
        left, right = [map_points(lambda p: P(p.y, p.x), g)
                       for g in (left, right)]
    everywhere = {(p.x, p.y): p for p in points_of(left) + points_of(right)}
    sign = random.choice((1, -1))

    def pieces(a, b):
        """Start of the edge and points inside of it."""
        if a.x == b.x:
            return [a]
        low, high = min(a.x, b.x), max(a.x, b.x)
        xs = {Fraction(k, density)
              for k in range(ceil(low * density), floor(high * density) + 1)}
        xs = {x for x in xs if low < x < high}
        xs.update(p.x for p in everywhere.values()
                  if low < p.x < high and o.orient(a, b, p) == 0)
        return [a] + [P(x, a.y + Fraction((b.y - a.y) * (x - a.x),
                                          b.x - a.x))
                      for x in sorted(xs, reverse=a.x > b.x)]

    def bend(p):
        result = P(p.x, CURVATURE * p.y + sign * p.x * p.x)
        return P(result.y, result.x) if vertical else result

    def ring(vertices):
        return [bend(p) for k in range(len(vertices))
                for p in pieces(vertices[k], vertices[(k + 1)
                                                      % len(vertices)])]

    def segments(a, b):
        ends = pieces(a, b) + [b]
        return [(bend(p), bend(q)) for p, q in zip(ends, ends[1:])]

    def convert(kind, g):
        if kind == 'point':
            return bend(g)
        elif kind == 'segment':
            return tuple(map(bend, g))
        elif kind == 'multisegment':
            result = [piece for a, b in g for piece in segments(a, b)]
            random.shuffle(result)
            return result
        elif kind in ('contour', 'region'):
            return ring(g)
        elif kind == 'multiregion':
            return [ring(part) for part in g]
        elif kind == 'polygon':
            return ring(g[0]), [ring(hole) for hole in g[1]]
        return [convert('polygon', part) for part in g]

    return integral(convert(left_kind, left), convert(right_kind, right))


def crowded(random, left_kind, left, right_kind, right):
    """Lots of small parts are added."""
    left, right = [map_points(lambda p: P(STEP * p.x, STEP * p.y), g)
                   for g in (left, right)]
    points = points_of(left) + points_of(right)
    xs, ys = [p.x for p in points], [p.y for p in points]
    margin = STEP * random.choice((0, 1, 3))
    cells = [P(x + STEP // 2, y + STEP // 2)
             for x in range(min(xs) - margin, max(xs) + margin, STEP)
             for y in range(min(ys) - margin, max(ys) + margin, STEP)]
    random.shuffle(cells)
    del cells[random.choice((12, 20, 40)):]
    common = random.random()
    added_left = [c for c in cells if random.random() < common]
    added_right = [c for c in cells
                   if c not in added_left or random.random() < .9]
    return [added(random, left_kind, left, added_left),
            added(random, right_kind, right, added_right)]


def small(p):
    return [P(p.x - 1, p.y - 2), P(p.x + 2, p.y - 1), P(p.x + 1, p.y + 2),
            P(p.x - 2, p.y + 1)]


def is_free(g, p):
    """There are no edges near the point."""
    corners = [P(p.x - 3, p.y - 3), P(p.x + 3, p.y - 3),
               P(p.x + 3, p.y + 3), P(p.x - 3, p.y + 3)]
    sides = [(corners[k - 1], corners[k]) for k in range(4)]
    return not any(
            abs(a.x - p.x) <= 3 and abs(a.y - p.y) <= 3
            or any(o.proper_crossing(a, b, *side) or o.on_segment(a, b, side[0])
                   for side in sides)
            for a, b in edges_of(g))


def added(random, kind, g, cells):
    if kind not in ('multisegment', 'multiregion', 'polygon', 'multipolygon'):
        return g
    areal = to_areal(kind, g) if kind in AREAL else None
    result = list(g)
    if kind == 'polygon':
        result = [g[0], list(g[1])]
    for cell in cells:
        if not is_free(g, cell):
            continue
        where = areal and o.locate_in_areal(areal, cell)
        if kind == 'multisegment':
            a, b, c, d = small(cell)
            result.append(random.choice(((a, c), (b, d), (a, b), (c, d))))
        elif kind == 'multiregion' and where == o.EXTERIOR:
            result.append(small(cell))
        elif kind == 'polygon' and where == o.INTERIOR:
            result[1].append(small(cell))
        elif kind == 'multipolygon':
            if where == o.EXTERIOR:
                result.append((small(cell), []))
            else:
                for k, (border, holes) in enumerate(result):
                    if (o.locate_in_areal(to_areal('polygon', (border, holes)),
                                          cell) == o.INTERIOR):
                        result[k] = border, holes + [small(cell)]
                        break
    if kind == 'polygon':
        border, holes = result
        random.shuffle(holes)
        return border, holes
    random.shuffle(result)
    return result


def enlarged(random, left_kind, left, right_kind, right, max_points=160):
    """Either a pair with more points or nothing."""
    for change in random.choice(((bent,), (crowded,), (crowded, bent))):
        left, right = change(random, left_kind, left, right_kind, right)
        if len(points_of(left)) + len(points_of(right)) > max_points:
            return None
    if valid(left_kind, left) and valid(right_kind, right):
        return left, right
    return None
