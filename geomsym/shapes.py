"""
Bounded library of concrete templates of geometries.

A *template* is a valid geometry with small integer coordinates.
A *moving group* is a set of its points which all get the same symbolic offset
``(x, y)``, i.e. range over the whole real plane; engine decides property
for all real values of the offset.
"""
from .model import (AREAL, map_points, points_of, reference, to_areal,
                    valid)
from .oracle import P

LIMITS = {'segment': 1, 'multisegment': 5, 'contour': 6, 'region': 6,
          'multiregion': 3, 'polygon': 3, 'multipolygon': 2}


def pts(*pairs):
    return [P(x, y) for x, y in pairs]


def sq(a, b, c, d):
    return pts((a, b), (c, b), (c, d), (a, d))


BIG = [sq(0, 0, 6, 6), sq(0, 0, 4, 4), sq(0, 0, 4, 6), sq(1, 1, 5, 5),
       pts((0, 0), (6, 0), (0, 6)), pts((0, 3), (3, 0), (6, 3), (3, 6)),
       pts((0, 0), (3, 2), (6, 0), (6, 6), (0, 6)),
       pts((0, 0), (6, 0), (6, 6), (3, 3), (0, 6)),
       pts((0, 0), (6, 0), (6, 4), (4, 4), (4, 6), (0, 6)),
       pts((0, 0), (6, 1), (5, 6)), pts((0, 2), (6, 0), (4, 6), (1, 5)),
       pts((0, 0), (6, 0), (6, 6), (4, 6), (4, 2), (2, 2), (2, 6), (0, 6))]
MID = [sq(1, 1, 3, 3), sq(3, 1, 5, 3), sq(1, 3, 3, 5), sq(3, 3, 5, 5),
       sq(2, 2, 4, 4), sq(1, 1, 2, 2), sq(2, 2, 3, 3), sq(1, 1, 5, 2),
       sq(1, 3, 5, 5), pts((1, 1), (3, 1), (2, 2)), pts((3, 1), (5, 1), (4, 2)),
       pts((2, 2), (4, 2), (3, 4)), pts((2, 1), (3, 2), (2, 3), (1, 2)),
       pts((3, 2), (4, 1), (5, 2), (4, 3)), pts((1, 1), (4, 2), (2, 5)),
       pts((2, 1), (5, 3), (3, 5)), pts((1, 2), (5, 1), (4, 4)),
       pts((3, 1), (5, 5), (1, 4)), pts((1, 1), (5, 1), (3, 2), (5, 5)),
       pts((1, 1), (3, 2), (5, 1), (3, 5)), sq(0, 2, 2, 4), sq(4, 2, 6, 4)]


class Generator:
    def __init__(self, random, grid=6):
        self.random, self.grid = random, grid

    def point(self):
        r = self.random
        return P(r.randint(0, self.grid), r.randint(0, self.grid))

    def rewrite_ring(self, ring):
        r = self.random
        if r.random() < .6:
            k = r.randrange(len(ring))
            ring = ring[k:] + ring[:k]
        if r.random() < .4:
            ring = ring[::-1]
        return ring

    def ring(self, other=None):
        r = self.random
        while True:
            u = r.random()
            if other is not None and u < .3:
                ring = list(r.choice(rings_of(other)))
            elif u < .45:
                ring = list(r.choice(BIG))
            elif u < .8:
                ring = list(r.choice(MID))
            else:
                ring = [self.point() for _ in range(r.choice((3, 3, 4, 4, 5)))]
            if r.random() < .25:
                ring[r.randrange(len(ring))] = self.point()
            elif len(ring) > 3 and r.random() < .1:
                del ring[r.randrange(len(ring))]
            if valid('region', ring):
                return self.rewrite_ring(ring)

    def geometry(self, kind, other=None):
        for _ in range(400):
            result = self.candidate(kind, other)
            if result is not None and valid(kind, result):
                return result
        return self.geometry(kind)

    def candidate(self, kind, other):
        r = self.random
        if kind == 'point':
            return self.point()
        elif kind == 'segment':
            if other is not None and r.random() < .6:
                points = points_of(other)
                return r.choice(points), r.choice(points + [self.point()])
            return self.point(), self.point()
        elif kind == 'multisegment':
            result = [(self.point(), self.point())
                      for _ in range(r.choice((0, 1, 1, 2, 2, 3)))]
            if other is not None and r.random() < .7:
                edges = edges_of(other)
                edges = r.sample(edges, r.randint(1, min(len(edges), 4)))
                for a, b in edges:
                    if (a.x + b.x) % 2 == 0 == (a.y + b.y) % 2 and (
                            r.random() < .3):
                        c = P((a.x + b.x) // 2, (a.y + b.y) // 2)
                        result.append((a, c))
                        if r.random() < .5:
                            result.append((c, b))
                    elif r.random() < .2:
                        result.append((a, self.point()))
                    else:
                        result.append((a, b))
            elif r.random() < .3 and result:
                a, b = result[0]
                result.append((b, self.point()))
                result.append((self.point(), b))
            result = [s if r.random() < .5 else s[::-1] for s in result]
            r.shuffle(result)
            return result[:LIMITS[kind]]
        elif kind in ('contour', 'region'):
            return self.ring(other)
        elif kind == 'multiregion':
            if other is not None and r.random() < .15 and len(
                    rings_of(other)) > 1:
                result = [self.rewrite_ring(list(g)) for g in rings_of(other)]
                r.shuffle(result)
                return result
            return [self.ring(other) for _ in range(r.choice((1, 2, 2, 3)))]
        elif kind == 'polygon':
            border = (self.rewrite_ring(list(r.choice(BIG)))
                      if r.random() < .7 else self.ring(other))
            return border, [self.ring(other if r.random() < .7 else None)
                            for _ in range(r.choice((0, 1, 1, 1, 2)))]
        elif kind == 'multipolygon':
            if r.random() < .25:
                # polygon in hole of another one
                return [(self.rewrite_ring(sq(0, 0, 6, 6)),
                         [self.rewrite_ring(sq(1, 1, 5, 5))]),
                        (self.ring(other), [])]
            return [self.candidate('polygon', other)
                    if r.random() < .5 else (self.ring(other), [])
                    for _ in range(r.choice((1, 2, 2)))]
        raise ValueError(kind)

    def pair(self, left_kind, right_kind, max_points=14):
        while True:
            right = self.geometry(right_kind)
            left = self.geometry(left_kind,
                                 right if self.random.random() < .7
                                 and right_kind != 'point' else None)
            if len(points_of(left)) + len(points_of(right)) <= max_points:
                return left, right

    def moving_group(self, left, right, only_left=False):
        """Indices of points that are moved."""
        r = self.random
        points = points_of(left) + points_of(right)
        left_size = len(points_of(left))
        parts = list(parts_of(left, 0)) + list(parts_of(right, left_size))
        u = r.random()
        if left_size == 1 and u < .5:
            return [0]
        elif u < .3:
            return list(range(left_size))
        elif u < .65:
            index = r.randrange(len(points))
            result = [index]
        elif u < .85:
            result = list(r.choice(parts))
        else:
            part = r.choice(parts)
            k = r.randrange(len(part))
            result = sorted({part[k - 1], part[k]})
        if r.random() < .5:
            # coinciding points are moved together
            moved = [points[i] for i in result]
            result = [i for i, p in enumerate(points)
                      if any(p.x == q.x and p.y == q.y for q in moved)]
        return result


def rings_of(g):
    """Rings (or chains, for linear geometries) of geometry."""
    if isinstance(g, P):
        return []
    if isinstance(g, tuple) and isinstance(g[0], P):  # segment
        return [list(g)]
    if isinstance(g, list) and g and isinstance(g[0], P):
        return [g]
    return [ring for part in g for ring in rings_of(part)]


def edges_of(g):
    result = []
    for ring in rings_of(g):
        if len(ring) == 2:
            result.append(tuple(ring))
        else:
            result.extend((ring[i - 1], ring[i]) for i in range(len(ring)))
    return result


def parts_of(g, offset):
    """Lists of indices of points of each ring or segment."""
    if isinstance(g, P):
        yield [offset]
        return
    for ring in rings_of(g):
        yield list(range(offset, offset + len(ring)))
        offset += len(ring)


def with_offset(left, right, group, names=('x', 'y')):
    """Adds symbolic offset to coordinates of points of group."""
    group = set(group)
    counter = iter(range(10 ** 9))

    def move(p):
        if next(counter) in group:
            return P(f'{p.x}+{names[0]}', f'{p.y}+{names[1]}')
        return p

    return _map(move, left), _map(move, right)


def _map(f, g):
    if isinstance(g, P):
        return f(g)
    elif isinstance(g, tuple):
        return tuple([_map(f, x) for x in g])
    return [_map(f, x) for x in g]


class Arrangement:
    """
    Pairs of geometries built from cells of the same subdivision of a square,
    so that borders of them have lots of common vertices and edges
    """

    def __init__(self, random):
        self.random = random
        r = random
        self.columns, self.rows = r.choice(((2, 2), (2, 2), (3, 2), (2, 3),
                                            (3, 3), (3, 1), (1, 3)))
        step, jitter = 4, r.choice((0, 0, 0, 1))
        self.nodes = {
            (i, j): (step * i + (r.randint(-jitter, jitter)),
                     step * j + (r.randint(-jitter, jitter)))
            for i in range(self.columns + 1) for j in range(self.rows + 1)}
        self.cells = []
        split = r.choice((.3, .6, 1))
        for i in range(self.columns):
            for j in range(self.rows):
                a, b, c, d = (self.nodes[i, j], self.nodes[i + 1, j],
                              self.nodes[i + 1, j + 1], self.nodes[i, j + 1])
                u = r.random()
                if u > split:
                    self.cells.append((a, b, c, d))
                elif u < split / 3:
                    center = (step * i + 2, step * j + 2)
                    self.cells.extend([(a, b, center), (b, c, center),
                                       (c, d, center), (d, a, center)])
                elif r.random() < .5:
                    self.cells.extend([(a, b, c), (a, c, d)])
                else:
                    self.cells.extend([(a, b, d), (b, c, d)])

    @staticmethod
    def edges(cells):
        """Directed edges of the boundary with interior to the left."""
        result = set()
        for cell in cells:
            for k in range(len(cell)):
                edge = cell[k - 1], cell[k]
                if edge[::-1] in result:
                    result.remove(edge[::-1])
                else:
                    result.add(edge)
        return result

    def components(self, cells):
        cells, result = list(cells), []
        while cells:
            component = [cells.pop()]
            edges = {(c[k], c[k - 1]) for c in component
                     for k in range(len(c))}
            changed = True
            while changed:
                changed = False
                for cell in list(cells):
                    own = {(cell[k - 1], cell[k]) for k in range(len(cell))}
                    if own & edges:
                        cells.remove(cell)
                        component.append(cell)
                        edges |= {edge[::-1] for edge in own}
                        changed = True
            result.append(component)
        return result

    def rings(self, component):
        """Simple rings of the boundary: outer ones and holes."""
        edges = sorted(self.edges(component))
        outgoing = {}
        for start, end in edges:
            outgoing.setdefault(start, []).append(end)
        outer, holes = [], []
        while edges:
            first = edges[0]
            path, edge = [first[0]], first
            loops = []
            while True:
                edges.remove(edge)
                start, end = edge
                outgoing[start].remove(end)
                if end in path:
                    index = path.index(end)
                    loops.append(path[index:])
                    path = path[:index]
                if not outgoing.get(end):
                    break
                path.append(end)
                edge = end, self.turn(start, end, outgoing[end])
            if path:
                return None
            for loop in loops:
                loop = simplified(loop)
                (outer if area(loop) > 0 else holes).append(pts(*loop))
        return outer, holes

    @staticmethod
    def turn(start, vertex, ends):
        """The first edge clockwise from the one arrived by."""
        from math import atan2, tau
        base = atan2(start[1] - vertex[1], start[0] - vertex[0])

        def angle(end):
            return (base - atan2(end[1] - vertex[1],
                                 end[0] - vertex[0])) % tau or tau

        return min(ends, key=angle)

    def subset(self, other=None):
        r, cells = self.random, self.cells
        if other:
            u = r.random()
            if u < .1:
                return list(other)
            elif u < .3:
                return [c for c in other if r.random() < .7] or other
            elif u < .5:
                return other + [c for c in cells if c not in other
                                and r.random() < .3]
            elif u < .6:
                return [c for c in cells if c not in other] or other
        density = r.choice((.2, .4, .6, .8))
        return [c for c in cells if r.random() < density] or [r.choice(cells)]

    def geometry(self, kind, cells):
        r = self.random
        if kind == 'point':
            return P(*r.choice(r.choice(cells or self.cells)))
        elif kind == 'segment':
            cell = r.choice(cells)
            if r.random() < .5:
                k = r.randrange(len(cell))
                return P(*cell[k - 1]), P(*cell[k])
            return (P(*r.choice(cell)),
                    P(*r.choice(sorted(self.nodes.values()))))
        elif kind == 'multisegment':
            edges = sorted(self.edges(cells))
            edges = r.sample(edges, min(len(edges), r.randint(1, 5)))
            inner = {tuple(sorted((c[k - 1], c[k]))) for c in self.cells
                     for k in range(len(c))}
            edges = ({tuple(sorted(e)) for e in edges}
                     | set(r.sample(sorted(inner), r.randint(0, 2))))
            result = [(P(*a), P(*b)) for a, b in sorted(edges)]
            result = [s if r.random() < .5 else s[::-1] for s in result]
            r.shuffle(result)
            return result
        components = self.components(cells)
        r.shuffle(components)
        polygons = []
        for component in components:
            rings = self.rings(component)
            if rings is None or len(rings[0]) != 1:
                return None
            polygons.append((rings[0][0], rings[1]))
        if kind in ('contour', 'region'):
            result = polygons[0][0]
        elif kind == 'multiregion':
            result = [border for border, _ in polygons]
            if r.random() < .3:
                result = [ring for border, holes in polygons
                          for ring in holes] or result
        elif kind == 'polygon':
            result = polygons[0]
        elif kind == 'multipolygon':
            result = polygons
        return result

    def pair(self, left_kind, right_kind):
        right_cells = self.subset()
        left_cells = self.subset(right_cells)
        left = self.geometry(left_kind, left_cells)
        right = self.geometry(right_kind, right_cells)
        if (left is None or right is None or not valid(left_kind, left)
                or not valid(right_kind, right)):
            return None
        return left, right


def area(loop):
    return sum(loop[k - 1][0] * loop[k][1] - loop[k][0] * loop[k - 1][1]
               for k in range(len(loop)))


def simplified(loop):
    """Without vertices in the middle of edges."""
    result = [loop[k] for k in range(len(loop))
              if area([loop[k - 1], loop[k], loop[(k + 1) % len(loop)]])]
    return result


class Nested:
    """
    Pairs built of concentric shapes placed in few slots of a common border:
    the same, smaller, larger or touching holes, regions in holes etc.
    """
    BORDERS = [sq(0, 0, 12, 12), sq(0, 0, 12, 12), sq(-2, -2, 14, 14),
               sq(0, 0, 12, 6), sq(0, 0, 6, 12), sq(0, 0, 14, 12),
               sq(0, 0, 12, 14), pts((0, 0), (12, 0), (12, 12)),
               pts((0, 0), (12, 0), (14, 6), (12, 12), (0, 12)),
               pts((0, 0), (12, 0), (12, 12), (0, 12), (-2, 6)),
               sq(1, 1, 11, 11), sq(5, 0, 12, 12), sq(0, 0, 7, 12)]
    CENTERS = [(3, 3), (9, 3), (3, 9), (9, 9), (6, 6)]
    SHAPES = [sq(-1, -1, 1, 1), sq(-1, -1, 1, 1), sq(-2, -2, 2, 2),
              pts((-1, 0), (0, -1), (1, 0), (0, 1)),
              pts((-1, -1), (1, -1), (1, 1)), pts((-1, -1), (1, 1), (-1, 1)),
              sq(-2, -1, 2, 1), sq(-1, -1, 2, 1), sq(-1, -1, 0, 1),
              pts((-3, 0), (-1, -1), (1, 0), (-1, 1)),
              pts((-1, -1), (3, 0), (-1, 1)), pts((-1, 1), (0, 3), (1, 1)),
              pts((-1, -1), (0, -3), (1, -1)),
              pts((-2, -2), (2, -2), (0, 0), (2, 2), (-2, 2))]

    def __init__(self, random):
        self.random = r = random
        self.generator = Generator(random)
        self.slots = r.sample(range(len(self.CENTERS)), r.choice((1, 2, 2, 3)))

    def shape(self, slot, index):
        x, y = self.CENTERS[slot]
        return [P(p.x + x, p.y + y) for p in self.SHAPES[index]]

    def state(self, other=None):
        """Border and shapes in slots."""
        r = self.random
        border = (other[0] if other and r.random() < .5
                  else r.randrange(len(self.BORDERS)))
        states = []
        for k, _ in enumerate(self.slots):
            u = r.random()
            if other and u < .5:
                states.append(other[1][k])
            elif u < .65:
                states.append(None)
            else:
                states.append(r.randrange(len(self.SHAPES)))
        return border, states

    def build(self, kind, state):
        r = self.random
        rewrite = self.generator.rewrite_ring
        border = rewrite(list(self.BORDERS[state[0]]))
        inner = [rewrite(self.shape(slot, index))
                 for slot, index in zip(self.slots, state[1])
                 if index is not None]
        r.shuffle(inner)
        if kind == 'point':
            return r.choice(r.choice(inner + [border]))
        elif kind in ('segment', 'multisegment'):
            edges = edges_of(inner + [border])
            if kind == 'segment':
                if r.random() < .5:
                    return r.choice(edges)
                return r.choice(edges)[0], r.choice(edges)[1]
            if r.random() < .4 and inner:
                result = edges_of(r.choice(inner))
            else:
                result = r.sample(edges, min(len(edges), r.randint(1, 5)))
            if r.random() < .3:
                result = result + [(r.choice(edges)[0], r.choice(edges)[1])]
            r.shuffle(result)
            return [s if r.random() < .5 else s[::-1] for s in result]
        elif kind in ('contour', 'region'):
            return r.choice(inner + [border])
        elif kind == 'multiregion':
            if r.random() < .2:
                inner = inner + [rewrite(list(r.choice(self.OUTER)))]
            if r.random() < .15:
                return [border, rewrite(list(r.choice(self.OUTER)))]
            return inner
        elif kind == 'polygon':
            return border, inner
        elif kind == 'multipolygon':
            u = r.random()
            if u < .35:
                result = [(ring, []) for ring in inner]
            else:
                result = [(border, inner)]
                if u < .7:
                    # smaller shapes in holes
                    for slot, index in zip(self.slots, state[1]):
                        if index is not None and r.random() < .6:
                            result.append((rewrite(self.shape(
                                    slot, r.choice((index, 3, 4, 5)))), []))
            if r.random() < .25:
                result.append((rewrite(list(r.choice(self.OUTER))), []))
            r.shuffle(result)
            return result

    OUTER = [sq(12, 4, 16, 8), sq(14, 0, 16, 4), sq(4, -4, 8, 0),
             pts((12, 12), (16, 12), (16, 16)), pts((-6, 2), (0, 6), (-6, 8)),
             sq(20, 0, 22, 2), sq(12, 0, 16, 12), sq(4, 20, 8, 22)]

    def pair(self, left_kind, right_kind):
        state = self.state()
        right = self.build(right_kind, state)
        r = self.random
        if left_kind in PARTS and r.random() < .35:
            # parts of the left one are in holes of the right one,
            # equal to them, near them or outside
            parts = []
            for slot, index in zip(self.slots, state[1]):
                if index is None:
                    if r.random() < .15:
                        parts.append(self.shape(slot, 3))
                elif r.random() < .8:
                    parts.append(self.shape(
                            slot, r.choice((index, 3, 4, 5, 8,
                                            r.randrange(len(self.SHAPES))))))
            if r.random() < .6 or not parts:
                parts.append(list(r.choice(self.OUTER)))
            r.shuffle(parts)
            parts = [self.generator.rewrite_ring(part) for part in parts]
            left = PARTS[left_kind](parts)
        else:
            left = self.build(left_kind, self.state(state))
        return left, right


PARTS = {'contour': lambda parts: parts[0], 'region': lambda parts: parts[0],
         'multisegment': edges_of, 'multiregion': lambda parts: parts,
         'polygon': lambda parts: (parts[0], []),
         'multipolygon': lambda parts: [(part, []) for part in parts]}


class Lines:
    """Pairs of linear geometries with pieces on a common line."""
    DIRECTIONS = [(1, 0), (0, 1), (1, 1), (1, -1), (2, 1), (1, 2), (1, -2)]
    SIDES = [(0, 2), (2, 0), (1, 3), (3, 1), (-1, 2), (2, -1), (3, 2), (-2, 3)]

    def __init__(self, random):
        self.random = r = random
        self.direction = r.choice(self.DIRECTIONS)
        self.sides = r.sample(self.SIDES, 3)
        self.length = r.choice((3, 4, 5, 6, 7))
        self.hub = r.randint(1, self.length - 1)

    def at(self, k, side=None, factor=0):
        dx, dy = self.direction
        sx, sy = side or (0, 0)
        return P(dx * k + sx * factor, dy * k + sy * factor)

    def whisker(self, k):
        r = self.random
        side = r.choice(self.sides)
        low, high = r.choice(((0, 1), (0, -1), (-1, 1), (0, 2), (-2, 0),
                              (1, 2), (0, 1), (0, -1)))
        return self.at(k, side, low), self.at(k, side, high)

    def pieces(self):
        r = self.random
        cuts = sorted(r.sample(range(self.length + 1),
                               r.randint(2, min(self.length + 1, 7))))
        keep = r.choice((.5, .8, .8, 1))
        return [(self.at(a), self.at(b)) for a, b in zip(cuts, cuts[1:])
                if r.random() < keep]

    def geometry(self, kind):
        r = self.random
        ks = range(self.length + 1)
        if kind == 'point':
            return self.at(r.choice(ks), r.choice(self.sides),
                           r.choice((0, 0, 0, 1)))
        elif kind == 'segment':
            if r.random() < .7:
                a, b = r.sample(ks, 2) if r.random() < .6 else (0, self.length)
                return self.at(a), self.at(b)
            return self.whisker(r.choice(ks))
        elif kind == 'multisegment':
            result = self.pieces() if r.random() < .6 else []
            for _ in range(r.choice((0, 0, 1, 2) if result else (2, 2, 3))):
                result.append(self.whisker(self.hub if r.random() < .6
                                           else r.choice(ks)))
            result = [s if r.random() < .5 else s[::-1] for s in result]
            r.shuffle(result)
            return result
        u = r.random()
        a, b = sorted(r.sample(ks, 2))
        side, other = r.choice(self.sides), r.choice(self.sides)
        f, g = r.choice((1, -1, 2)), r.choice((1, -1, 2))
        if u < .3:
            ring = [self.at(a), self.at(b), self.at(b, side, f),
                    self.at(a, other, g)]
        elif u < .5:
            ring = [self.at(a), self.at(b), self.at(r.choice(ks), side, f)]
        elif u < .7:
            c = r.choice(ks)
            ring = [self.at(a), self.at(c, side, f), self.at(b),
                    self.at(c, other, -f)]
        elif u < .85:
            c = r.choice(ks)
            ring = [self.at(c), self.at(a, side, f), self.at(b, other, f)]
        else:
            c, d = r.choice(ks), r.choice(ks)
            ring = [self.at(a), self.at(c, side, f), self.at(b),
                    self.at(d, side, 2 * f), self.at(d, other, 2 * f)]
        ring = Generator(r).rewrite_ring(ring)
        if kind in ('contour', 'region'):
            return ring
        elif kind == 'multiregion':
            return [ring] + ([self.geometry('region')] if r.random() < .4
                             else [])
        elif kind == 'polygon':
            return ring, []
        return [(ring, [])] + ([(self.geometry('region'), [])]
                               if r.random() < .4 else [])

    def pair(self, left_kind, right_kind):
        return self.geometry(left_kind), self.geometry(right_kind)


class Boxes:
    """
    Pairs built of the same nested boxes sides of which are moved a bit.
    """

    def __init__(self, random):
        self.random = r = random
        self.generator = Generator(random)
        columns, rows = r.choice(((2, 1), (1, 2), (2, 2), (2, 1), (3, 1)))
        self.root = 0, 0, 5 * columns + 1, 5 * rows + 1
        self.children = [(5 * i + 1, 5 * j + 1, 5 * i + 5, 5 * j + 5)
                         for i in range(columns) for j in range(rows)]
        r.shuffle(self.children)
        self.children = self.children[:r.choice((1, 2, 2, 3))]
        self.children = [self.moved(c, 2, 0) for c in self.children]
        self.moves = r.choice((.15, .3, .5))

    def moved(self, box, inside, outside):
        r = self.random
        a, b, c, d = box
        result = (a + r.randint(-outside, inside), b + r.randint(-outside,
                                                                 inside),
                  c - r.randint(-outside, inside), d - r.randint(-outside,
                                                                 inside))
        return (result if result[0] < result[2] and result[1] < result[3]
                else box)

    def variant(self, box):
        r = self.random
        u = r.random()
        if u < .35:
            return box
        elif u < .55:
            return self.moved(box, 1, 0)
        elif u < .75:
            return self.moved(box, 0, 1)
        elif u < .85:
            # all sides are moved
            k = r.choice((1, -1))
            return self.moved((box[0] + k, box[1] + k, box[2] - k,
                               box[3] - k), 0, 0)
        return self.moved(box, 1, 1)

    def ring(self, box):
        r = self.random
        a, b, c, d = box
        u = r.random()
        if u < .8:
            result = sq(*box)
        elif u < .9:
            result = sq(*box)
            del result[r.randrange(4)]
        else:
            result = pts((a, b), (c, b), (c + 1, (b + d) // 2), (c, d), (a, d))
        return self.generator.rewrite_ring(result)

    def geometry(self, kind):
        r = self.random
        children = [self.ring(self.variant(c)) for c in self.children
                    if r.random() < .8]
        a, b, c, d = self.root
        u = r.random()
        if u < .5:
            root = self.root
        elif u < .7:
            root = self.variant(self.root)
        elif u < .85:
            # a part of the root, cuts between or through children
            root = r.choice(((a, b, r.randint(3, c), d),
                             (r.randint(0, c - 3), b, c, d),
                             (a, b, c, r.randint(3, d)),
                             (a, r.randint(0, d - 3), c, d)))
        else:
            root = self.moved(self.root, -1, 2)
        root = self.ring(root)
        inner = [self.ring(self.moved(self.variant(child), 1, 0))
                 for child in self.children if r.random() < .5]
        outer = ([self.ring(r.choice(((c, b, c + 3, d), (c, 1, c + 2, 4),
                                      (c + 1, b, c + 3, d),
                                      (1, d, 4, d + 2))))]
                 if r.random() < .25 else [])
        if kind == 'point':
            return r.choice(r.choice(children + [root]))
        elif kind in ('segment', 'multisegment'):
            edges = edges_of(children + [root] + inner)
            if kind == 'segment':
                if r.random() < .4:
                    return r.choice(edges)
                return r.choice(edges)[0], r.choice(edges)[1]
            result = (edges_of(r.choice(children + [root]))
                      if r.random() < .5 else [])
            result += r.sample(edges, min(len(edges), r.randint(1, 4)))
            if r.random() < .3:
                result.append((r.choice(edges)[0], r.choice(edges)[1]))
            r.shuffle(result)
            return [e if r.random() < .5 else e[::-1] for e in result]
        elif kind in ('contour', 'region'):
            return r.choice(children + [root])
        elif kind == 'multiregion':
            result = (children if r.random() < .7 else [root]) + outer
            r.shuffle(result)
            return result
        elif kind == 'polygon':
            return root, children
        u = r.random()
        if u < .5:
            result = [(root, children)]
            if r.random() < .6:
                result += [(ring, []) for ring in inner]
        else:
            result = []
            for child in children:
                box = [min(p.x for p in child), min(p.y for p in child),
                       max(p.x for p in child), max(p.y for p in child)]
                result.append((child, [self.ring(self.moved(box, 1, 0))]
                               if r.random() < .4 else []))
        result += [(ring, []) for ring in outer]
        r.shuffle(result)
        return result

    def pair(self, left_kind, right_kind):
        return self.geometry(left_kind), self.geometry(right_kind)


class Zones:
    """
    Pairs of geometries that consist of independent situations: what happens
    between borders, around places inside of both of them
    and around a place on the side of the smaller one.
    """
    SMALL = sq(0, 0, 24, 24)
    BORDERS = [sq(0, 0, 24, 24), sq(-10, -10, 40, 40), sq(-10, -10, 40, 40),
               pts((-20, -20), (100, -20), (-20, 100)),
               pts((-20, -20), (68, -20), (-20, 68)),
               sq(0, -10, 40, 34), sq(0, 0, 40, 24), sq(-10, -10, 24, 40),
               sq(12, -10, 40, 34), sq(24, 0, 40, 24), sq(24, 20, 40, 40),
               sq(30, 0, 40, 24),
               pts((0, 0), (24, 0), (24, 24), (12, 30), (0, 24)),
               pts((0, 0), (40, 0), (40, 40), (0, 40), (0, 24))]
    CENTERS = [(6, 6), (18, 6), (6, 18), (17, 18)]
    TRIANGLE, SQUARE = pts((-3, -3), (3, -3), (0, 3)), sq(-3, -3, 3, 3)
    TINY = pts((-1, -1), (1, -1), (0, 1))
    # shapes of both geometries around a place inside of both
    INNER = [(TRIANGLE, None), (None, TRIANGLE), (SQUARE, SQUARE),
             (TRIANGLE, TRIANGLE), (TRIANGLE, TRIANGLE), (SQUARE, TINY),
             (TINY, TRIANGLE), (TRIANGLE, TINY),
             (pts((-1, -1), (1, -1), (0, 3)), SQUARE),
             (TRIANGLE, pts((-1, -1), (1, -1), (0, 3))),
             (pts((-2, -3), (2, -3), (0, 0)), SQUARE),
             (TRIANGLE, pts((-3, -3), (3, -3), (0, 0))),
             (pts((-3, -3), (3, -3), (0, 0)), TRIANGLE),
             (TRIANGLE, pts((-1, -2), (5, -2), (2, 4))),
             (pts((-4, -2), (0, 0), (-4, 2)), pts((4, -2), (0, 0), (4, 2))),
             (pts((-4, -2), (0, 0), (-4, 2)), pts((-2, -2), (4, -2), (4, 2))),
             (pts((0, -2), (0, 2), (-3, 0)), pts((0, -2), (0, 2), (3, 0))),
             (pts((0, -2), (0, 2), (-3, 0)), pts((0, -1), (0, 3), (3, 0))),
             (pts((-4, -1), (-2, -1), (-3, 1)), pts((4, -1), (2, -1), (3, 1)))]
    # ones around a place on the right side of the smaller border
    EDGE = [(None, pts((2, -1), (4, 0), (2, 1))),
            (None, pts((0, 0), (3, -1), (3, 1))),
            (None, pts((0, -2), (0, 2), (3, 0))),
            (None, pts((-2, -1), (3, 0), (-2, 1))),
            (None, pts((0, 0), (-3, -1), (-3, 1))),
            (None, pts((0, -2), (0, 2), (-3, 0))),
            (pts((0, 0), (-3, -1), (-3, 1)), None),
            (pts((0, 0), (-3, -1), (-3, 1)), pts((0, 0), (-3, -1), (-3, 1))),
            (pts((0, 0), (-3, -1), (-3, 1)), pts((0, 0), (3, -1), (3, 1))),
            (pts((0, 0), (-3, -1), (-3, 1)), pts((2, -1), (4, 0), (2, 1))),
            (pts((-1, -1), (-1, 1), (-3, 0)), pts((0, -2), (0, 2), (-3, 0)))]

    def __init__(self, random):
        self.random = random
        self.generator = Generator(random)

    def placed(self, shapes, center):
        r = self.random
        x, y = center
        signs = r.choice((1, -1)), r.choice((1, -1)), r.random() < .5
        result = []
        for shape in shapes:
            if shape is not None:
                shape = [P(p.x * signs[0], p.y * signs[1]) for p in shape]
                if signs[2]:
                    shape = [P(p.y, p.x) for p in shape]
                shape = [P(p.x + x, p.y + y) for p in shape]
            result.append(shape)
        return result

    def pair(self, left_kind, right_kind):
        r = self.random
        borders = list(self.SMALL), list(r.choice(self.BORDERS))
        shapes = [], []
        centers = r.sample(self.CENTERS, r.choice((0, 1, 1, 2, 2, 3)))
        chosen = [self.placed(r.choice(self.INNER), center)
                  for center in centers]
        if r.random() < .55:
            chosen.append([shape and [P(p.x + 24, p.y + 12) for p in shape]
                           for shape in r.choice(self.EDGE)])
        for pair_ in chosen:
            for container, shape in zip(shapes, pair_):
                if shape is not None:
                    container.append(shape)
        r.shuffle(shapes[0])
        r.shuffle(shapes[1])
        order = (0, 1) if r.random() < .5 else (1, 0)
        left, right = [self.build(kind, borders[k], shapes[k], shapes[1 - k])
                       for kind, k in zip((left_kind, right_kind), order)]
        if left is None or right is None:
            return None
        code = r.randrange(8)

        def turn(p):
            x, y = p.x, p.y
            if code & 1:
                x, y = y, x
            return P(24 - x if code & 2 else x, 24 - y if code & 4 else y)

        return map_points(turn, left), map_points(turn, right)

    def build(self, kind, border, shapes, others):
        r = self.random
        rewrite = self.generator.rewrite_ring
        border, shapes, others = rewrite(border), [
            rewrite(list(shape)) for shape in shapes], [
            rewrite(list(shape)) for shape in others]
        rings = [border] + shapes
        if kind == 'point':
            return r.choice(r.choice(rings))
        elif kind in ('segment', 'multisegment'):
            edges = edges_of(rings)
            if kind == 'segment':
                return (r.choice(edges) if r.random() < .5
                        else (r.choice(edges)[0], r.choice(edges)[1]))
            u = r.random()
            result = (edges_of(shapes) if u < .4 and shapes
                      else edges_of(r.choice(rings)) if u < .7
                      else r.sample(edges, min(len(edges),
                                               r.randint(1, 4))))
            result = [s if r.random() < .5 else s[::-1] for s in result]
            r.shuffle(result)
            return result
        elif kind in ('contour', 'region'):
            return border if r.random() < .5 or not shapes else shapes[0]
        elif kind == 'multiregion':
            if r.random() < .6 and shapes:
                return shapes
            result = [border] + shapes[:1]
            r.shuffle(result)
            return result
        elif kind == 'polygon':
            return border, shapes
        u = r.random()
        if u < .25 and shapes:
            return [(shape, []) for shape in shapes]
        result = [(border, shapes)]
        if u < .75:
            # islands in holes
            result += [(shape, []) for shape in others
                       if r.random() < .7]
        r.shuffle(result)
        return result


def aligned(random, left_kind, right_kind, max_points):
    """Pair made separately, sides of bounding boxes are on the same lines."""
    geometries = []
    for index, kind in enumerate((left_kind, right_kind)):
        _, *made = pair(random, left_kind, right_kind, max_points)
        geometries.append(made[index])
    left, right = geometries
    offset = []
    for values, others in (([p.x for p in points_of(left)],
                            [p.x for p in points_of(right)]),
                           ([p.y for p in points_of(left)],
                            [p.y for p in points_of(right)])):
        low, high = min(others) - min(values), max(others) - max(values)
        offset.append(random.choice((
            low, high, low + random.randint(0, 3), high - random.randint(0, 3),
            min(others) - max(values), max(others) - min(values),
            min(others) - max(values) - random.choice((0, 0, 0, 1)),
            max(others) - min(values) - random.choice((0, 0, 0, -1)))))
    dx, dy = offset
    return map_points(lambda p: P(p.x + dx, p.y + dy), left), right


def pair(random, left_kind, right_kind, max_points):
    """Pair of valid geometries made by one of the generators."""
    weights = {'generic': 3, 'arrangement': 3, 'nested': 3, 'boxes': 4,
               'lines': 1, 'aligned': 2, 'zones': 4}
    if left_kind in LINEAR_KINDS or right_kind in LINEAR_KINDS:
        weights['lines'] = 3
    if left_kind in LINEAR_KINDS and right_kind in LINEAR_KINDS:
        weights.update(lines=6, nested=1, arrangement=2, boxes=2, zones=1)
    style = random.choices(list(weights), list(weights.values()))[0]
    retries = (3 if style == 'zones' and right_kind in AREAL
               and random.random() < .8 else 0)
    while True:
        if style == 'generic':
            result = Generator(random).pair(left_kind, right_kind, max_points)
        elif style == 'arrangement':
            result = Arrangement(random).pair(left_kind, right_kind)
        elif style == 'nested':
            result = Nested(random).pair(left_kind, right_kind)
        elif style == 'boxes':
            result = Boxes(random).pair(left_kind, right_kind)
        elif style == 'zones':
            result = Zones(random).pair(left_kind, right_kind)
        elif style == 'aligned':
            result = aligned(random, left_kind, right_kind, max_points)
        else:
            result = Lines(random).pair(left_kind, right_kind)
        if result is None:
            continue
        left, right = result
        if (len(points_of(left)) + len(points_of(right)) <= max_points
                and valid(left_kind, left) and valid(right_kind, right)):
            if retries and reference(left_kind, left, right_kind, right) in (
                    'OVERLAP', 'CROSS'):
                # lots of situations lead to it
                retries -= 1
                continue
            return style, left, right


LINEAR_KINDS = 'segment', 'multisegment', 'contour'
