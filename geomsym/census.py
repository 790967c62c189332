"""
Census of structures: pairs of small geometries which differ in how their
parts are placed relative to each other.

``features`` of a pair are computed with the reference only, they don't depend
on the code under test.  ``python3-vt -m geomsym.census grow ...`` searches for
pairs having new features by generating and changing them; the found ones are
kept in ``census`` directory, jobs are started at them (``specs.py``).
"""
import json
import os
import sys
import time
from collections import Counter
from functools import cmp_to_key
from itertools import combinations
from random import Random
from zlib import crc32

from . import oracle as o
from .model import (AREAL, FUNCTIONS, LINEAR, map_points, points_of, reference,
                    to_areal, to_linear, valid)
from .oracle import P
from .shapes import Generator, edges_of, pair, rings_of, sq

DIRECTORY = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'census')


def components(kind, g):
    """Simplest parts with their roles."""
    if kind == 'point':
        return [('p', 'point', g)]
    elif kind == 'segment':
        return [('s', 'segment', g)]
    elif kind == 'multisegment':
        return [('s', 'segment', s) for s in g]
    elif kind == 'contour':
        return [('c', 'contour', g)]
    elif kind == 'region':
        return [('b', 'region', g)]
    elif kind == 'multiregion':
        return [('b', 'region', r) for r in g]
    elif kind == 'polygon':
        return [('b', 'region', g[0])] + [('h', 'region', h) for h in g[1]]
    return [c for polygon in g for c in components('polygon', polygon)]


class Shape:
    """Geometry with things required to compare it with other ones."""

    def __init__(self, kind, g):
        self.kind = kind
        self.linear = to_linear(kind, g) if kind in LINEAR else None
        self.areal = to_areal(kind, g) if kind in AREAL else None
        self.g = g

    def edges(self):
        return (self.linear.edges if self.linear else
                self.areal.edges if self.areal else [])


def related(left, right):
    if left.kind == 'point':
        return (o.locate_in_linear(right.linear, left.g) if right.linear
                else o.locate_in_areal(right.areal, left.g))
    elif left.linear:
        return (o.linear_in_linear(left.linear, right.linear)
                if right.linear
                else o.linear_in_areal(left.linear, right.areal))
    return o.areal_in_areal(left.areal, right.areal)


NOTHING = 'DISJOINT', 'EXTERIOR'


def capped(values, limit=2):
    return tuple(sorted((v, min(c, limit))
                        for v, c in Counter(values).items()))


def touching(kind, parts):
    """Parts which share points with siblings."""
    result = [False] * len(parts)
    if kind in ('multiregion', 'polygon', 'multipolygon', 'multisegment'):
        edges = [edges_of([g] if isinstance(g[0], P) else g)
                 if role != 's' else [g] for role, _, g in parts]
        for i, j in combinations(range(len(parts)), 2):
            if any(o.on_segment(a, b, p) for a, b in edges[i]
                   for e in edges[j] for p in e) or any(
                    o.on_segment(a, b, p) for a, b in edges[j]
                    for e in edges[i] for p in e):
                result[i] = result[j] = True
    return result


def rays_at(shape, p):
    """Endpoints of pieces of edges emanating from the point."""
    result = []
    for a, b in shape.edges():
        if o.eq(a, p):
            result.append((b, 'v'))
        elif o.eq(b, p):
            result.append((a, 'v'))
        elif o.in_open_segment(a, b, p):
            result.extend([(a, 'e'), (b, 'e')])
    return result


def word(left, right, p):
    """How edges of both geometries go around their common point."""
    rays = []
    for label, shape in (('L', left), ('R', right)):
        for q, how in rays_at(shape, p):
            for ray in rays:
                if o.same_direction(p, ray[0], q):
                    ray[1] += label + how
                    break
            else:
                rays.append([q, label + how])

    def half(q):
        return q.y < p.y or (q.y == p.y and q.x < p.x)

    rays.sort(key=cmp_to_key(
            lambda a, b: (half(a[0]) - half(b[0])
                          or -o.orient(p, a[0], b[0]))))
    labels = [ray[1] for ray in rays]
    # sectors of areal geometries
    for shape in (left, right):
        if shape.areal:
            for k, ray in enumerate(rays):
                location, interior_to_left = o.germ_location(shape.areal, p,
                                                             ray[0])
                labels[k] += (str(int(interior_to_left))
                              if location == o.BOUNDARY else location[0])
    if shape.kind != 'point' and len(labels) > 1:
        straight = [bool(o.orient(rays[k - 1][0], p, rays[k][0]) == 0)
                    for k in range(len(rays))]
        if any(straight) and len(rays) <= 3:
            labels.append('straight')
    size = len(labels)
    return min(tuple(labels[(k + step * i) % size] for i in range(size))
               for k in range(size) for step in (1, -1)) if size else ()


def features(left_kind, left, right_kind, right):
    whole_left, whole_right = Shape(left_kind, left), Shape(right_kind, right)
    relation = related(whole_left, whole_right)
    lefts, rights = components(left_kind, left), components(right_kind, right)
    left_shapes = [Shape(kind, g) for _, kind, g in lefts]
    right_shapes = [Shape(kind, g) for _, kind, g in rights]
    table = [[related(a, b) for b in right_shapes] for a in left_shapes]
    left_touching = touching(left_kind, lefts)
    right_touching = touching(right_kind, rights)
    left_rows = [
        ('L', lefts[i][0], left_touching[i],
         related(left_shapes[i], whole_right) if len(lefts) > 1 else '',
         capped((rights[j][0], table[i][j]) for j in range(len(rights))
                if table[i][j] not in NOTHING))
        for i in range(len(lefts))]
    right_rows = [
        ('R', rights[j][0], right_touching[j],
         related(whole_left, right_shapes[j])
         if len(rights) > 1 and (left_kind in AREAL or not right_shapes[j].linear
                                 or whole_left.linear or left_kind == 'point')
         else '',
         capped((lefts[i][0], table[i][j]) for i in range(len(lefts))
                if table[i][j] not in NOTHING))
        for j in range(len(rights))]
    rows = sorted(set(left_rows)) + sorted(set(right_rows))
    result = {('row', relation, row) for row in rows}
    result.update(('rows', relation, a, b) for a, b in combinations(rows, 2))
    if len(left_rows) + len(right_rows) <= 6:
        result.add(('table', relation, capped(left_rows, 3),
                    capped(right_rows, 3)))
    if left_kind != 'point':
        words, seen = set(), set()
        for p in points_of(left) + points_of(right):
            if (p.x, p.y) not in seen:
                seen.add((p.x, p.y))
                w = word(whole_left, whole_right, p)
                text = ''.join(w)
                if 'L' in text and 'R' in text:
                    words.add(w)
        if any(o.proper_crossing(a, b, c, d) for a, b in whole_left.edges()
               for c, d in whole_right.edges()):
            words.add(('proper',))
        if all(any(o.eq(p, q) for q in points_of(right))
               for p in points_of(left)):
            words.add(('vertices', all(any(o.eq(p, q) for p in points_of(left))
                                       for q in points_of(right))))
        result.update(('word', relation, w) for w in words)
        result.update(('words', a, b)
                      for a, b in combinations(sorted(words), 2)
                      if len(a) + len(b) <= 12)
    return {crc32(repr(f).encode()) * 8 + TYPES.index(f[0]) for f in result}


# from the most important ones
TYPES = 'row', 'word', 'table', 'rows', 'words'


class Mutator:
    def __init__(self, random):
        self.random, self.generator = random, Generator(random)

    def target(self, other):
        """Point which has something to do with other geometry."""
        r = self.random
        points = points_of(other)
        u = r.random()
        if u < .5:
            return r.choice(points)
        edges = edges_of(other)
        if u < .8 and edges:
            a, b = r.choice(edges)
            if (a.x + b.x) % 2 == 0 == (a.y + b.y) % 2:
                return P((a.x + b.x) // 2, (a.y + b.y) // 2)
        p = r.choice(points)
        return P(p.x + r.randint(-3, 3), p.y + r.randint(-3, 3))

    def ring(self, g, other):
        """Ring similar to a ring of one of geometries."""
        r = self.random
        rings = [ring for ring in rings_of(g) + rings_of(other)
                 if len(ring) > 2]
        if not rings or r.random() < .15:
            p = self.target(other)
            a, b = r.randint(1, 4), r.randint(1, 4)
            return sq(p.x, p.y, p.x + a, p.y + b)
        ring = list(r.choice(rings))
        u = r.random()
        if u < .3:
            pass
        elif u < .5:
            p, q = r.choice(ring), self.target(other)
            ring = [P(v.x + q.x - p.x, v.y + q.y - p.y) for v in ring]
        elif u < .65:
            xs, ys = [v.x for v in ring], [v.y for v in ring]
            k = r.choice((1, -1))
            mx, my = (min(xs) + max(xs)) / 2, (min(ys) + max(ys)) / 2
            ring = [P(v.x + (k if v.x < mx else -k if v.x > mx else 0),
                      v.y + (k if v.y < my else -k if v.y > my else 0))
                    for v in ring]
        elif u < .8:
            ring[r.randrange(len(ring))] = self.target(other)
        elif u < .87:
            xs, ys = [v.x for v in ring], [v.y for v in ring]
            ring = sq(min(xs), min(ys), max(xs), max(ys))
        elif u < .92:
            # the same vertices, other edges
            i, j = r.randrange(len(ring)), r.randrange(len(ring))
            ring[i], ring[j] = ring[j], ring[i]
        elif len(ring) > 3:
            del ring[r.randrange(len(ring))]
        return self.generator.rewrite_ring(ring)

    def __call__(self, kind, g, other):
        r = self.random
        u = r.random()
        points = points_of(g)
        if kind == 'point':
            return self.target(other)
        if u < .3 or kind == 'segment':
            # a vertex
            p, q = r.choice(points), self.target(other)
            both = r.random() < .5
            hit = r.randrange(sum(v.x == p.x and v.y == p.y for v in points))
            counter = iter(range(len(points)))

            def move(v):
                if v.x == p.x and v.y == p.y:
                    if both or next(counter) == hit:
                        return q
                return v

            return map_points(move, g)
        elif u < .4 and kind not in ('contour', 'region'):
            # moves a part
            p, q = r.choice(points), self.target(other)
            dx, dy = q.x - p.x, q.y - p.y
            if r.random() < .5:
                dx, dy = r.randint(-2, 2), r.randint(-2, 2)
            part = r.choice(rings_of(g))
            ids = set(map(id, part))
            return map_points(lambda v: P(v.x + dx, v.y + dy)
                              if id(v) in ids else v, g)
        elif kind in ('contour', 'region'):
            if u < .7:
                return self.ring(g, other)
            k = r.randrange(len(g))
            return g[:k] + [self.target(other)] + g[k:]
        elif kind == 'multisegment':
            result = list(g)
            if u < .6 and len(result) > 1:
                del result[r.randrange(len(result))]
            elif u < .8:
                result.append((self.target(other), self.target(g)
                               if r.random() < .5 else self.target(other)))
            elif u < .9 and edges_of(other):
                result.append(r.choice(edges_of(other)))
            else:
                k = r.randrange(len(result))
                a, b = result[k]
                if (a.x + b.x) % 2 == 0 == (a.y + b.y) % 2:
                    c = P((a.x + b.x) // 2, (a.y + b.y) // 2)
                    result[k:k + 1] = [(a, c), (c, b)]
                else:
                    result.append((self.target(other), self.target(other)))
            return result
        elif kind == 'multiregion':
            result = list(g)
            if u < .6 and len(result) > 1:
                del result[r.randrange(len(result))]
            elif u < .85:
                result.append(self.ring(g, other))
            else:
                result[r.randrange(len(result))] = self.ring(g, other)
            return result
        elif kind == 'polygon':
            border, holes = g
            holes = list(holes)
            if u < .5 and holes:
                del holes[r.randrange(len(holes))]
            elif u < .8 or not holes:
                holes.append(self.ring(g, other))
            elif u < .93:
                holes[r.randrange(len(holes))] = self.ring(g, other)
            else:
                border = self.ring(g, other)
            return border, holes
        result = list(g)
        if u < .5 and len(result) > 1:
            del result[r.randrange(len(result))]
        elif u < .7:
            result.append((self.ring(g, other), []))
        else:
            k = r.randrange(len(result))
            result[k] = self('polygon', result[k], other)
        return result


def normalized(left, right):
    """Moved to the origin, coordinates are divided by common factor."""
    points = points_of(left) + points_of(right)
    x, y = min(p.x for p in points), min(p.y for p in points)
    return [map_points(lambda p: P(p.x - x, p.y - y), g)
            for g in (left, right)]


def copied(g):
    return map_points(lambda p: P(p.x, p.y), g)


def grow(fn, seconds, seed, max_points=24):
    left_kind, right_kind = fn.split('_in_')
    random = Random(f'{seed} {fn}')
    mutator = Mutator(random)
    corpus = load(fn)
    best = {}  # feature -> number of points and entry

    def consider(left, right):
        size = len(points_of(left)) + len(points_of(right))
        entry = None
        for feature in features(left_kind, left, right_kind, right):
            known = best.get(feature)
            if known is None or known[0] > size:
                if entry is None:
                    entry = normalized(left, right)
                best[feature] = size, entry
                if known is None:
                    entries.append(entry)
        return entry is not None

    entries = []
    for left, right in corpus:
        consider(left, right)
    stop_at, tried, kept = time.time() + seconds, 0, 0
    while time.time() < stop_at:
        tried += 1
        if not entries or random.random() < .3:
            _, left, right = pair(random, left_kind, right_kind, max_points)
        else:
            left, right = random.choice(
                    entries if random.random() < .5
                    else entries[-max(20, len(entries) // 10):])
            left, right = copied(left), copied(right)
            for _ in range(random.choice((1, 1, 1, 2, 3))):
                if random.random() < .5:
                    left = mutator(left_kind, left, right)
                else:
                    right = mutator(right_kind, right, left)
            points = points_of(left) + points_of(right)
            if len(points) > max_points or any(
                    abs(v) > 40 for p in points for v in (p.x, p.y)):
                continue
            if not valid(left_kind, left) or not valid(right_kind, right):
                continue
        kept += consider(left, right)
    unique = {}
    for feature, (_, entry) in best.items():
        unique.setdefault(id(entry), (entry, set()))[1].add(feature)
    return tried, kept, [(entry, sorted(found))
                         for entry, found in unique.values()]


def encoded(g):
    if isinstance(g, P):
        return [g.x, g.y]
    elif isinstance(g, tuple) and isinstance(g[0], P):
        return [encoded(p) for p in g]
    return [encoded(x) for x in g]


def decoded(kind, data):
    point = lambda v: P(*v)
    ring = lambda v: [P(*x) for x in v]
    polygon = lambda v: (ring(v[0]), [ring(h) for h in v[1]])
    return {'point': point, 'segment': lambda v: (P(*v[0]), P(*v[1])),
            'multisegment': lambda v: [(P(*a), P(*b)) for a, b in v],
            'contour': ring, 'region': ring,
            'multiregion': lambda v: [ring(x) for x in v],
            'polygon': polygon,
            'multipolygon': lambda v: [polygon(x) for x in v]}[kind](data)


LOADED = {}


def load(fn):
    if fn not in LOADED:
        left_kind, right_kind = fn.split('_in_')
        path = os.path.join(DIRECTORY, f'{fn}.jsonl')
        result = []
        if os.path.exists(path):
            with open(path) as file:
                for line in file:
                    left, right = json.loads(line)
                    result.append((decoded(left_kind, left),
                                   decoded(right_kind, right)))
        LOADED[fn] = result
    return LOADED[fn]


MAPS = [lambda x, y: (x, y), lambda x, y: (y, x), lambda x, y: (-x, y),
        lambda x, y: (x, -y), lambda x, y: (-x, -y), lambda x, y: (-y, -x),
        lambda x, y: (-y, x), lambda x, y: (y, -x),
        lambda x, y: (2 * x + y, y), lambda x, y: (x, y - x),
        lambda x, y: (x - 2 * y, 2 * x + y), lambda x, y: (x + y, y - x)]


def redrawn(random, left, right):
    """The same structure with another notation and directions."""
    transform = random.choice(MAPS)

    def move(p):
        return P(*transform(p.x, p.y))

    generator = Generator(random)

    def rewritten(g):
        if isinstance(g, P):
            return move(g)
        elif isinstance(g, tuple) and isinstance(g[0], P):
            g = tuple(map(move, g))
            return g if random.random() < .5 else g[::-1]
        elif isinstance(g, tuple):
            return tuple(map(rewritten, g))
        elif g and isinstance(g[0], P):
            return generator.rewrite_ring(list(map(move, g)))
        g = list(map(rewritten, g))
        random.shuffle(g)
        return g

    return rewritten(left), rewritten(right)


def selected(entries, limit):
    """Greedy cover of features, small pairs first."""
    entries = sorted(((entry, set(found)) for entry, found in entries),
                     key=lambda e: (sum(len(points_of(g)) for g in e[0]),
                                    -len(e[1])))
    result, taken, covered = [], set(), set()
    for level in range(len(TYPES)):
        for index, (entry, found) in enumerate(entries):
            if len(result) >= limit:
                return result
            if index not in taken and any(f % 8 == level and f not in covered
                                          for f in found):
                covered |= found
                taken.add(index)
                result.append(entry)
    return result


def save(fn, entries):
    os.makedirs(DIRECTORY, exist_ok=True)
    with open(os.path.join(DIRECTORY, f'{fn}.jsonl'), 'w') as file:
        for left, right in entries:
            file.write(json.dumps([encoded(left), encoded(right)],
                                  separators=(',', ':')) + '\n')


def _grown(argument):
    fn, seconds, seed = argument
    return grow(fn, seconds, seed)


def main(arguments):
    """grow SECONDS SEED LIMIT [FUNCTION...]"""
    import multiprocessing
    seconds, seed, limit = int(arguments[0]), arguments[1], int(arguments[2])
    with multiprocessing.Pool() as pool:
        for fn in arguments[3:] or FUNCTIONS:
            parts = pool.map(_grown, [(fn, seconds, f'{seed} {k}')
                                      for k in range(os.cpu_count())])
            best = {}
            for _, _, entries in parts:
                for entry, found in entries:
                    size = sum(len(points_of(g)) for g in entry)
                    for feature in found:
                        if feature not in best or best[feature][0] > size:
                            best[feature] = size, entry
            unique = {}
            for feature, (_, entry) in best.items():
                unique.setdefault(id(entry), (entry, set()))[1].add(feature)
            entries = selected(unique.values(), limit)
            save(fn, entries)
            print(fn, 'tried', sum(p[0] for p in parts), 'features',
                  len(best), 'entries', len(unique), 'kept', len(entries),
                  flush=True)


if __name__ == '__main__':
    main(sys.argv[2:])
