"""
Pairs of geometries where the left one is the right one (or some parts of it)
written down in another way.

Moving a vertex makes them differ in the slightest way possible,
what shortcuts for (almost) equal geometries have to notice.
"""
from .model import points_of, valid
from .shapes import edges_of, pair, rings_of


def rewritten_ring(random, ring):
    k = random.randrange(len(ring))
    ring = ring[k:] + ring[:k]
    return ring if random.random() < .5 else ring[::-1]


def reconnected_ring(random, ring):
    """Another simple ring with the same vertices (if there is one)."""
    for _ in range(30):
        result = shuffled(random, ring)
        k = result.index(ring[0])
        result = result[k:] + result[:k]
        if (result != ring and result[1:] != ring[:0:-1]
                and valid('region', result)):
            return result
    return ring


def shuffled(random, values):
    values = list(values)
    random.shuffle(values)
    return values


def part_of(random, kind, other_kind, other):
    """Geometry of the kind made of parts of the other one."""
    if kind == 'point':
        return random.choice(points_of(other))
    edges, rings = edges_of(other), rings_of(other)
    if kind == 'segment':
        a, b = random.choice(edges)
        return (a, b) if random.random() < .5 else (b, a)
    elif kind == 'multisegment':
        u = random.random()
        if u < .5:
            ring = random.choice(rings)
            if random.random() < .15 and len(ring) > 3:
                ring = reconnected_ring(random, ring)
            edges = [(ring[i - 1], ring[i]) for i in range(len(ring))
                     if i or len(ring) > 2]
        elif u < .75:
            edges = random.sample(edges, random.randint(1, len(edges)))
        if len(edges) > 1 and random.random() < .2:
            edges = shuffled(random, edges)[1:]
        return shuffled(random, [(a, b) if random.random() < .5 else (b, a)
                                 for a, b in edges])
    rings = [ring for ring in rings if len(ring) > 2]
    if not rings:
        return None
    if random.random() < .15:
        k = random.randrange(len(rings))
        rings[k] = reconnected_ring(random, rings[k])
    if kind in ('contour', 'region'):
        return rewritten_ring(random, random.choice(rings))
    elif kind == 'multiregion':
        if random.random() < .3:
            rings = random.sample(rings, random.randint(1, len(rings)))
        elif other_kind in ('polygon', 'multipolygon') and (
                random.random() < .6):
            polygons = [other] if other_kind == 'polygon' else other
            rings = (random.choice(polygons)[1] if random.random() < .5
                     else [border for border, _ in polygons])
        return shuffled(random, [rewritten_ring(random, ring)
                                 for ring in rings])
    polygons = ([(ring, []) for ring in rings]
                + ([other] if other_kind == 'polygon'
                   else other if other_kind == 'multipolygon' else []) * 2)
    polygons = [(rewritten_ring(random, border),
                 [rewritten_ring(random, hole)
                  for hole in shuffled(random, holes)][
                         :None if random.random() < .8
                         else random.randint(0, len(holes))])
                for border, holes in polygons]
    if kind == 'polygon':
        return random.choice(polygons)
    u = random.random()
    if u < .6 and other_kind in ('multipolygon', 'multiregion'):
        polygons = shuffled(random, polygons[-len(other):])
    else:
        polygons = random.sample(polygons, random.randint(1, min(3, len(polygons))))
    return polygons


def twins(random, left_kind, right_kind, max_points):
    while True:
        _, other, right = pair(random,
                               left_kind if left_kind == right_kind
                               else random.choice(('segment', 'region')),
                               right_kind, max_points)
        left = part_of(random, left_kind, right_kind, right)
        if (left and valid(left_kind, left)
                and len(points_of(left)) + len(points_of(right))
                <= max_points):
            return left, right


def moved_vertex(random, left, right):
    """Index of the point to be moved."""
    left_size = len(points_of(left))
    size = left_size + len(points_of(right))
    return (random.randrange(left_size) if random.random() < .6
            else random.randrange(left_size, size))
