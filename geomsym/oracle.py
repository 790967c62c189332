"""
Reference semantics of locations and relations of planar geometries.

Written from the documented meaning of ``Location`` and ``Relation`` (point-set
definitions), independently of the code under test: no sweep, no constructed
intersection points, no calls into ``orient`` or into ``ground`` predicates.
Everything is decided by *germs*: the behaviour of one geometry right next to
a vertex of either geometry or next to a proper crossing.  All predicates are
orientations of input points (degree 2) or comparisons of input coordinates,
so the same code runs over rationals and over the symbolic numbers
of :mod:`geomsym.sym`.

Geometries are described here by plain structures:

* ``Linear``: list of segments ``(P, Q)``;
* ``Areal``: list of rings ``(points, is_hole)``,
  interior is given by the even-odd rule.
"""
EXTERIOR, BOUNDARY, INTERIOR = 'EXTERIOR', 'BOUNDARY', 'INTERIOR'


class P:
    __slots__ = 'x', 'y'

    def __init__(self, x, y):
        self.x, self.y = x, y

    def __repr__(self):
        return f'({self.x}, {self.y})'


def sign(v):
    return 1 if v > 0 else (-1 if v < 0 else 0)


def orient(a, b, c):
    """1 if ``c`` is to the left of the line from ``a`` to ``b``."""
    if hasattr(a.x, 'engine'):
        return a.x.engine.orientation(a, b, c)
    return sign((b.x - a.x) * (c.y - a.y) - (b.y - a.y) * (c.x - a.x))


def eq(a, b):
    return a is b or (a.x == b.x and a.y == b.y)


def lt(a, b):
    return a.x < b.x or (a.x == b.x and a.y < b.y)


def strictly_between(a, b, p):
    """For ``p`` on the line through ``a`` and ``b``."""
    if not lt(a, b):
        a, b = b, a
    return lt(a, p) and lt(p, b)


def in_open_segment(a, b, p):
    return orient(a, b, p) == 0 and strictly_between(a, b, p)


def on_segment(a, b, p):
    return eq(a, p) or eq(b, p) or in_open_segment(a, b, p)


def same_direction(p, a, b):
    """Do the rays from ``p`` to ``a`` and from ``p`` to ``b`` coincide."""
    if orient(p, a, b) != 0:
        return False
    return lt(p, a) == lt(p, b)


def proper_crossing(a, b, c, d):
    return (orient(a, b, c) * orient(a, b, d) < 0
            and orient(c, d, a) * orient(c, d, b) < 0)


class Linear:
    def __init__(self, segments):
        self.segments = list(segments)
        self.edges = self.segments

    def rays(self, p):
        """Endpoints of segments parts emanating from ``p``."""
        result = []
        for a, b in self.segments:
            if eq(a, p):
                result.append(b)
            elif eq(b, p):
                result.append(a)
            elif in_open_segment(a, b, p):
                result.append(a)
                result.append(b)
        return result

    def vertices(self):
        return [v for s in self.segments for v in s]


class Areal:
    def __init__(self, rings):
        # vertices are stored counterclockwise for borders
        # and clockwise for holes, i.e. interior is always to the left
        self.rings = []
        for points, is_hole in rings:
            points = list(points)
            if (ring_orientation(points) > 0) == is_hole:
                points = points[::-1]
            self.rings.append(points)
        self.edges = [(ring[i - 1], ring[i])
                      for ring in self.rings
                      for i in range(len(ring))]
        self.linear = Linear(self.edges)

    def vertices(self):
        return [v for ring in self.rings for v in ring]


def ring_orientation(points):
    index = 0
    for i in range(1, len(points)):
        if lt(points[i], points[index]):
            index = i
    return orient(points[index - 1], points[index],
                  points[(index + 1) % len(points)])


def locate_in_ring(ring, p):
    """Location of point relative to the (bounded side of the) ring."""
    inside = False
    for i in range(len(ring)):
        a, b = ring[i - 1], ring[i]
        if on_segment(a, b, p):
            return BOUNDARY
        # half-open rule, crossing of the edge with horizontal ray to +infinity
        a_above, b_above = a.y > p.y, b.y > p.y
        if a_above != b_above:
            o = orient(a, b, p)
            if (o > 0) == b_above:
                inside = not inside
    return INTERIOR if inside else EXTERIOR


def locate_in_areal(areal, p):
    parity = False
    for ring in areal.rings:
        location = locate_in_ring(ring, p)
        if location == BOUNDARY:
            return BOUNDARY
        if location == INTERIOR:
            parity = not parity
    return INTERIOR if parity else EXTERIOR


def locate_in_linear(linear, p):
    return (BOUNDARY
            if any(on_segment(a, b, p) for a, b in linear.segments)
            else EXTERIOR)


def _germ_in_cone(u, p, v, q):
    """
    Side of direction ``pq`` relative to the path ``u -> p -> v``:
    1 if strictly to the left, -1 if strictly to the right,
    0 if along one of the rays.
    """
    if same_direction(p, u, q) or same_direction(p, v, q):
        return 0
    turn = orient(u, p, v)
    left_of_first, left_of_second = orient(u, p, q), orient(p, v, q)
    if turn > 0:
        return 1 if left_of_first > 0 and left_of_second > 0 else -1
    elif turn < 0:
        return 1 if left_of_first > 0 or left_of_second > 0 else -1
    else:
        return left_of_first


def germ_location(areal, p, q):
    """
    Location of points right next to ``p`` in the direction to ``q``
    relative to ``areal``: pair of location and,
    if it is boundary, of the boolean telling
    if the interior is to the left of ``pq``.
    """
    parity = False
    for ring in areal.rings:
        size = len(ring)
        handled = False
        for i in range(size):
            if eq(ring[i], p):
                u, v = ring[i - 1], ring[(i + 1) % size]
                if same_direction(p, v, q):
                    return BOUNDARY, True
                if same_direction(p, u, q):
                    return BOUNDARY, False
                side = _germ_in_cone(u, p, v, q)
                handled = True
                break
        if not handled:
            for i in range(size):
                u, v = ring[i - 1], ring[i]
                if in_open_segment(u, v, p):
                    side = orient(u, v, q)
                    if side == 0:
                        return BOUNDARY, same_direction(p, v, q)
                    handled = True
                    break
        if handled:
            # interior of areal is to the left of the ring,
            # for clockwise rings (holes) the bounded side is to the right
            inside_ring = (side > 0) == (ring_orientation(ring) > 0)
        else:
            inside_ring = locate_in_ring(ring, p) == INTERIOR
        if inside_ring:
            parity = not parity
    return (INTERIOR if parity else EXTERIOR), None


class Flags:
    """What germs of the first geometry edges relative to the second do."""

    def __init__(self):
        self.inside = self.outside = False
        self.along_same = self.along_opposite = False
        self.contact = False

    def __repr__(self):
        return repr(vars(self))

    @property
    def along(self):
        return self.along_same or self.along_opposite


def edges_against_areal(edges, areal, oriented):
    """
    Classifies pieces of edges relative to areal geometry.

    For areal edges (``oriented``) interior is to the left of an edge.
    """
    flags = Flags()
    # boundaries touch at vertices or cross properly
    for a, b in edges:
        targets = [(a, b, True), (b, a, False)]
        for c, d in areal.edges:
            if in_open_segment(a, b, d):
                targets.append((d, b, True))
                targets.append((d, a, False))
            elif proper_crossing(a, b, c, d):
                flags.inside = flags.outside = flags.contact = True
        for p, q, forward in targets:
            if not flags.contact and locate_in_areal(areal, p) == BOUNDARY:
                flags.contact = True
            location, interior_on_left = germ_location(areal, p, q)
            if location == INTERIOR:
                flags.inside = True
            elif location == EXTERIOR:
                flags.outside = True
            else:
                flags.contact = True
                if (interior_on_left == forward):
                    flags.along_same = True
                else:
                    flags.along_opposite = True
    return flags


def linear_in_areal(linear, areal):
    flags = edges_against_areal(linear.edges, areal, False)
    if flags.inside and flags.outside:
        return 'CROSS'
    elif flags.inside:
        return 'ENCLOSED' if flags.contact else 'WITHIN'
    elif flags.outside:
        return 'TOUCH' if flags.contact else 'DISJOINT'
    else:
        return 'COMPONENT'


def areal_in_areal(left, right):
    lf = edges_against_areal(left.edges, right, True)
    rf = edges_against_areal(right.edges, left, True)
    contact = lf.contact or rf.contact
    left_subset = not (lf.outside or lf.along_opposite or rf.inside)
    right_subset = not (rf.outside or rf.along_opposite or lf.inside)
    interiors_intersect = (lf.inside or rf.inside or lf.along_same)
    if left_subset and right_subset:
        return 'EQUAL'
    elif left_subset:
        if not contact:
            return 'WITHIN'
        return 'ENCLOSED' if lf.inside or lf.outside else 'COMPONENT'
    elif right_subset:
        if not contact:
            return 'COVER'
        return 'ENCLOSES' if rf.inside or rf.outside else 'COMPOSITE'
    elif interiors_intersect:
        return 'OVERLAP'
    else:
        return 'TOUCH' if contact else 'DISJOINT'


def _germ_on_linear(linear, p, q):
    return any(same_direction(p, r, q) for r in linear.rays(p))


def _linear_flags(edges, other):
    common = apart = False
    for a, b in edges:
        targets = [(a, b), (b, a)]
        for v in other.vertices():
            if in_open_segment(a, b, v):
                targets.append((v, b))
                targets.append((v, a))
        for p, q in targets:
            if _germ_on_linear(other, p, q):
                common = True
            else:
                apart = True
        # right next to the proper crossing edge is apart from other
        # (unless it is covered by other edges of other which can't
        # overlap the crossing one, then it is detected above)
    return common, apart


def linear_in_linear(left, right):
    lc, la = _linear_flags(left.edges, right)
    rc, ra = _linear_flags(right.edges, left)
    if not la and not ra:
        return 'EQUAL'
    elif not la:
        return 'COMPONENT'
    elif not ra:
        return 'COMPOSITE'
    elif lc or rc:
        return 'OVERLAP'
    contact = False
    for a, b in left.edges:
        for c, d in right.edges:
            if proper_crossing(a, b, c, d):
                return 'CROSS'
    points = left.vertices() + right.vertices()
    for p in points:
        if (locate_in_linear(left, p) == BOUNDARY
                and locate_in_linear(right, p) == BOUNDARY):
            contact = True
            if _rays_interleave(p, left.rays(p), right.rays(p)):
                return 'CROSS'
    return 'TOUCH' if contact else 'DISJOINT'


def _rays_interleave(p, lefts, rights):
    """
    Is there a pair of left rays that separates some pair of right rays.
    No left ray coincides with a right ray.
    """
    if len(lefts) < 2 or len(rights) < 2:
        return False
    for i in range(len(lefts)):
        for j in range(i):
            u, v = lefts[i], lefts[j]
            sides = [_ray_side(u, p, v, q) for q in rights]
            if any(s != sides[0] for s in sides):
                return True
    return False


def _ray_side(u, p, v, q):
    turn = orient(u, p, v)
    left_of_first, left_of_second = orient(u, p, q), orient(p, v, q)
    if turn > 0:
        return left_of_first > 0 and left_of_second > 0
    elif turn < 0:
        return left_of_first > 0 or left_of_second > 0
    else:
        # opposite directions (coinciding are impossible within one geometry)
        return left_of_first > 0
