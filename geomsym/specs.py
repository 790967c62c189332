"""What each property check explores."""
from fractions import Fraction
from functools import lru_cache
from itertools import islice
from random import Random

from . import census, large
from .laws import has_alternatives
from .model import AREAL, FUNCTIONS, map_points, points_of, reference
from .oracle import P
from .runner import job
from .scout import choose, scout
from .shapes import Generator, edges_of, pair, with_offset
from .twins import moved_vertex, twins

POINT_LINEAR = ['point_in_segment', 'point_in_multisegment',
                'point_in_contour']
POINT_AREAL = [f'point_in_{k}' for k in AREAL]

# id -> (law, functions)
CHECKS = {
    'C01': ('relation', POINT_LINEAR),
    'C02': ('relation', POINT_AREAL),
    'C03': ('relation', ['segment_in_segment', 'segment_in_multisegment']),
    'C04': ('relation', ['multisegment_in_multisegment']),
    'C05': ('relation', ['segment_in_contour', 'multisegment_in_contour',
                         'contour_in_contour']),
    'C06': ('relation', ['segment_in_region', 'segment_in_multiregion',
                         'segment_in_polygon', 'segment_in_multipolygon']),
    'C07': ('relation', ['multisegment_in_region',
                         'multisegment_in_multiregion',
                         'multisegment_in_polygon',
                         'multisegment_in_multipolygon']),
    'C08': ('relation', ['contour_in_region', 'contour_in_multiregion',
                         'contour_in_polygon', 'contour_in_multipolygon']),
    'C09': ('relation', ['region_in_region', 'region_in_multiregion',
                         'multiregion_in_multiregion']),
    'C10': ('relation', ['region_in_polygon', 'multiregion_in_polygon']),
    'C11': ('relation', ['polygon_in_polygon']),
    'C12': ('relation', ['region_in_multipolygon',
                         'multiregion_in_multipolygon',
                         'polygon_in_multipolygon',
                         'multipolygon_in_multipolygon']),
    'C13': ('complement', ['segment_in_segment',
                           'multisegment_in_multisegment',
                           'contour_in_contour', 'region_in_region',
                           'multiregion_in_multiregion',
                           'polygon_in_polygon',
                           'multipolygon_in_multipolygon']),
    'C14': ('rewriting', FUNCTIONS),
    'C15': ('motion', FUNCTIONS),
    'C16': ('lifting', list(filter(has_alternatives, FUNCTIONS))),
    'C17': ('location', [f for f in FUNCTIONS
                         if not f.startswith('point_')]),
    'C18': ('total', FUNCTIONS),
    'C19': ('context', FUNCTIONS),
}
QUICK = dict(total_s=75, grace_s=6, job_s=25, max_paths={0: 400, 1: 400, 2: 200, 3: 70}, solver_ms=2000,
             validate_every=7)
THOROUGH = dict(total_s=2400, grace_s=120, job_s=600, max_paths={0: 20000, 1: 20000, 2: 6000, 3: 3000},
                solver_ms=20000, validate_every=7)
QUICK_TEMPLATES, THOROUGH_TEMPLATES = 5000, 60000
QUICK_ENTRIES, THOROUGH_ENTRIES = 12000, 120000
LARGE_PATHS = dict(quick=2, thorough=10)
QUICK_LARGE, THOROUGH_LARGE = 160, 8000
TWIN_PATHS = dict(quick=12, thorough=200)
QUICK_TWINS, THOROUGH_TWINS = 800, 8000
CENSUS_PATHS = dict(quick=4, thorough=40)


NAMES = 'abcdefghijklmnopqrstuvwz'
LINES = [(1, 0), (0, 1), (2, 1), (1, -2), (-1, 1)]


def started(law, fn, values, left, right, label):
    names = NAMES[:len(values)]
    return job(law, fn, left, right, names, start=dict(zip(names, values)),
               label=label)


def take(count, skip=0):
    """Points with all coordinates being symbolic."""
    return [P(NAMES[2 * i], NAMES[2 * i + 1])
            for i in range(skip, skip + count)]


def constant(g):
    if isinstance(g, list):
        return [constant(part) for part in g]
    elif isinstance(g[0], int):
        return P(*g)
    return tuple(map(constant, g))


def at(direction, position):
    """Point of a line through the origin."""
    dx, dy = direction
    return P(f'({dx})*({position})', f'({dy})*({position})')


def piece(random, direction, start, end):
    result = at(direction, start), at(direction, end)
    return result if random.random() < .5 else result[::-1]


def shuffled(random, values):
    values = list(values)
    random.shuffle(values)
    return values


HUBS = [[((0, 0), (2, 0)), ((0, 0), (0, 2))],
        [((0, 0), (2, 0)), ((0, 0), (-2, 0))],
        [((0, 0), (2, 1)), ((-1, 1), (0, 0)), ((0, 0), (0, -3))],
        [((1, 2), (-1, -2)), ((0, 0), (3, -1))],
        [((0, -2), (0, 2))],
        [((0, 0), (1, 1)), ((0, 0), (2, -1)), ((-2, 0), (0, 0)),
         ((0, 0), (0, 1))]]
PLACED = {
    'segment': [((0, 0), (4, 0)), ((0, 0), (0, 4)), ((0, 0), (2, 4))],
    'multisegment': HUBS + [[((0, 0), (2, 1)), ((2, 1), (4, 2))],
                            [((0, 0), (2, 1)), ((4, 0), (2, 1))],
                            [((0, 0), (4, 0)), ((2, 0), (2, 3))],
                            [((0, 0), (1, 0)), ((3, 0), (5, 0))]],
    'contour': [[(0, 0), (4, 0), (0, 4)], [(0, 0), (1, 3), (4, 1)],
                [(0, 0), (4, 0), (4, 4), (2, 1), (0, 4)]],
    'multiregion': [[[(0, 0), (4, 0), (0, 4)], [(4, 4), (4, 0), (8, 0)]],
                    [[(0, 0), (2, 0), (0, 2)], [(0, 4), (1, 3), (1, 5)]]],
    'polygon': [([(0, 0), (8, 0), (0, 8)], [[(1, 1), (3, 1), (1, 3)]]),
                ([(0, 0), (8, 0), (8, 8), (0, 8)],
                 [[(0, 4), (4, 2), (4, 6)]])],
    'multipolygon': [[([(0, 0), (8, 0), (0, 8)], [[(1, 1), (3, 1), (1, 3)]]),
                      ([(8, 0), (8, 8), (4, 4)], [])]]}
PLACED['region'] = PLACED['contour']


def full_jobs(law, fn, tier, random):
    """Jobs where lots of points move independently."""
    if law not in ('relation', 'complement', 'location'):
        return
    left_kind, right_kind = fn.split('_in_')
    thorough = tier == 'thorough'
    if fn == 'point_in_segment':
        p, q, r = take(3)
        yield started(law, fn, [0, 0, 1, 1, 2, 3], p, (q, r), 'all symbolic')
    elif fn == 'segment_in_segment':
        p, q, r, s = take(4)
        yield started(law, fn, [0, 0, 1, 1, 2, 3, 4, 6], (p, q), (r, s),
                      'all symbolic')
    elif fn in ('point_in_contour', 'point_in_region'):
        p, q, r, s = take(4)
        yield started(law, fn, [0, 0, 1, 1, 2, 3, 4, 4], p, [q, r, s],
                      'all symbolic')
    elif fn == 'point_in_multisegment':
        p, q, r, s, t = take(5)
        yield started(law, fn, [0, 0, 1, 1, 2, 3, 4, 4, 5, 5], p,
                      [(q, r), (s, t)], 'all symbolic')
    if fn == 'point_in_polygon':
        # any point and any triangular hole in a square
        p, q, r, s = take(4)
        yield started(law, fn, [7, 7, 1, 1, 2, 3, 3, 1], p,
                      (constant([(0, 0), (6, 0), (6, 6), (0, 6)]),
                       [[q, r, s]]), 'point and hole symbolic')
    if left_kind == 'segment' and right_kind in PLACED:
        p, q = take(2)
        for g in PLACED[right_kind][:None if thorough else 3]:
            yield started(law, fn, [7, 7, 8, 9], (p, q), constant(g),
                          'segment symbolic')
    if fn == 'segment_in_multisegment':
        for _ in range(40 if thorough else 4):
            line = random.choice(LINES)
            yield started(
                    law, fn, [1, 2, 3, 4],
                    piece(random, line, 0, 10),
                    shuffled(random, [piece(random, line, 'a', 'b'),
                                      piece(random, line, 'c', 'd')]),
                    'two pieces on a line')
            yield started(
                    law, fn, [1, 2, 3, 4], piece(random, line, 0, 10),
                    shuffled(random, [piece(random, line, 0, 'a'),
                                      piece(random, line, 'b', 'c'),
                                      piece(random, line, 'd', 10)]),
                    'three pieces on a line')
            p, q = take(2)
            yield started(
                    law, fn, [1, 7, -2, 5], piece(random, line, -5, 5),
                    shuffled(random, [(P(0, 0), p), (q, P(0, 0)),
                                      piece(random, line, 0, 5)]),
                    'whiskers')
        if thorough:
            for _ in range(8):
                line = random.choice(LINES)
                yield started(
                        law, fn, [1, 2, 3, 4, 5, 6],
                        piece(random, line, 0, 10),
                        shuffled(random, [piece(random, line, 'a', 'b'),
                                          piece(random, line, 'c', 'd'),
                                          piece(random, line, 'e', 'f')]),
                        'three free pieces on a line')
    if fn == 'multisegment_in_multisegment':
        p, q = take(2)
        for g in HUBS:
            yield started(law, fn, [3, 1, 1, 3],
                          [(p, P(0, 0)), (P(0, 0), q)], constant(g),
                          'two free rays')
        for _ in range(40 if thorough else 4):
            line = random.choice(LINES)
            yield started(
                    law, fn, [1, 2, 3, 4],
                    shuffled(random, [piece(random, line, 0, 5),
                                      piece(random, line, 5, 10)]),
                    shuffled(random, [piece(random, line, 'a', 'b'),
                                      piece(random, line, 'c', 'd')]),
                    'pieces on a line')
            yield started(
                    law, fn, [1, 2, 3, 4],
                    shuffled(random, [piece(random, line, 0, 'a'),
                                      piece(random, line, 'b', 10)]),
                    shuffled(random, [piece(random, line, 0, 'c'),
                                      piece(random, line, 'd', 10)]),
                    'pieces on a line')
    if left_kind in ('contour', 'region') and right_kind in PLACED:
        p, q = take(2)
        for g in PLACED[right_kind][:None if thorough else 1]:
            yield started(law, fn, [1, 7, 8, 9], [p, q, P(1, 1)],
                          constant(g), 'triangle with two free vertices')
    if thorough and left_kind == 'multisegment' and right_kind in AREAL:
        p, q = take(2)
        for g in PLACED[right_kind]:
            yield started(law, fn, [1, 7, 8, 9], [(p, q), (q, P(1, 1))],
                          constant(g), 'polyline with two free vertices')


FAR = dict(u=3 * 10 ** 21 + 1, v=-10 ** 20 - 7)
FRACTIONAL = dict(u=Fraction(-22, 7), v=Fraction(1, 3))
SCALES = 1, 1, 1, Fraction(2, 7), Fraction(1, 10 ** 15 + 37), 10 ** 15


def placement(random):
    """Where paths start: at integer points usually."""
    u = random.random()
    return FAR if u < .15 else FRACTIONAL if u < .25 else {}


def sliding_job(law, fn, random, style, left, right, shear, max_paths=None,
                group=None):
    generator = Generator(random)
    names, params, start, known = ['x'], None, {}, None
    if law == 'rewriting':
        params = [random.randrange(10 ** 6) for _ in range(3)]
    elif law == 'context':
        params = [random.randrange(100), random.randrange(100),
                  random.choice((2, 3)), random.choice((2, 3))]
    elif law == 'motion':
        names = ['x', 's', 'u', 'v']
        params = ('u', 'v', 's', [random.choice((1, 2, 4, 3, 5, 6, 7)),
                                  8 + random.choice((0, 1, 2, 4)),
                                  16 + random.randrange(16)])
        start = {'s': random.choice(SCALES),
                 **placement(random)}
    if random.random() < shear:
        # parts and relations are the same,
        # directions and order of points differ
        left_kind, right_kind = fn.split('_in_')
        known = reference(left_kind, left, right_kind, right)
        left, right = sheared(random, left, right)
        label = f'{style}, any shear'
    else:
        group = group or generator.moving_group(left, right)
        other, offset = [], ('x', 'y')
        if random.random() < .88:
            # sliding along an edge
            start_, end_ = random.choice(edges_of(left) + edges_of(right))
            offset = (f'({end_.x - start_.x})*x', f'({end_.y - start_.y})*x')
        else:
            names.append('y')
            if law != 'motion' and random.random() < .2:
                # the second group is moved independently
                names += ['z', 'w']
                start.update(z=0, w=0)
                other = [i for i in generator.moving_group(left, right)
                         if i not in group]
                left, right = with_offset(left, right, other, ('z', 'w'))
        if law == 'total' and not other and random.random() < .5:
            law, params = 'history', [*offset, group]
        else:
            left, right = with_offset(left, right, group, offset)
        label = f'{style}, moving {group} {other or ""} by {offset}'
    if law not in ('motion', 'history') and random.random() < .06:
        left, right = [map_points(lambda p: P(f'({p.x})*TINY',
                                              f'({p.y})*TINY'), g)
                       for g in (left, right)]
        label += ', tiny'
    if law != 'motion':
        # both geometries are anywhere, costs nothing
        # until absolute values of coordinates matter
        names += ['u', 'v']
        start.update(placement(random))
        left, right = with_offset(
                left, right,
                range(len(points_of(left)) + len(points_of(right))),
                ('u', 'v'))
    return job(law, fn, left, right, names, params=params, start=start,
               label=label, max_paths=max_paths, known=known)


def sheared(random, left, right):
    if random.random() < .5:
        def move(p):
            return P(f'{p.x}+({p.y})*x', p.y)
    else:
        def move(p):
            return P(p.x, f'{p.y}+({p.x})*x')
    return map_points(move, left), map_points(move, right)


def template_job(property_id, seed, index):
    """Job started at a generated pair."""
    law, functions = CHECKS[property_id]
    fn = functions[index % len(functions)]
    random = Random(f'{seed} {property_id} {index}')
    return sliding_job(law, fn, random,
                       *pair(random, *fn.split('_in_'), random.choice(SIZES)),
                       .1)


@lru_cache(maxsize=None)
def census_entries(property_id, tier, seed):
    _, functions = CHECKS[property_id]
    random = Random(f'{seed} {property_id} entries')
    share = (QUICK_ENTRIES if tier == 'quick'
             else THOROUGH_ENTRIES) // len(functions)
    result = []
    for fn in functions:
        positions = list(range(len(census.load(fn))))
        if len(positions) > share:
            positions = sorted(random.sample(positions, share))
        result.extend((fn, position) for position in positions)
    return result


def census_job(property_id, tier, seed, index):
    """Job started at a pair from the census."""
    law, _ = CHECKS[property_id]
    fn, position = census_entries(property_id, tier, seed)[index]
    random = Random(f'{seed} {property_id} {fn} {position}')
    left, right = census.redrawn(random, *census.load(fn)[position])
    return sliding_job(law, fn, random, f'census {position}', left, right, .5,
                       CENSUS_PATHS[tier])


def large_job(property_id, tier, seed, index):
    """Job started at a pair with lots of points."""
    law, functions = CHECKS[property_id]
    fn = functions[index % len(functions)]
    left_kind, right_kind = fn.split('_in_')
    random = Random(f'{seed} {property_id} large {index}')
    found = None
    for _ in range(60):
        _, left, right = pair(random, left_kind, right_kind, 16)
        if random.random() < .7 and census.load(fn):
            left, right = census.redrawn(random,
                                         *random.choice(census.load(fn)))
        enlarged = large.enlarged(random, left_kind, left, right_kind, right)
        if enlarged is not None:
            found = enlarged
            if (random.random() < .15
                    or reference(left_kind, found[0], right_kind, found[1])
                    not in ('OVERLAP', 'CROSS', 'EXTERIOR', 'DISJOINT')):
                break
    left, right = found or (left, right)
    return sliding_job(law, fn, random, 'large', left, right, .6,
                       LARGE_PATHS[tier])


def twin_job(property_id, tier, seed, index):
    """Job started at a pair with common parts."""
    law, functions = CHECKS[property_id]
    fn = functions[index % len(functions)]
    random = Random(f'{seed} {property_id} twin {index}')
    left, right = twins(random, *fn.split('_in_'), random.choice((9, 12, 16)))
    group = [moved_vertex(random, left, right)]
    if random.random() < .25:
        # corners of equal rings or ends of equal segments
        group = None
    return sliding_job(law, fn, random, 'twins', left, right, .05,
                       TWIN_PATHS[tier], group)


SIZES = 9, 12, 16, 16, 20, 24, 36


def scouted(mapper, make, arguments, count, chunk=100):
    return [item
            for part in mapper(scout, [
                (make, arguments, range(k, min(k + chunk, count)))
                for k in range(0, count, chunk)])
            for item in part]


def jobs_of(property_id, tier, seed, mapper=map):
    """Jobs to run, ``mapper`` is used for choosing of structures."""
    law, functions = CHECKS[property_id]
    random = Random(f'{seed} {property_id}')
    full = [job_ for fn in functions
            for job_ in full_jobs(law, fn, tier, random)]
    quick = tier == 'quick'
    count, period = ((QUICK_TEMPLATES, 12) if quick
                     else (THOROUGH_TEMPLATES, 12))
    entries = len(census_entries(property_id, tier, seed))
    # are made by workers
    chosen = [(census_job, (property_id, tier, seed, index))
              for index in choose(scouted(mapper, census_job,
                                          (property_id, tier, seed), entries),
                                  entries, random) or range(entries)]
    templates = iter([(template_job, (property_id, seed, index))
                      for index in choose(scouted(mapper, template_job,
                                                  (property_id, seed), count),
                                          count, random) or range(count)])
    larges = iter([(large_job, (property_id, tier, seed, index))
                   for index in range(QUICK_LARGE if quick
                                      else THOROUGH_LARGE)])
    twin_jobs = iter([(twin_job, (property_id, tier, seed, index))
                      for index in range(QUICK_TWINS if quick
                                         else THOROUGH_TWINS)])
    result = []
    for k, item in enumerate(chosen):
        result.append(item)
        if k % period == period - 1:
            result.extend(islice(templates, 1))
        if k % 20 == 5:
            result.extend(islice(larges, 1))
        if k % 8 == 1:
            result.extend(islice(twin_jobs, 1))
    result.extend(templates)
    result.extend(larges)
    result.extend(twin_jobs)
    # jobs with lots of free points are spread among other ones
    step = 100 if quick else 10
    for index, job_ in enumerate(shuffled(random, full)):
        result.insert(step * index, job_)
    return result


def run(property_id, tier, seed):
    from .runner import execute
    limits = QUICK if tier == 'quick' else THOROUGH

    def jobs(mapper):
        return jobs_of(property_id, tier, seed, mapper)

    return execute(property_id, jobs, tier, seed, ASSUMPTIONS,
                   bounds_of(property_id, tier), limits)


ASSUMPTIONS = [
    'inputs are valid (simple rings without vertices in the middle of '
    'a straight border, segments of a multisegment neither cross nor overlap, '
    'parts of one geometry have disjoint interiors and share points only, '
    'interior of a polygon is connected, no empty collections)',
    'coordinates are exact numbers, default (exact) context of ground is used',
    'z3, sympy arithmetic of polynomials, CPython are trusted',
    'reference semantics is the one of geomsym/oracle.py (laws of C13-C19 '
    'compare answers of the code with each other, of them only C18 '
    'uses the reference)']


def bounds_of(property_id, tier):
    law, functions = CHECKS[property_id]
    limits = QUICK if tier == 'quick' else THOROUGH
    return dict(
            law=law, functions=functions,
            symbolic='coordinates of a group of points: offset along an edge '
                     '(1 real variable) or any offset (2 real variables) of '
                     'a vertex, edge, ring, part or geometry; two groups '
                     '(4 variables) in some jobs; shear of both geometries '
                     '(1 variable); translation (u, v) of both geometries in '
                     'all jobs; lots of points moving independently '
                     '(4-10 variables) in jobs listed in full_jobs of '
                     'geomsym/specs.py; scale s > 0 for C15',
            concrete='structures (numbers of parts and vertices, notation) '
                     'and coordinates of other points: from '
                     'geomsym/census and generated with seed',
            points='at most 24 points in two geometries, sometimes 36; '
                   'up to 160 in large jobs (geomsym/large.py)',
            max_paths_per_twin_job=TWIN_PATHS[tier],
            max_paths_per_large_job=LARGE_PATHS[tier],
            max_paths_per_census_job=CENSUS_PATHS[tier],
            max_paths_per_job=limits['max_paths'],
            seconds_per_job=limits['job_s'], seconds=limits['total_s'],
            solver_timeout_ms=limits['solver_ms'],
            outside='other structures, points moving independently, empty '
                    'collections, inexact contexts; jobs counted as '
                    'truncated or skipped')
