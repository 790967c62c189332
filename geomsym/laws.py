"""
Properties as executable laws over public functions of ``orient.planar``.

A law takes geometries (with either symbolic or rational coordinates),
calls the real implementation and returns list of triplets
``(what is checked, actual, expected)``, or ``None`` if geometries are invalid.
"""
import sys
from collections import deque
from fractions import Fraction
from importlib.machinery import SourceFileLoader
from random import Random
from types import FunctionType

from . import model
from .model import FUNCTIONS, LINEAR
from .oracle import P
from .sym import Num

LINEAR_IN_LINEAR = {'DISJOINT', 'TOUCH', 'CROSS', 'OVERLAP', 'COMPOSITE',
                    'EQUAL', 'COMPONENT'}
LINEAR_IN_AREAL = {'DISJOINT', 'TOUCH', 'CROSS', 'COMPONENT', 'ENCLOSED',
                   'WITHIN'}
AREAL_IN_AREAL = {'DISJOINT', 'TOUCH', 'OVERLAP', 'COVER', 'ENCLOSES',
                  'COMPOSITE', 'EQUAL', 'COMPONENT', 'ENCLOSED', 'WITHIN'}
COMPLEMENT = {'COVER': 'WITHIN', 'WITHIN': 'COVER', 'ENCLOSES': 'ENCLOSED',
              'ENCLOSED': 'ENCLOSES', 'COMPOSITE': 'COMPONENT',
              'COMPONENT': 'COMPOSITE'}


def name(value):
    from ground.base import Location, Relation
    if isinstance(value, (Location, Relation)):
        return value.name
    return f'ERROR unexpected result {value!r}'


class FractionMeta(type(Fraction)):
    def __instancecheck__(cls, instance):
        return isinstance(instance, (Fraction, Num))


class SymbolicFraction(Fraction, metaclass=FractionMeta):
    """Conversion to fractions keeps symbolic numbers."""

    def __new__(cls, numerator=0, denominator=None):
        if type(numerator) is Num or type(denominator) is Num:
            return (numerator if denominator is None
                    else numerator / denominator)
        return Fraction(numerator, denominator)


class Caller:
    """Calls implementation."""
    last = None

    def __init__(self):
        from ground.base import get_context
        self.context, self.calls, self.reloads = get_context(), 0, 0
        self.stateful = False
        # answer by the reference, if it is the same on all paths of the job,
        # geometries are valid then
        self.known = None
        if Caller.last is not None and Caller.last.has_left_something():
            self.reload()
        else:
            self.load()
        self.state = State()
        Caller.last = self

    def load(self):
        import orient.planar
        self.planar = orient.planar
        for module_name in orient_modules():
            names = vars(sys.modules[module_name])
            for key, value in list(names.items()):
                if value is Fraction:
                    names[key] = SymbolicFraction

    def fresh(self):
        """
        Paths should not see each other: if modules keep something
        they are loaded anew.
        """
        if self.has_left_something():
            self.stateful = True
            self.reload()

    def has_left_something(self):
        return self.stateful or not self.state.is_initial()

    def reload(self):
        self.reloads += 1
        for module_name in orient_modules():
            del sys.modules[module_name]
        with compiled_once():
            self.load()

    def objects(self, fn, left, right):
        left_kind, right_kind = fn.split('_in_')
        return (model.to_real(left_kind, left, self.context),
                model.to_real(right_kind, right, self.context))

    def __call__(self, fn, left, right):
        return self.on_objects(fn, *self.objects(fn, left, right))

    def on_objects(self, fn, left, right, **kwargs):
        self.calls += 1
        try:
            return name(getattr(self.planar, fn)(left, right, **kwargs))
        except Exception as error:
            return f'ERROR {type(error).__name__}: {error}'[:200]


def orient_modules():
    return [module_name for module_name in sys.modules
            if module_name == 'orient' or module_name.startswith('orient.')]


class State:
    """What modules under test keep between calls."""

    def __init__(self):
        self.modules = [vars(sys.modules[module_name])
                        for module_name in orient_modules()]
        self.containers, self.caches, self.classes = [], [], []
        self.seen = set()
        for namespace in self.modules:
            for key, value in list(namespace.items()):
                if not key.startswith('__'):
                    self.add(value, 1)
        self.initial = self.current()

    def add(self, value, depth):
        if id(value) in self.seen or depth > 4:
            return
        self.seen.add(id(value))
        if isinstance(value, (dict, list, set, deque, bytearray)):
            self.containers.append(value)
        elif hasattr(value, 'cache_info'):
            self.caches.append(value)
        elif isinstance(value, FunctionType):
            self.containers.append(vars(value))
            for part in (value.__defaults__ or ()):
                self.add(part, depth + 1)
            for part in (value.__kwdefaults__ or {}).values():
                self.add(part, depth + 1)
            for cell in (value.__closure__ or ()):
                try:
                    self.add(cell.cell_contents, depth + 1)
                except ValueError:
                    pass
            for part in list(vars(value).values()):
                self.add(part, depth + 1)
        elif isinstance(value, type):
            if value.__module__.startswith('orient'):
                self.classes.append(value)
                for key, part in list(vars(value).items()):
                    if not key.startswith('__'):
                        self.add(getattr(part, '__func__', part), depth + 1)
        elif type(value).__module__.startswith('orient'):
            self.containers.append(getattr(value, '__dict__', ()))
            for part in list(getattr(value, '__dict__', {}).values()):
                self.add(part, depth + 1)

    def current(self):
        return ([tuple(map(id, namespace.values()))
                 for namespace in self.modules],
                list(map(len, self.containers)),
                [cache.cache_info().currsize for cache in self.caches],
                [tuple(map(id, vars(cls).values())) for cls in self.classes])

    def is_initial(self):
        return self.current() == self.initial


class compiled_once:
    """Imports sources without compiling them again."""
    codes = {}

    def __enter__(self):
        original = self.original = SourceFileLoader.get_code

        def get_code(loader, fullname):
            if not fullname.startswith('orient'):
                return original(loader, fullname)
            if fullname not in self.codes:
                self.codes[fullname] = original(loader, fullname)
            return self.codes[fullname]

        SourceFileLoader.get_code = get_code

    def __exit__(self, *args):
        SourceFileLoader.get_code = self.original


def is_valid(call, fn, left, right):
    if call.known is not None:
        return True
    left_kind, right_kind = fn.split('_in_')
    return model.valid(left_kind, left) and model.valid(right_kind, right)


def relation(call, fn, left, right, params):
    """Answer is the one given by point-set semantics."""
    if not is_valid(call, fn, left, right):
        return None
    left_kind, right_kind = fn.split('_in_')
    return [(fn, call(fn, left, right),
             call.known
             or model.reference(left_kind, left, right_kind, right))]


def rewrite(kind, g, random):
    """The same point set written down in another way."""
    if kind == 'point':
        return g
    elif kind == 'segment':
        return g[::-1] if random.random() < .5 else g
    elif kind in ('contour', 'region'):
        k = random.randrange(len(g))
        g = g[k:] + g[:k]
        return g[::-1] if random.random() < .5 else g
    elif kind == 'polygon':
        return (rewrite('region', g[0], random),
                rewrite('multiregion', g[1], random))
    part_kind = kind[len('multi'):]
    result = [rewrite(part_kind, part, random) for part in g]
    random.shuffle(result)
    return result


def rewriting(call, fn, left, right, params):
    """Answer does not depend on the way geometries are written down."""
    if not is_valid(call, fn, left, right):
        return None
    left_kind, right_kind = fn.split('_in_')
    expected = call(fn, left, right)
    result = []
    for seed in params:
        random = Random(seed)
        result.append((f'{fn} rewritten with {seed}',
                       call(fn, rewrite(left_kind, left, random),
                            rewrite(right_kind, right, random)), expected))
    return result


def motion(call, fn, left, right, params):
    """Answer is kept by axes swap, mirroring, scaling and translation."""
    offset_x, offset_y, scale, codes = params
    if not scale > 0 or not is_valid(call, fn, left, right):
        return None
    expected = call(fn, left, right)
    result = []
    for code in codes:
        def transform(p):
            x, y = p.x, p.y
            if code & 1:
                x, y = y, x
            if code & 2:
                x = -x
            if code & 4:
                y = -y
            if code & 8:
                x, y = x * scale, y * scale
            if code & 16:
                x, y = x + offset_x, y + offset_y
            return P(x, y)

        result.append((f'{fn} transformed with {code}',
                       call(fn, model.map_points(transform, left),
                            model.map_points(transform, right)), expected))
    return result


def complement(call, fn, left, right, params):
    """Swapping arguments gives complementary relation."""
    if not is_valid(call, fn, left, right):
        return None
    left_kind, right_kind = fn.split('_in_')
    assert left_kind == right_kind
    forward = call(fn, left, right)
    return [(f'{fn} swapped', call(fn, right, left),
             COMPLEMENT.get(forward, forward))]


def liftings(kind, g):
    """The same point set as geometries of other kinds."""
    if kind == 'segment':
        return [('multisegment', [g])]
    elif kind == 'contour':
        return [('multisegment', [(g[i - 1], g[i]) for i in range(len(g))])]
    elif kind == 'region':
        return [('multiregion', [g]), ('polygon', (g, [])),
                ('multipolygon', [(g, [])])]
    elif kind == 'multiregion':
        return [('multipolygon', [(r, []) for r in g])]
    elif kind == 'polygon':
        return [('multipolygon', [g])]
    return []


def alternatives(fn, left, right):
    """Other queries about the same pair of point sets."""
    left_kind, right_kind = fn.split('_in_')
    for other_left_kind, other_left in ([(left_kind, left)]
                                        + liftings(left_kind, left)):
        for other_right_kind, other_right in ([(right_kind, right)]
                                              + liftings(right_kind, right)):
            forward = f'{other_left_kind}_in_{other_right_kind}'
            backward = f'{other_right_kind}_in_{other_left_kind}'
            if forward == fn:
                continue
            elif forward in FUNCTIONS:
                yield forward, other_left, other_right, False
            elif backward in FUNCTIONS:
                yield backward, other_right, other_left, True


def has_alternatives(fn):
    left, right = fn.split('_in_')
    return any(alternatives(fn, STUBS.get(left), STUBS.get(right)))


STUBS = {'contour': [], 'multiregion': []}


def lifting(call, fn, left, right, params):
    """
    Answer is the same for the same point sets represented
    with objects of different kinds.
    """
    if not is_valid(call, fn, left, right):
        return None
    base = call(fn, left, right)
    return [(f'complement of {other} instead of {fn}',
             call(other, other_left, other_right), COMPLEMENT.get(base, base))
            if is_swapped
            else (f'{other} instead of {fn}',
                  call(other, other_left, other_right), base)
            for other, other_left, other_right, is_swapped
            in alternatives(fn, left, right)]


def location(call, fn, left, right, params):
    """
    Relation of linear geometry agrees with locations of its points
    and relation with the boundary.
    """
    if not is_valid(call, fn, left, right):
        return None
    left_kind, right_kind = fn.split('_in_')
    base = call(fn, left, right)
    result = []
    for point in model.points_of(left):
        where = call(f'point_in_{right_kind}', point, right)
        allowed = {'EXTERIOR': {'DISJOINT', 'TOUCH', 'CROSS', 'OVERLAP',
                                'COMPOSITE', 'COVER', 'ENCLOSES'},
                   'BOUNDARY': {'TOUCH', 'CROSS', 'OVERLAP', 'COMPOSITE',
                                'EQUAL', 'COMPONENT', 'ENCLOSED', 'ENCLOSES'},
                   'INTERIOR': {'CROSS', 'WITHIN', 'ENCLOSED', 'OVERLAP'}}
        if where not in allowed:
            result.append((f'point_in_{right_kind}', where, 'location'))
        elif base not in allowed[where]:
            result.append((f'{fn} with a vertex having location {where}',
                           base, 'one of ' + ', '.join(sorted(allowed[where]))))
        else:
            result.append((fn, base, base))
    return result


def possible(fn):
    left_kind, right_kind = fn.split('_in_')
    if left_kind == 'point':
        return ({'EXTERIOR', 'BOUNDARY'} if right_kind in LINEAR
                else {'EXTERIOR', 'BOUNDARY', 'INTERIOR'})
    elif right_kind in LINEAR:
        return LINEAR_IN_LINEAR
    return LINEAR_IN_AREAL if left_kind in LINEAR else AREAL_IN_AREAL


def snapshot(value):
    """Structure of the object with identities of the leaves."""
    if isinstance(value, (list, tuple)):
        return type(value), id(value), tuple(map(snapshot, value))
    for names in (('x', 'y'), ('start', 'end'), ('segments',), ('vertices',),
                  ('border', 'holes'), ('polygons',)):
        if all(hasattr(value, n) for n in names):
            return id(value), tuple(snapshot(getattr(value, n))
                                    for n in names)
    return id(value)


def total(call, fn, left, right, params):
    """
    Query ends with a result possible for the pair of kinds, keeps arguments
    and gives the same result whatever was asked in between.
    """
    if not is_valid(call, fn, left, right):
        return None
    left_object, right_object = call.objects(fn, left, right)
    before = snapshot((left_object, right_object))[2]
    first = call.on_objects(fn, left_object, right_object)
    result = [(f'{fn} answer kind', first,
               first if first in possible(fn)
               else 'one of ' + ', '.join(sorted(possible(fn)))),
              (f'{fn} arguments',
               'kept' if snapshot((left_object, right_object))[2] == before
               else 'changed', 'kept')]
    left_kind, right_kind = fn.split('_in_')
    # other queries about the same objects
    for point in model.points_of(left)[:2]:
        call.on_objects(f'point_in_{right_kind}',
                        call.context.point_cls(point.x, point.y),
                        right_object)
    for kind, g, obj in ((left_kind, left, left_object),
                         (right_kind, right, right_object)):
        if f'{kind}_in_{kind}' in FUNCTIONS:
            own = call.on_objects(f'{kind}_in_{kind}', obj, obj)
            result.append((f'{kind}_in_{kind} of object and itself', own,
                           'EQUAL'))
    result.append((f'{fn} asked again',
                   call.on_objects(fn, left_object, right_object), first))
    result.append((f'{fn} arguments after all queries',
                   'kept' if snapshot((left_object, right_object))[2] == before
                   else 'changed', 'kept'))
    return result


def changed_rings(change):
    def convert(g):
        if isinstance(g, P):
            return g
        elif isinstance(g[0], P):
            return type(g)(change(list(g)))
        return type(g)(convert(part) if part else part for part in g)

    return convert


reversed_rings = changed_rings(lambda ring: ring[:1] + ring[:0:-1])
rotated_rings = changed_rings(lambda ring: ring[1:] + ring[:1])


def reversed_parts(g):
    if isinstance(g, P) or isinstance(g[0], P):
        return g
    elif isinstance(g, tuple):
        border, holes = g
        return border, holes[::-1]
    return [reversed_parts(part) for part in g[::-1]]


def without_last_part(g):
    if isinstance(g, P) or isinstance(g[0], P):
        return g
    elif isinstance(g, tuple):
        border, holes = g
        return border, holes[:-1]
    return g[:-1] or g


def swapped_axes(g):
    return model.map_points(lambda p: P(p.y, p.x), g)


def upside_down(g):
    return model.map_points(lambda p: P(p.x, -p.y), g)


def history(call, fn, left, right, params):
    """Answer does not depend on queries about similar geometries before."""
    offset_x, offset_y, group = params
    counter = iter(range(10 ** 9))

    def edit(p):
        return (P(p.x + offset_x, p.y + offset_y) if next(counter) in group
                else p)

    other_left = model.map_points(edit, left)
    other_right = model.map_points(edit, right)
    if not (is_valid(call, fn, left, right)
            and is_valid(call, fn, other_left, other_right)):
        return None
    asked = []

    def ask(function, first, second):
        asked.append((function, first, second, call(function, first, second)))

    ask(fn, other_left, other_right)
    # other kinds of queries
    left_kind, right_kind = fn.split('_in_')
    sides = [(left_kind, left, other_left), (right_kind, right, other_right)]
    for point in model.points_of(other_left)[:1]:
        ask(f'point_in_{right_kind}', point, other_right)
    for kind, g, other in sides:
        if f'point_in_{kind}' in FUNCTIONS:
            ask(f'point_in_{kind}', model.points_of(other)[-1], other)
        if f'{kind}_in_{kind}' in FUNCTIONS:
            ask(f'{kind}_in_{kind}', other, other)
    ask(fn, left, right)
    result = [(f'{fn} again', call(fn, other_left, other_right), asked[0][3]),
              (f'{fn} of the first geometries again', call(fn, left, right),
               asked[-1][3])]
    if not call.state.is_initial():
        # something is kept, looking for its influence
        for kind, g, other in sides:
            if f'point_in_{kind}' in FUNCTIONS:
                for points, where in ((other, g), (g, other)):
                    points = model.points_of(points)
                    for point in [*points[:2], points[-1]]:
                        ask(f'point_in_{kind}', point, where)
        for vary in (reversed_rings, rotated_rings, reversed_parts,
                     without_last_part, swapped_axes, upside_down):
            changed_left, changed_right = vary(left), vary(right)
            ask(fn, changed_left, changed_right)
            if vary not in (swapped_axes, upside_down):
                ask(fn, left, changed_right)
                ask(fn, changed_left, right)
        for position, (function, first, second, answer) in enumerate(asked):
            call.fresh()
            result.append((f'{function} ({position}) after other queries',
                           answer, call(function, first, second)))
    return result


def context(call, fn, left, right, params):
    """
    Query works with the given context only,
    without it works the same with the current one.
    """
    if not is_valid(call, fn, left, right):
        return None
    from ground.base import Context, get_context, set_context
    used = []

    class Forbidden(Context):
        def __getattribute__(self, attribute):
            if not attribute.startswith('_'):
                raise RuntimeError(f'current context is asked for {attribute}')
            return super().__getattribute__(attribute)

    class Recorder(Context):
        def __getattribute__(self, attribute):
            if not attribute.startswith('_'):
                used.append(attribute)
            return super().__getattribute__(attribute)

    left_object, right_object = call.objects(fn, left, right)
    original = get_context()
    first = call.on_objects(fn, left_object, right_object)
    lens = Lens(left, right, params)
    seen = call.objects(fn, model.map_points(lens.original, left),
                        model.map_points(lens.original, right))
    try:
        set_context(Forbidden())
        with_explicit = call.on_objects(fn, left_object, right_object,
                                        context=original)
        with_recorder = call.on_objects(fn, left_object, right_object,
                                        context=Recorder())
        with_lens = call.on_objects(fn, *seen, context=lens.context())
        explicit_used = list(used)
        used.clear()
        set_context(Recorder())
        with_current = call.on_objects(fn, left_object, right_object)
        current_used = list(used)
    finally:
        set_context(original)
    return [(f'{fn} with explicit context', with_explicit, first),
            (f'{fn} with other explicit context', with_recorder, first),
            (f'{fn} with other current context', with_current, first),
            (f'{fn} usage of current context',
             ' '.join(sorted(set(current_used))) or 'none',
             ' '.join(sorted(set(explicit_used))) or 'none'),
            (f'{fn} with context seeing points elsewhere', with_lens, first)]


class Lens:
    """
    Halves of the plane are stretched. Order of coordinates is kept,
    but everything else has to be asked from the context.
    """

    def __init__(self, left, right, params):
        points = model.points_of(left) + model.points_of(right)
        x_index, y_index, self.x_factor, self.y_factor = params
        half = Fraction(1, 2)
        self.center_x = points[x_index % len(points)].x + half
        self.center_y = points[y_index % len(points)].y + half

    def original(self, p):
        """Coordinates of point which is seen as the given one."""
        return P(stretched(p.x, self.center_x, Fraction(1, self.x_factor)),
                 stretched(p.y, self.center_y, Fraction(1, self.y_factor)))

    def image(self, p):
        """Coordinates of point which the given one is seen as."""
        return P(stretched(p.x, self.center_x, self.x_factor),
                 stretched(p.y, self.center_y, self.y_factor))

    def context(self):
        from ground.base import Context
        original, image = self.original, self.image
        images, plain = {}, Context()

        def to_image(p, point_cls):
            # point is kept so that its identifier is not reused
            if id(p) not in images:
                q = image(p)
                images[id(p)] = p, point_cls(q.x, q.y)
            return images[id(p)][1]

        def to_original(p, point_cls):
            q = original(p)
            result = point_cls(q.x, q.y)
            images[id(result)] = result, p
            return result

        class Seeing(Context):
            def __getattribute__(self, attribute):
                value = super().__getattribute__(attribute)
                if (attribute.startswith('_') or not callable(value)
                        or isinstance(value, type)):
                    return value

                def function(*args, **kwargs):
                    return mapped(
                            to_original,
                            getattr(plain, attribute)(
                                    *[mapped(to_image, arg, plain)
                                      for arg in args],
                                    **{key: mapped(to_image, arg, plain)
                                       for key, arg in kwargs.items()}),
                            plain)

                return function

        return Seeing()


def stretched(value, center, factor):
    return value if value < center else center + (value - center) * factor


def mapped(f, value, context):
    """Geometric object of the context with mapped points."""
    if isinstance(value, (list, tuple)):
        return [mapped(f, part, context) for part in value]
    elif hasattr(value, 'x') and hasattr(value, 'y'):
        return f(value, context.point_cls)
    elif hasattr(value, 'start') and hasattr(value, 'end'):
        return context.segment_cls(mapped(f, value.start, context),
                                   mapped(f, value.end, context))
    elif hasattr(value, 'vertices'):
        return context.contour_cls(mapped(f, value.vertices, context))
    elif hasattr(value, 'segments'):
        return context.multisegment_cls(mapped(f, value.segments, context))
    elif hasattr(value, 'border'):
        return context.polygon_cls(mapped(f, value.border, context),
                                   mapped(f, value.holes, context))
    elif hasattr(value, 'polygons'):
        return context.multipolygon_cls(mapped(f, value.polygons, context))
    elif hasattr(value, 'min_x'):
        lower = f(context.point_cls(value.min_x, value.min_y),
                  context.point_cls)
        upper = f(context.point_cls(value.max_x, value.max_y),
                  context.point_cls)
        return context.box_cls(lower.x, upper.x, lower.y, upper.y)
    return value


LAWS = dict(relation=relation, rewriting=rewriting, motion=motion,
            complement=complement, lifting=lifting, location=location,
            total=total, history=history, context=context)


def violations(outcome):
    return [(what, actual, expected) for what, actual, expected in outcome
            if actual != expected or actual.startswith('ERROR')]
