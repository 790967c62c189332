"""
Summary of the predicate of ``ground`` (a dependency of the code under test)
which most of the time is spent in: sign of the turn of three points
with symbolic coordinates is calculated once on a path.
For integer coordinates it is calculated without conversion of them to
fractions, other points are passed to the original function.
"""
from types import FunctionType

from .sym import Num

_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    from ground.core.angular import exact
    from ground.core.enums import Orientation
    function = exact.orientation
    original = FunctionType(function.__code__, function.__globals__,
                            function.__name__, function.__defaults__,
                            function.__closure__)
    results = {1: Orientation.COUNTERCLOCKWISE, -1: Orientation.CLOCKWISE,
               0: Orientation.COLLINEAR}

    def orientation(vertex, first_ray_point, second_ray_point, *args):
        vx = vertex.x
        if (type(vx) is Num and not args and type(vertex.y) is Num
                and type(first_ray_point.x) is Num
                and type(first_ray_point.y) is Num
                and type(second_ray_point.x) is Num
                and type(second_ray_point.y) is Num):
            return results[vx.engine.orientation(vertex, first_ray_point,
                                                 second_ray_point)]
        elif (type(vx) is int and not args and type(vertex.y) is int
              and type(first_ray_point.x) is int
              and type(first_ray_point.y) is int
              and type(second_ray_point.x) is int
              and type(second_ray_point.y) is int):
            vy = vertex.y
            value = ((first_ray_point.x - vx) * (second_ray_point.y - vy)
                     - (first_ray_point.y - vy) * (second_ray_point.x - vx))
            return results[(value > 0) - (value < 0)]
        return original(vertex, first_ray_point, second_ray_point, *args)

    function.__globals__['_summary'] = orientation
    # the same function object is referenced from lots of places
    function.__code__ = _forward.__code__


def _forward(vertex, first_ray_point, second_ray_point, cross_producer):
    return _summary(vertex, first_ray_point, second_ray_point)  # noqa
