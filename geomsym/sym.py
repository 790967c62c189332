"""
Symbolic execution engine.

Runs ordinary Python code over symbolic real numbers (:class:`Num`).
A symbolic number is a reduced fraction of integer polynomials of the symbolic
coordinates.  Arithmetic is exact and never forks (except for a check that
a divisor is not zero); a comparison forks the path on signs of irreducible
factors of the difference.  Paths are explored exhaustively: each run follows
one concrete rational *witness* of its path condition, and for each decision
taken an SMT solver (z3, nonlinear real arithmetic) either proves that
the other outcome is impossible under decisions taken before, or returns
a witness for it, which is queued.  When the queue is empty the set of visited
paths covers all values of the symbolic coordinates.
"""
import math
import operator
import random
import time
from fractions import Fraction

import z3
from sympy import ZZ, ring

NEG, ZERO, POS = 1, 2, 4
ANY = 7
FLIP = [0, 4, 2, 6, 1, 5, 3, 7]
NAMES = {NEG: '<', ZERO: '=', POS: '>', NEG | ZERO: '<=', POS | ZERO: '>=',
         NEG | POS: '!='}


class Stop(BaseException):
    """Base for control flow of engine, code under test can't catch it."""


class TooLong(Stop):
    pass


class Unsupported(Stop):
    pass


class Num:
    __slots__ = ('engine', 'key', 'num', 'den', 'const', 'const_mask',
                 'signature')

    def __init__(self, engine, key, num, den):
        self.engine, self.key, self.num, self.den = engine, key, num, den
        self.const = (Fraction(int(num.coeff(1)), int(den.coeff(1)))
                      if num.is_ground and den.is_ground else None)
        self.const_mask = (None if self.const is None
                           else POS if self.const > 0
                           else NEG if self.const < 0 else ZERO)
        self.signature = None

    # equal numbers can have different representations on the same path,
    # so all of them should have the same hash
    def __hash__(self):
        return 0

    def __repr__(self):
        return (str(self.num) if self.den == 1
                else f'({self.num})/({self.den})')

    def _binary(self, other, operation, cache):
        if type(other) is not Num:
            other = self.engine.coerce(other)
            if other is None:
                return NotImplemented
        key = self.key, other.key
        result = cache.get(key)
        if result is None:
            result = cache[key] = operation(self, other)
        return result

    def __add__(self, other):
        return self._binary(other, self.engine.add, self.engine.sums)

    __radd__ = __add__

    def __sub__(self, other):
        return self._binary(other, self.engine.subtract,
                            self.engine.differences)

    def __rsub__(self, other):
        other = self.engine.coerce(other)
        return NotImplemented if other is None else other - self

    def __mul__(self, other):
        return self._binary(other, self.engine.multiply, self.engine.products)

    __rmul__ = __mul__

    def __truediv__(self, other):
        if type(other) is not Num:
            other = self.engine.coerce(other)
            if other is None:
                return NotImplemented
        if self.engine.test(other, ZERO):
            raise ZeroDivisionError('division by zero')
        return self._binary(other, self.engine.divide, self.engine.quotients)

    def __rtruediv__(self, other):
        other = self.engine.coerce(other)
        return NotImplemented if other is None else other / self

    def __neg__(self):
        return self.engine.zero - self

    def __pos__(self):
        return self

    def __abs__(self):
        return self if self.engine.test(self, POS | ZERO) else -self

    def __pow__(self, exponent):
        if not isinstance(exponent, int) or exponent < 0:
            raise Unsupported('power')
        result = self.engine.one
        for _ in range(exponent):
            result = result * self
        return result

    def __bool__(self):
        return not self.engine.test(self, ZERO)

    def _compare(self, other, mask):
        if type(other) is not Num:
            other = self.engine.coerce(other)
            if other is None:
                return NotImplemented
        if self is other:
            return bool(mask & ZERO)
        engine = self.engine
        difference = engine.differences.get((self.key, other.key))
        if difference is None:
            difference = self - other
        if difference.const_mask is not None:
            return bool(difference.const_mask & mask)
        result = engine.answers.get(difference.key << 3 | mask)
        return engine.test(difference, mask) if result is None else result

    def __eq__(self, other):
        return self._compare(other, ZERO)

    def __ne__(self, other):
        return self._compare(other, NEG | POS)

    def __lt__(self, other):
        return self._compare(other, NEG)

    def __le__(self, other):
        return self._compare(other, NEG | ZERO)

    def __gt__(self, other):
        return self._compare(other, POS)

    def __ge__(self, other):
        return self._compare(other, POS | ZERO)

    # operations which are not expressible with polynomials
    # fix the value of the number on the path

    def __float__(self):
        return float(self.engine.concretize(self))

    def __int__(self):
        return int(self.engine.concretize(self))

    def __trunc__(self):
        return math.trunc(self.engine.concretize(self))

    def __floor__(self):
        return math.floor(self.engine.concretize(self))

    def __ceil__(self):
        return math.ceil(self.engine.concretize(self))

    def __round__(self, digits=None):
        return round(self.engine.concretize(self), digits)

    def __index__(self):
        value = self.engine.concretize(self)
        if value.denominator != 1:
            raise TypeError('not an integer')
        return value.numerator

    def _concrete(self, other, operation):
        if type(other) is Num:
            other = self.engine.concretize(other)
        return operation(self.engine.concretize(self), other)

    def __floordiv__(self, other):
        return self._concrete(other, operator.floordiv)

    def __rfloordiv__(self, other):
        return other // self.engine.concretize(self)

    def __mod__(self, other):
        return self._concrete(other, operator.mod)

    def __rmod__(self, other):
        return other % self.engine.concretize(self)

    def is_integer(self):
        return self.engine.concretize(self).denominator == 1


class Engine:
    def __init__(self, names, *, max_decisions=20000, timeout_ms=3000):
        self.names = list(names)
        self.ring, *_ = ring(self.names or ['_unused'], ZZ)
        self.gens = self.ring.gens[:len(self.names)]
        self.nodes = {}
        self.sums, self.differences, self.products, self.quotients = (
            {}, {}, {}, {})
        self.constants, self.turns = {}, {}
        self.one_poly = self.ring.one
        self.zero, self.one = self.coerce(0), self.coerce(1)
        self.symbols = [self.node(g, self.one_poly) for g in self.gens]
        self.max_decisions = max_decisions
        self.timeout_ms = timeout_ms
        # polynomials
        self.polys, self.poly_ids, self.linear, self.terms = [], {}, [], []
        self.factors_cache = {}
        self.lemmas = []
        # solver
        self.reals = [z3.Real(name) for name in self.names]
        self.poly_exprs, self.zero_expr = [], z3.RealVal(0)
        self.real_sort = z3.RealSort().ast
        self.literals = {}
        self.solver = z3.SimpleSolver()
        self.solver.set('timeout', timeout_ms)
        self.solver_ids = {}
        # statistics
        self.stats = dict(paths=0, queries=0, lemma_hits=0, unsat=0, sat=0,
                          unknown=0, irrational=0, solver_s=0.0,
                          nonlinear_queries=0, unsupported=0, decisions=0,
                          concretized=0,
                          nondeterministic=0)
        self.reset({})

    # arithmetic

    def node(self, num, den):
        key = num, den
        result = self.nodes.get(key)
        if result is None:
            result = self.nodes[key] = Num(self, len(self.nodes), num, den)
        return result

    def reduced(self, num, den):
        if not num:
            return self.zero
        if den != self.one_poly:
            num, den = num.cancel(den)
            if den.LC < 0:
                num, den = -num, -den
        return self.node(num, den)

    def coerce(self, value):
        if type(value) is Num:
            return value
        try:
            return self.constants[value]
        except (KeyError, TypeError):
            pass
        if isinstance(value, bool):
            value = int(value)
        if isinstance(value, int):
            num, den = value, 1
        elif hasattr(value, 'numerator') and hasattr(value, 'denominator'):
            num, den = int(value.numerator), int(value.denominator)
        elif isinstance(value, float) and value == value and abs(
                value) != float('inf'):
            num, den = value.as_integer_ratio()
        else:
            return None
        result = self.node(self.ring(num), self.ring(den))
        self.constants[value] = result
        return result

    def add(self, a, b):
        if a.den == b.den:
            return self.reduced(a.num + b.num, a.den)
        return self.reduced(a.num * b.den + b.num * a.den, a.den * b.den)

    def subtract(self, a, b):
        if a.den == b.den:
            return self.reduced(a.num - b.num, a.den)
        return self.reduced(a.num * b.den - b.num * a.den, a.den * b.den)

    def multiply(self, a, b):
        return self.reduced(a.num * b.num, a.den * b.den)

    def divide(self, a, b):
        return self.reduced(a.num * b.den, a.den * b.num)

    # signs

    def poly_id(self, poly):
        result = self.poly_ids.get(poly)
        if result is None:
            result = self.poly_ids[poly] = len(self.polys)
            self.polys.append(poly)
            terms = [(exps, int(coeff)) for exps, coeff in poly.terms()]
            self.terms.append(terms)
            self.linear.append(all(sum(exps) <= 1 for exps, _ in terms))
            self.lemmas.append([])
            self.poly_exprs.append(None)
        return result

    def factors(self, poly):
        """Sign of constant, ids of factors of odd and even multiplicity."""
        result = self.factors_cache.get(poly)
        if result is None:
            if poly.is_ground:
                result = (1 if poly.coeff(1) > 0 else -1), (), ()
            else:
                if all(sum(e) <= 1 for e in poly.itermonoms()):
                    content, primitive = poly.primitive()
                    coeff, pairs = 1, [(primitive, 1)]
                else:
                    coeff, pairs = poly.factor_list()
                sign = 1 if coeff > 0 else -1
                odd, even = [], []
                for factor, multiplicity in pairs:
                    _, factor = factor.primitive()
                    if factor.LC < 0:
                        factor = -factor
                        if multiplicity % 2:
                            sign = -sign
                    (odd if multiplicity % 2 else even).append(
                            self.poly_id(factor))
                result = sign, tuple(odd), tuple(even)
            self.factors_cache[poly] = result
        return result

    def test(self, number, mask):
        """Checks if sign of the number is in the mask, may fork."""
        if number.const_mask is not None:
            return bool(number.const_mask & mask)
        # answers do not change along the path
        key = number.key << 3 | mask
        result = self.answers.get(key)
        if result is None:
            result = self.answers[key] = self._test(number, mask)
        return result

    def _test(self, number, mask):
        signature = number.signature
        if signature is None:
            sign, odd, even = self.factors(number.num)
            den_sign, den_odd, _ = self.factors(number.den)
            # denominators are known to be non-zero,
            signature = number.signature = (sign * den_sign, odd + den_odd,
                                            even)
        sign, odd, even = signature
        if len(odd) == 1 and not even:
            return self.test_poly(odd[0], mask if sign > 0 else FLIP[mask])
        for poly_id in even:
            if self.test_poly(poly_id, ZERO):
                return bool(mask & ZERO)
        for poly_id in odd:
            if self.test_poly(poly_id, ZERO):
                return bool(mask & ZERO)
        if mask & NEG and mask & POS:
            return True
        for poly_id in odd:
            if not self.test_poly(poly_id, POS):
                sign = -sign
        return bool(mask & (POS if sign > 0 else NEG))

    def test_poly(self, poly_id, mask):
        known = self.known.get(poly_id, ANY)
        common = known & mask
        if common == known:
            return True
        elif not common:
            return False
        sign = self.signs.get(poly_id)
        if sign is None:
            sign = self.signs[poly_id] = self.sign_at(poly_id, self.witness)
        result = bool(sign & mask)
        refined = common if result else known & ~mask
        self.known[poly_id] = refined
        trace = self.trace
        trace.append((poly_id, known, refined))
        if len(trace) > self.max_decisions:
            raise TooLong
        return result

    def orientation(self, a, b, c):
        """Sign of the turn, is calculated once on the path."""
        ax, ay, bx, by, cx, cy = a.x, a.y, b.x, b.y, c.x, c.y
        key = ax.key, ay.key, bx.key, by.key, cx.key, cy.key
        result = self.orientations.get(key)
        if result is None:
            value = self.turns.get(key)
            if value is None:
                value = self.turns[key] = ((bx - ax) * (cy - ay)
                                           - (by - ay) * (cx - ax))
            result = self.orientations[key] = (
                1 if self.test(value, POS)
                else -1 if self.test(value, NEG) else 0)
        return result

    def concretize(self, number):
        """
        Value of the number on the witness,
        the path is restricted to it, other values are left to other paths.
        """
        if number.const is not None:
            return number.const
        value = self.value_at(number.num) / self.value_at(number.den)
        self.stats['concretized'] += 1
        if not self.test(number - self.coerce(value), ZERO):
            raise Unsupported('conversion of symbolic number')
        return value

    def value_at(self, poly):
        values, denominator = self.witness
        total = Fraction(0)
        for exps, coeff in poly.terms():
            term = Fraction(int(coeff))
            for value, exp in zip(values, exps):
                if exp:
                    term *= Fraction(value, denominator) ** exp
            total += term
        return total

    def sign_at(self, poly_id, witness):
        # witness consists of numerators and the common denominator
        values, denominator = witness
        terms = self.terms[poly_id]
        degree = max(sum(exps) for exps, _ in terms)
        total = 0
        for exps, coeff in terms:
            rest = degree
            for value, exp in zip(values, exps):
                if exp:
                    rest -= exp
                    coeff *= value ** exp
            if rest:
                coeff *= denominator ** rest
            total += coeff
        return POS if total > 0 else NEG if total < 0 else ZERO

    # paths

    def reset(self, values):
        self.known, self.signs, self.trace = {}, {}, []
        self.answers, self.orientations = {}, {}
        self.witness = self.to_witness(values)

    def to_witness(self, values):
        values = [Fraction(values.get(name, 0)) for name in self.names]
        denominator = 1
        for value in values:
            d = value.denominator
            g = _gcd(denominator, d)
            denominator = denominator // g * d
        return (tuple(v.numerator * (denominator // v.denominator)
                      for v in values), denominator)

    def witness_values(self):
        values, denominator = self.witness
        return {name: Fraction(value, denominator)
                for name, value in zip(self.names, values)}

    def explore(self, function, *, start=None, max_paths=None,
                deadline=None):
        """
        Runs function on all paths, yields pairs of result and witness.
        Is complete if ``self.complete`` after exhausting.
        """
        self.complete = False
        # decisions which other outcomes are not explored yet
        work, first = [], True
        shuffled = random.Random(0)
        while first or work:
            if (max_paths is not None and self.stats['paths'] >= max_paths
                    or deadline is not None and time.time() > deadline):
                self.pending = len(work)
                return
            if first:
                first, values, fixed, expected = (False, dict(start or {}), 0,
                                                  None)
            else:
                # paths are taken in random order
                # so that unfinished explorations are spread evenly
                index = shuffled.randrange(len(work))
                work[index], work[-1] = work[-1], work[index]
                values, fixed, expected = self.other(*work.pop())
                if values is None:
                    continue
            self.reset(values)
            try:
                result = function()
            except Unsupported as error:
                self.stats['unsupported'] += 1
                result = error
            except TooLong as error:
                result = error
            self.stats['paths'] += 1
            # code running between paths may compare left coordinates
            trace = tuple(self.trace)
            digests = self.digests(trace)
            if expected is not None and (len(trace) < fixed
                                         or digests[fixed - 1] != expected):
                # execution depends on something besides the coordinates
                self.stats['nondeterministic'] += 1
                yield result, values
                continue
            yield result, values
            self.stats['decisions'] += len(trace) - fixed
            work.extend((trace, digests, index)
                        for index in range(fixed, len(trace)))
        if self.stats['nondeterministic']:
            self.pending = 1
            return
        self.pending = 0
        self.complete = True

    @staticmethod
    def digests(trace):
        """Hashes of prefixes of the trace."""
        result, last = [], 0
        for entry in trace:
            last = hash((last, entry))
            result.append(last)
        return result

    def other(self, trace, digests, index):
        """Witness of the other outcome of the decision, if there is any."""
        known = {poly_id: after for poly_id, _, after in trace[:index]}
        poly_id, before, after = trace[index]
        other = before & ~after
        last = digests[index - 1] if index else 0
        return (self.solve(known, poly_id, other), index + 1,
                hash((last, (poly_id, before, other))))

    # solving

    def solve(self, known, poly_id, mask):
        """Rational model or ``None``."""
        stats = self.stats
        lemmas = self.lemmas[poly_id]
        for position, (lemma_mask, core) in enumerate(lemmas):
            if not (mask & ~lemma_mask) and all(
                    not (known.get(q, ANY) & ~m) for q, m in core):
                stats['lemma_hits'] += 1
                if position > 3:
                    lemmas.insert(0, lemmas.pop(position))
                return None
        started = time.perf_counter()
        try:
            return self._solve(known, poly_id, mask)
        finally:
            stats['solver_s'] += time.perf_counter() - started

    def expression(self, poly_id):
        result = self.poly_exprs[poly_id]
        if result is None:
            context = self.solver.ctx.ref()
            sort = self.real_sort
            summands = []
            for exps, coeff in self.terms[poly_id]:
                factors = [self.reals[i].as_ast()
                           for i, e in enumerate(exps) for _ in range(e)]
                if coeff != 1 or not factors:
                    factors.append(z3.Z3_mk_numeral(context, str(coeff),
                                                    sort))
                    z3.Z3_inc_ref(context, factors[-1])
                if len(factors) == 1:
                    summands.append(factors[0])
                else:
                    summands.append(z3.Z3_mk_mul(
                            context, len(factors),
                            (z3.Ast * len(factors))(*factors)))
                    z3.Z3_inc_ref(context, summands[-1])
            result = self.poly_exprs[poly_id] = z3.ArithRef(
                    summands[0] if len(summands) == 1
                    else z3.Z3_mk_add(context, len(summands),
                                      (z3.Ast * len(summands))(*summands)))
        return result

    def literal(self, poly_id, mask):
        key = poly_id, mask
        result = self.literals.get(key)
        if result is None:
            expr, zero = self.expression(poly_id), self.zero_expr
            atom = {NEG: lambda: expr < zero,
                    ZERO: lambda: expr == zero,
                    POS: lambda: expr > zero,
                    NEG | ZERO: lambda: expr <= zero,
                    POS | ZERO: lambda: expr >= zero,
                    NEG | POS: lambda: expr != zero}[mask]()
            literal = z3.Bool(f'b_{poly_id}_{mask}')
            result = self.literals[key] = literal, atom
            self.solver_ids[literal.get_id()] = key
            if self.linear[poly_id]:
                self.solver.add(z3.Implies(literal, atom))
        return result

    def _solve(self, known, poly_id, mask):
        stats = self.stats
        atoms = [(q, m) for q, m in known.items() if q != poly_id]
        goal = poly_id, known.get(poly_id, ANY) & mask
        linear = self.linear
        # linear part
        literals = [self.literal(q, m)[0] for q, m in atoms if linear[q]]
        if linear[poly_id]:
            literals.append(self.literal(*goal)[0])
        stats['queries'] += 1
        status = self.solver.check(*literals)
        if status == z3.unsat:
            stats['unsat'] += 1
            core = [self.solver_ids[e.get_id()]
                    for e in self.solver.unsat_core()]
            self.learn(poly_id, goal, core)
            return None
        nonlinear = [(q, m) for q, m in atoms if not linear[q]]
        if not linear[poly_id]:
            nonlinear.append(goal)
        if status == z3.sat:
            model = self.rational_model(self.solver.model())
            if model is not None:
                witness = self.to_witness(model)
                if all(self.sign_at(q, witness) & m for q, m in nonlinear):
                    stats['sat'] += 1
                    return model
        elif not nonlinear:
            stats['unknown'] += 1
            return None
        return self.solve_nonlinear(atoms, goal)

    def learn(self, poly_id, goal, core):
        # conjunction of core atoms excludes goal
        self.lemmas[poly_id].append(
                (goal[1], tuple(key for key in core if key != goal)))

    def solve_nonlinear(self, atoms, goal):
        stats = self.stats
        stats['nonlinear_queries'] += 1
        stats['queries'] += 1
        exprs = [self.literal(q, m)[1] for q, m in atoms + [goal]]
        # the most local problem first: linear atoms plus goal
        solver = z3.Tactic('qfnra-nlsat').solver()
        solver.set('timeout', self.timeout_ms)
        solver.add(exprs)
        status = solver.check()
        if status == z3.unsat:
            stats['unsat'] += 1
            return None
        elif status != z3.sat:
            stats['unknown'] += 1
            return None
        stats['sat'] += 1
        model = solver.model()
        result = self.rational_model(model)
        if result is None:
            result = self.search_rational(exprs, model)
            if result is None:
                stats['irrational'] += 1
        return result

    def rational_model(self, model):
        result = {}
        for name, real in zip(self.names, self.reals):
            value = model.eval(real, model_completion=True)
            if not z3.is_rational_value(value):
                return None
            result[name] = Fraction(value.numerator_as_long(),
                                    value.denominator_as_long())
        return result

    def search_rational(self, exprs, model):
        for real in self.reals:
            value = model.eval(real, model_completion=True)
            if z3.is_rational_value(value):
                base = Fraction(value.numerator_as_long(),
                                value.denominator_as_long())
            else:
                value = value.approx(10)
                base = Fraction(value.numerator_as_long(),
                                value.denominator_as_long())
            for candidate in {Fraction(round(base * scale), scale)
                              for scale in (1, 2, 3, 5, 10, 100)}:
                solver = z3.Tactic('qfnra-nlsat').solver()
                solver.set('timeout', 500)
                solver.add(exprs)
                solver.add(real == z3.Q(candidate.numerator,
                                        candidate.denominator))
                self.stats['queries'] += 1
                if solver.check() == z3.sat:
                    result = self.rational_model(solver.model())
                    if result is not None:
                        return result
        return None


def _gcd(a, b):
    while b:
        a, b = b, a % b
    return a
