"""
Chooses structures worth of exploring: runs the real code on the plain
(unmoved) geometries of candidate jobs, records branches taken and prefers
candidates taking rare branches and rare pairs of branches.

Nothing is decided here, answers are not looked at.
"""
import signal
import sys
import types
import zlib
from collections import Counter, defaultdict
from itertools import combinations

TOOL = 3


class _Stuck(Exception):
    pass


def _alarm(signum, frame):
    raise _Stuck


class Recorder:
    """Records branches taken in modules of ``orient``."""

    def __init__(self):
        self.branches = Counter()
        self.names = {}
        monitoring = sys.monitoring
        monitoring.use_tool_id(TOOL, 'scout')
        monitoring.register_callback(TOOL, monitoring.events.BRANCH, self.add)
        self.seen = set()
        for module_name, module in list(sys.modules.items()):
            if module_name.split('.')[0] == 'orient':
                for value in list(vars(module).values()):
                    self.visit(value)

    def visit(self, value):
        if id(value) in self.seen:
            return
        self.seen.add(id(value))
        value = getattr(value, '__wrapped__', value)
        if isinstance(value, types.FunctionType):
            if value.__module__.startswith('orient'):
                self.watch(value.__code__)
        elif isinstance(value, type):
            if value.__module__.startswith('orient'):
                for part in list(vars(value).values()):
                    for attribute in '__func__', 'fget', '__self__':
                        part = getattr(part, attribute, part)
                    self.visit(part)

    def watch(self, code):
        sys.monitoring.set_local_events(TOOL, code,
                                        sys.monitoring.events.BRANCH)
        for constant in code.co_consts:
            if isinstance(constant, types.CodeType):
                self.watch(constant)

    def add(self, code, offset, destination):
        self.branches[code, offset, destination] += 1

    def named(self):
        result = {}
        for key, count in self.branches.items():
            if key not in self.names:
                code, offset, destination = key
                self.names[key] = zlib.crc32(
                        f'{code.co_filename} {code.co_qualname} {offset} '
                        f'{destination}'.encode())
            result[self.names[key]] = count
        self.branches.clear()
        return result

    def close(self):
        sys.monitoring.free_tool_id(TOOL)


def scout(argument):
    """Branches taken for each of the jobs."""
    make, arguments, indices = argument
    from . import laws
    from .runner import converter, exact, instantiate
    from .summary import install
    install()
    try:
        recorder = Recorder()
    except Exception:
        return []
    call = laws.Caller()
    result = []
    signal.signal(signal.SIGALRM, _alarm)
    try:
        for index in indices:
            job_ = make(*arguments, index)
            convert = converter(dict.fromkeys(job_['names'], 0), exact)
            signal.setitimer(signal.ITIMER_REAL, 2)
            recorder.branches.clear()
            left = instantiate(job_['left'], convert)
            right = instantiate(job_['right'], convert)
            try:
                call(job_['fn'], left, right)
            except _Stuck:
                pass
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
            result.append((index, job_['fn'], recorder.named()))
    finally:
        recorder.close()
    return result


def choose(scouted, count, random):
    """Indices of jobs: ``count`` ones, functions are visited in turns."""
    by_function = defaultdict(list)
    for index, fn, branches in scouted:
        by_function[fn].append((index, branches))
    orders = []
    for fn in sorted(by_function):
        items = by_function[fn]
        orders.append(order(items, -(-count // len(by_function)), random))
    random.shuffle(orders)
    result = []
    for k in range(max(map(len, orders), default=0)):
        result.extend(o[k] for o in orders if k < len(o))
    return result


def order(items, count, random):
    totals, present = Counter(), Counter()
    for _, branches in items:
        totals.update(branches)
        present.update(branches.keys())
    size = len(items)
    # out of hot loops, not always taken
    decisive = {b for b, total in totals.items()
                if total <= 3 * size and present[b] < .9 * size}
    singles, pairs = defaultdict(list), defaultdict(list)
    for k, (_, branches) in enumerate(items):
        taken = sorted(decisive & branches.keys())
        for branch in taken:
            singles[branch].append(k)
        taken.sort(key=present.__getitem__)
        for two in combinations(taken[:24], 2):
            pairs[two].append(k)
    singles, pairs = ([v for _, v in sorted(singles.items())],
                      [v for _, v in sorted(pairs.items())])
    result, used = [], set()
    attempts = 0
    while len(result) < min(count, size) and attempts < 50 * count:
        attempts += 1
        u = random.random()
        if u < .4 and singles:
            k = random.choice(random.choice(singles))
        elif u < .8 and pairs:
            k = random.choice(random.choice(pairs))
        else:
            k = random.randrange(size)
        if k not in used:
            used.add(k)
            result.append(items[k][0])
    return result
