"""Unicode 13 reference data (oracle/unicode13.json.gz) and complete sweeps of the code space against it."""
import gzip, json, os, random, time
from . import core
from .core import Violation, VERIF

_data = None
def data():
    global _data
    if _data is None:
        with gzip.open(f'{VERIF}/oracle/unicode13.json.gz', 'rt') as f: _data = json.load(f)
    return _data


_cache = {}
def values(prop):
    """The property's value for every code point, as a list of 0x110000 entries."""
    if prop not in _cache:
        runs = data()['ranges'][prop]
        out = []
        for (a, v), (b, _) in zip(runs, runs[1:] + [[0x110000, None]]):
            out += [tuple(v) if isinstance(v, list) else v] * (b - a)
        assert len(out) == 0x110000
        _cache[prop] = out
    return _cache[prop]


def strings(name):
    """{code point: string} of a mapping, only where it differs from the identity."""
    return {int(k, 16): ''.join(chr(int(x, 16)) for x in v.split()) for k, v in data()['strings'][name].items()}


def blocks(ctx, size=256):
    """The code space in blocks, in an order drawn from the seed."""
    starts = list(range(0, 0x110000, size))
    random.Random(ctx.seed).shuffle(starts)
    return [range(s, s + size) for s in starts]


class Job:
    """norm(fn(c)) == want[c] for every code point.  default is the expected value of an uninteresting code point."""
    def __init__(self, name, fn, want, default=None, show=repr, norm=None, what='Unicode 13 says'):
        self.name, self.fn, self.want, self.default, self.show, self.norm, self.what = name, fn, want, default, show, norm, what


def _sweep(args):
    """Runs one job (in a child process); returns (bad count, lowest bad, problem, where it happened, code points visited)."""
    i, order, budget = args
    end = time.time() + budget
    seen = 0
    job = _jobs[i]
    fn, want, norm = job.fn, job.want, job.norm
    bad, at = [], None
    try:
        for s in order:
            if time.time() > end: break
            core.arm()
            blk = range(s, s + 256)
            at = s
            try:
                diff = [c for c in blk if fn(c) != want[c]]
            except Exception:
                for at in blk: fn(at)
                raise
            if diff and norm: diff = [c for c in diff if norm(fn(c)) != want[c]]
            bad += diff
            seen += 256
            if len(bad) > 4096: break
    except core.Hang:
        return 0, at, f'no answer within {core.CPU_LIMIT} s of CPU time', True, seen
    except MemoryError as e:
        return 0, at, 'out of memory', core.code_frames(e.__traceback__) is not None, seen
    except Exception as e:
        where = core.code_frames(e.__traceback__)
        return 0, at, f'unexpected {type(e).__name__}: {core.short(str(e), 200)}' + (f' in {where}' if where else ''), where is not None or isinstance(e, core.MALFORMED), seen
    finally:
        core.disarm()
    return len(bad), min(bad) if bad else None, None, True, seen


_jobs = []
def sweep_all(ctx, jobs):
    """Every job over the whole code space, visited in a seed-dependent order, jobs in parallel processes.  Reports the lowest
    failing code point of each."""
    global _jobs
    import multiprocessing as mp
    _jobs = jobs
    order = [b.start for b in blocks(ctx)]
    procs = min(8, len(jobs), os.cpu_count() or 1)
    # code much slower than it was is not wrong: what could not be visited is noted
    budget = ctx.quick(240, 4 * 3600) / -(-len(jobs) // procs)
    with mp.get_context('fork').Pool(procs) as pool:
        results = pool.map(_sweep, [(i, order, budget) for i in range(len(jobs))], chunksize=1)
    for job, (n, c, problem, ours, seen) in zip(jobs, results):
        if not n and not problem and seen < 0x110000: ctx.notes.append(f'{job.name}: {seen} code points visited, then the time was over')
        ctx.part(job.name, _report, ctx, job, n, c, problem, ours, seen)
    ctx.part('in turn', _in_turn, ctx, jobs)


def _in_turn(ctx, jobs):
    """The functions asked in turn in one process, of a few code points at a time, each twice."""
    r = random.Random(f'{ctx.pid} in turn {ctx.seed}')
    edges = sorted({c for j in jobs for c in _edges(j.want)})
    rounds = ctx.quick(400_000, 4_000_000) // (8 * len(jobs))
    known = values('gc')
    for k in range(rounds):
        if k % 64 == 0:
            if ctx.late(): break
            core.arm()
        some = []
        while len(some) < 4:
            c = r.choice((r.choice(edges), r.randrange(0x110000), r.randrange(0x3000), (some[-1] ^ 1 << r.randrange(r.choice((11, 21)))) if some else 0))
            if some and c > 0x10ffff: continue
            if known[c] or r.random() < .2: some.append(c)
        asked = [(j, c) for j in jobs for c in some] * 2
        r.shuffle(asked)
        for j, c in asked:
            got = j.fn(c)
            if got != j.want[c] and (j.norm is None or j.norm(got) != j.want[c]):
                ctx.current = [j.name, hex(c)]
                raise Violation(f'{j.name}(U+{c:04X}) is {j.show(got)}, {j.what} {j.show(j.want[c])}, when {len(jobs)} functions are asked of {[hex(x) for x in some]} in turn')
        ctx.count(len(asked))
    ctx.label('asked in turn', rounds * 8 * len(jobs))


def _edges(want):
    """Some code points where the expected value changes."""
    out = _edge_cache.get(id(want))
    if out is None:
        import itertools
        at, out = 0, []
        for _, g in itertools.groupby(want):
            out.append(at); at += sum(1 for _ in g)
        _edge_cache[id(want)] = out
    return out
_edge_cache = {}


def _report(ctx, job, n, c, problem, ours, seen):
    name, want, show = job.name, job.want, job.show
    ctx.count(seen)
    nontrivial = (0x110000 - want.count(job.default)) * seen // 0x110000
    ctx.nontrivial_extra += nontrivial
    ctx.label(name + ' non-default', nontrivial)
    if ctx.sample_per.get(name, 0) == 0 and nontrivial:
        ctx.sample_per[name] = 1
        r = random.Random(ctx.seed)
        k = next((k for k in (r.randrange(0x110000) for _ in range(4000)) if want[k] != job.default), None)
        if k is not None: ctx.samples.append({'part': name, 'case': f'U+{k:04X} -> {show(want[k])}'})
    if c is not None: ctx.current = f'{name}(0x{c:X})'
    if problem:
        if not ours: raise RuntimeError(f'{name} at {c:#x}: {problem}')
        raise Violation(f'{name} at or after U+{c:04X}: {problem}')
    if n:
        raise Violation(f'{name}(U+{c:04X}) is {show(job.fn(c))}, {job.what} {show(want[c])}; {n}{"+" if n > 4096 else ""} code points differ')
