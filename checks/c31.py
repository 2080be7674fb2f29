"""Answers do not depend on history, on iterations under way or on other threads."""
import os, pickle, random, sys, threading
from hypothesis import strategies as st
from vp import core, env, icudata, interleave
from vp.core import Violation

PID = 'C31'
RULE = ('A case is one history of calls on character data (getters, mappings, names, decompositions, lookups and enumerations under way, with '
        'returned lists overwritten), run forwards, backwards and shuffled in separate fresh processes, or in four threads at once, or one query stopped at a chosen step while another thread makes another; every '
        'call must give the same answer everywhere. Non-trivial: at least 5 different functions and 2 code points; distinct by history.')
ASSUME = ['Each process starts from freshly imported modules; that single answers are right is decided by the other checks.',
          'Threads switch every 20 microseconds, or every microsecond where few functions are asked over and over.']

CHAR = ['getGeneralCategory', 'isLower', 'isUpper', 'isTitle', 'isDigit', 'isHexDigit', 'isalpha', 'isAlphabetic', 'isalnum', 'isDefined', 'isspace', 'isWhiteSpace', 'isBlank', 'isUWhiteSpace',
        'isPrint', 'ispunct', 'isIDStart', 'isIDPart', 'isIDIgnorable', 'isJavaIDStart', 'digitValue', 'getNumericType', 'getNumericTypeValue', 'getNumericValue', 'getAge', 'getScript', 'getBlock',
        'getEastAsianWidth', 'getLineBreak', 'getSentenceBreak', 'getWordBreak', 'getGraphemeClusterBreak', 'getDecompType', 'isEmoji', 'isEmojiComponent', 'isEmojiModifier', 'isExtendedPictograph',
        'isalnumPOSIX', 'isbase', 'iscntrl', 'isISOControl', 'isThatControlSpace', 'isThatASCIIControlSpace', 'isJavaSpaceChar', 'isPrintPOSIX', 'isgraph', 'isGraphPOSIX', 'isJavaIDPart',
        'isEmojiPresentation', 'isEmojiModifierBase']
BIDI = ['getCharDirection', 'isMirrored', 'getMirror', 'isBidiControl', 'isJoinControl', 'getJoiningType', 'getJoiningGroup', 'getPairedBracketType', 'getPairedBracket']
CASE = ['toLower', 'toUpper', 'toTitle', 'toFullLower', 'toFullUpper', 'toFullTitle']
NORM = ['nfcTrie', 'nfkcTrie', 'nfkc_cfTrie']
UTIL = ['isSurrogate', 'isLead', 'isTrail', 'isSurrogateLead', 'isSurrogateTrail', 'surrogatesFromChar', 'isUnicodeNoncharacter', 'highBit']


def load(ctx):
    icudata.overlay(icudata.pack(icudata.system_items()))
    for m in ('CharProps', 'BidiProps', 'CaseProps', 'Normalizer2', 'CharNames', 'LayoutProps', 'Utilities', 'UnicodeSet'): icudata.mod(m)


def plain(v):
    if isinstance(v, list): return ['list', *v]
    return v


SHARED = {}


def shared_set(spec):
    if spec not in SHARED:
        s = icudata.mod('UnicodeSet').UnicodeSet()
        for b, e in spec: s.addRange(b, e - 1)
        SHARED[spec] = s
    return SHARED[spec]


def perform(call, iters, lock=None):
    """One call; iters holds the iterations under way in this process."""
    kind, *a = call
    m = icudata.mod
    if kind == 'fn':
        r = getattr(m(a[0]), a[1])(*a[2:])
        out = plain(r)
        if isinstance(r, list): r[:] = [99] * (len(r) + 1)         # the caller's list is the caller's
        return out
    if kind == 'norm':
        n = getattr(m('Normalizer2'), a[0])
        return n.getDecomposition(a[1]), n.getRawDecomposition(a[1]), n.getNorm16(a[1])
    if kind == 'name':
        N = m('CharNames').CharNames
        return N.getCharName(a[0], a[1])
    if kind == 'find': return m('CharNames').CharNames.charFromName(a[0])
    if kind == 'iterate':
        # starts an iteration and leaves it half done
        N = m('CharNames').CharNames
        it = N.nameIterator(a[0])
        return [next(it, None) for _ in range(a[1])], iters.append(it)
    if kind == 'enum':
        mod, trie, start, limit, take = a
        it = getattr(m(mod), trie).enumerator(start, limit)
        out = []
        for _ in range(take):
            x = next(it, None)
            if x is None: break
            out.append((x[0].start, x[0].stop, x[1]))
        iters.append(it)
        return out
    if kind == 'weave':
        # iterations advanced in turns yield what each yields alone
        specs, turns = a
        make = lambda x: m('CharNames').CharNames.nameIterator(x[0]) if len(x) == 1 else getattr(m(x[0]), x[1]).enumerator(x[2], x[3])
        its = [make(x) for x in specs]
        woven = [[] for _ in specs]
        for t in turns:
            k = t % 3 % len(specs)
            for _ in range(1 + 8 * (t // 3)): woven[k].append(next(its[k], None))
        for x, got in zip(specs, woven):
            it = make(x)
            alone = [next(it, None) for _ in got]
            if got != alone: return 'woven', x, got[-3:], alone[-3:]
        return 'same'
    if kind == 'set':
        # a set asked twice, the lists it returned changed in between, and an equal set
        s, t = [m('UnicodeSet').UnicodeSet() for _ in (0, 1)]
        for b, e in a[0]: s.addRange(b, e - 1), t.addRange(b, e - 1)
        answer = lambda x: (x.getRanges(), list(x), str(x), x.size())
        first = answer(s)
        mine = first[0]
        out = [(r.start, r.stop) for r in mine], *first[1:]
        if isinstance(mine, list): mine[:] = [range(7, 8)]
        for x in (s, t):
            again = answer(x)
            again = [(r.start, r.stop) for r in again[0]], *again[1:]
            if again != out: return 'again', out, again
        return out
    if kind == 'shared':
        # a set that several threads ask, and nobody changes
        spec, other, q, *x = a
        s, o = shared_set(spec), shared_set(other)
        if q in ('union', 'intersection', 'difference', 'symmetric_difference'): r = getattr(s, q)(o); return str(r), r == s
        if q == 'list': return list(s)
        if q == 'ranges': return [(r.start, r.stop) for r in s.getRanges()], s.getRangeCount()
        if q == 'text': return str(s), s == o
        if q == 'bounds': return [(s.getRangeStart(i), s.getRangeEnd(i)) for i in range(s.getRangeCount())]
        return getattr(s, q)(*x)
    if kind == 'step':
        # any iteration under way goes on: no answer of its own
        if iters:
            next(iters[a[0] % len(iters)], None)
        return None
    raise core.HarnessError(kind)


def answers(history, order):
    """{index: answer} of the history run in the order, in a forked process."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            core.arm()
            iters, out = [], {}
            for i in order:
                try: out[i] = ('ok', perform(history[i], iters))
                except Exception as e: out[i] = ('raised', type(e).__name__, str(e)[:100])
            with os.fdopen(w, 'wb') as f: pickle.dump(out, f)
        except core.Hang: code = 7
        except BaseException: code = 1
        os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f: data = f.read()
    _, status = os.waitpid(pid, 0)
    if os.waitstatus_to_exitcode(status) == 7: raise core.Hang(core.CPU_LIMIT)
    if status or not data: raise Violation('the process running the history died')
    return pickle.loads(data)


def threaded(history, seed):
    """The history spread over four threads, in a forked process."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            core.arm()
            sys.setswitchinterval(2e-5)
            out = {}
            start = threading.Barrier(4)
            def work(k):
                rnd = random.Random(seed * 4 + k)
                mine = list(range(len(history)))
                rnd.shuffle(mine)
                iters = []
                start.wait()
                for i in mine:
                    try: out[k, i] = ('ok', perform(history[i], iters))
                    except Exception as e: out[k, i] = ('raised', type(e).__name__, str(e)[:100])
            ts = [threading.Thread(target=work, args=(k,)) for k in range(4)]
            for t in ts: t.start()
            for t in ts: t.join()
            with os.fdopen(w, 'wb') as f: pickle.dump(out, f)
        except core.Hang: code = 7
        except BaseException: code = 1
        os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f: data = f.read()
    _, status = os.waitpid(pid, 0)
    if os.waitstatus_to_exitcode(status) == 7: raise core.Hang(core.CPU_LIMIT)
    if status or not data: raise Violation('the process running the threads died')
    return pickle.loads(data)


@st.composite
def histories(draw):
    base = draw(st.lists(env.code_points(), min_size=1, max_size=3))
    pool = set(base)
    for c in base:
        for d in draw(st.lists(st.sampled_from([1, -1, 32, -32, 0x100, 0x400, 0x10000, -0x10000, 0x20000, 0x100000]), max_size=3)):
            if 0 <= c + d <= 0x10ffff: pool.add(c + d)
    pool = sorted(pool)
    cp = st.sampled_from(pool)
    fns = draw(st.lists(st.sampled_from([('CharProps', f) for f in CHAR] + [('BidiProps', f) for f in BIDI] + [('CaseProps', f) for f in CASE] + [('Utilities', f) for f in UTIL] +
                                        [('LayoutProps', f) for f in ('getInPC', 'getInSC', 'getVO')]), min_size=3, max_size=14, unique=True))
    trie = st.one_of(st.sampled_from([(0,), (2,), (0,), (3,)]), st.tuples(st.sampled_from([('CharProps', 'propsTrie'), ('CharProps', 'propsVectorTrie'), ('BidiProps', 'bidiPropsTrie'), ('CaseProps', 'casePropsTrie'),
                     ('LayoutProps', 'inscTrie'), ('LayoutProps', 'voTrie')]), cp).map(lambda t: (*t[0], t[1], 0x110000)))
    call = st.one_of(
        st.tuples(st.sampled_from(fns), cp).map(lambda t: ('fn', *t[0], t[1])), st.tuples(st.sampled_from(fns), cp).map(lambda t: ('fn', *t[0], t[1])),
        st.tuples(st.sampled_from(fns), cp).map(lambda t: ('fn', *t[0], t[1])),
        st.tuples(cp, st.integers(0, 40), st.integers(0, 2)).map(lambda t: ('fn', 'CharProps', 'getBinaryProp', *t)),
        st.tuples(cp, st.integers(0, 4)).map(lambda t: ('fn', 'CharProps', 'getUnicodeProperties', *t)),
        st.tuples(st.sampled_from(NORM), cp).map(lambda t: ('norm', *t)), st.tuples(st.sampled_from(NORM), cp).map(lambda t: ('norm', *t)),
        st.tuples(cp, st.integers(0, 4)).map(lambda t: ('name', *t)), st.tuples(cp, st.sampled_from([0, 2])).map(lambda t: ('name', *t)),
        st.tuples(st.sampled_from([0, 0, 0, 2]), st.integers(0, 5)).map(lambda t: ('iterate', *t)),
        st.tuples(st.sampled_from([('CharProps', 'propsTrie'), ('CharProps', 'propsVectorTrie'), ('BidiProps', 'bidiPropsTrie'), ('CaseProps', 'casePropsTrie'), ('LayoutProps', 'inscTrie')]),
                  cp, st.integers(1, 6)).map(lambda t: ('enum', *t[0], t[1], 0x110000, t[2])),
        st.tuples(st.lists(trie, min_size=2, max_size=3), st.lists(st.one_of(st.integers(0, 2), st.integers(0, 2), st.integers(0, 11)), min_size=2, max_size=40)).map(lambda t: ('weave', *t)),
        st.tuples(st.lists(st.tuples(cp, st.integers(1, 5)).map(lambda t: (t[0], min(t[0] + t[1], 0x110000))), min_size=1, max_size=3).map(tuple)).map(lambda t: ('set', *t)),
        st.tuples(st.integers(0, 5)).map(lambda t: ('step', *t)))
    h = draw(st.lists(call, min_size=12, max_size=60))
    return h, draw(st.integers(0, 2 ** 16)), draw(st.integers(0, 4)) == 3


def rich():
    """Code points whose answers take the most steps, by the kind of question (found by asking)."""
    C, N, B = icudata.mod('CaseProps'), icudata.mod('Normalizer2'), icudata.mod('BidiProps')
    some = [*range(0x20, 0x3100), *range(0xa640, 0xabc0), *range(0xf900, 0x10000, 3), *range(0x10400, 0x11900, 5), *range(0x1d100, 0x1f200, 7), *range(0x2f800, 0x2fa1e, 9)]
    def classes(cs, f):
        out = {}
        for c in cs: out.setdefault(f(c), []).append(c)
        return [v for k, v in sorted(out.items(), key=repr)]
    def shape(t): return None if t is None else (len(t), any(ord(x) > 0xffff for x in t))
    def full(c): return tuple(shape(getattr(C, f)(c)) for f in CASE[3:])
    def case(c): return tuple((getattr(C, f)(c) > c) - (getattr(C, f)(c) < c) for f in CASE[:3])
    def decomp(c): return tuple((shape(getattr(N, n).getDecomposition(c)), getattr(N, n).getDecomposition(c) == getattr(N, n).getRawDecomposition(c)) for n in NORM)
    mirrored = [c for c in some if B.getMirror(c) != c] + [*range(0x620, 0x6a0), *range(0x10ac0, 0x10ae0)]
    return dict(full=classes(some + [0x130, 0x1e9e], full), case=classes(some, case), decomp=classes(some + [0xac00, 0xac01, 0xd7a3, 0xb098], decomp),
                bidi=classes(mirrored, lambda c: (B.getMirror(c) != c, B.getJoiningGroup(c) != 0, B.getPairedBracketType(c))), any=[some])


def crowd(seed, points):
    """The calls of one round: few functions, few code points, asked over and over by all threads."""
    r = random.Random(seed)
    kind = r.choice(['full', 'full', 'case', 'decomp', 'decomp', 'bidi', 'char', 'char', 'name', 'enum', 'util', 'set', 'shared', 'shared', 'iterate', 'mixed'])
    alike = r.random() < .6
    def pick(k, n):
        one = r.choice(points[k])
        return [r.choice(one if alike else r.choice(points[k])) for _ in range(n)]
    few = r.randint(2, 6)
    if kind in ('full', 'case'):
        fs = r.sample(CASE[3:] if kind == 'full' else CASE[:3], r.randint(1, 2))
        return [('fn', 'CaseProps', f, c) for c in pick(kind, few) for f in fs]
    if kind == 'decomp': return [('norm', r.choice(NORM), c) for c in pick('decomp', few)]
    if kind == 'bidi': return [('fn', 'BidiProps', f, c) for f in r.sample(BIDI, 2) for c in pick('bidi', few)]
    if kind == 'char': return [('fn', 'CharProps', f, c) for f in r.sample(CHAR, 2) for c in pick('any', few)] + [('fn', 'CharProps', 'getUnicodeProperties', c, k) for c in pick('any', 2) for k in (0, 1, 2)]
    if kind == 'name': return [('name', c, r.choice([0, 0, 2])) for c in pick('any', few)] + [('name', c, 0) for c in (r.randint(0xac00, 0xd7a3), r.randint(0x4e00, 0x9fa5))]
    if kind == 'enum': return [('enum', *r.choice([('CharProps', 'propsTrie'), ('CharProps', 'propsVectorTrie'), ('BidiProps', 'bidiPropsTrie'), ('CaseProps', 'casePropsTrie'), ('LayoutProps', 'inscTrie')]),
                               c, 0x110000, r.randint(3, 12)) for c in pick('any', few)]
    if kind == 'util': return [('fn', 'Utilities', f, c) for f in r.sample(UTIL, 3) if f != 'surrogatesFromChar' for c in pick('any', few)] + [('fn', 'Utilities', 'surrogatesFromChar', r.randint(0x10000, 0x10ffff)) for _ in range(few)]
    if kind == 'iterate': return [('iterate', r.choice([0, 0, 2]), r.choice([3, 40, 120])) for _ in range(2)] + [('find', r.choice(['LATIN SMALL LETTER A', 'SPACE', 'TILDE'])), ('name', 0x41, 0)]
    if kind == 'shared':
        def spec(n):
            at, out = r.choice([0, 0x40, 0xfff0, 0x10ff00]), []
            for _ in range(n):
                at += r.randint(1, 6); out.append((at, at + r.randint(1, 5))); at = out[-1][1]
            return tuple((x, min(y, 0x110000)) for x, y in out if x < 0x110000)
        s, o = spec(r.choice([1, 3, 8, 30])), spec(r.choice([1, 3, 8]))
        ms = [c for x, y in s for c in range(x, y)]
        one = lambda: r.choice([('size',), ('size',), ('list',), ('ranges',), ('text',), ('bounds',), ('contains', r.choice(ms) + r.choice([0, 0, 1])), ('indexOf', r.choice(ms) + r.choice([0, 0, 1])), ('charAt', r.randrange(len(ms) + 1)),
                                ('contains', range(s[-1][0], s[-1][1])), ('union',), ('intersection',), ('difference',), ('symmetric_difference',)])
        return [('shared', s, o, *one()) for _ in range(r.randint(1, 5))]
    if kind == 'set': return [('set', tuple((c, c + r.randint(1, 5)) for c in sorted(pick('any', r.randint(1, 4))))) for _ in range(few)]
    return [('fn', 'CaseProps', r.choice(CASE), c) for c in pick('full', 2)] + [('norm', r.choice(NORM), c) for c in pick('decomp', 2)] + [('fn', 'CharProps', r.choice(CHAR), c) for c in pick('any', 3)]


def stressed(calls, seed, times, threads=4):
    """The first call (index) answered unlike alone while threads ask the same calls over and over, or None; in a forked process."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            core.arm()
            def ask(c):
                try: return ('ok', perform(c, []))
                except Exception as e: return ('raised', type(e).__name__, str(e)[:100])
            ref = [ask(c) for c in calls]
            bad = []
            sys.setswitchinterval(1e-6)
            start = threading.Barrier(threads)
            def work(k):
                rnd = random.Random(seed * threads + k)
                order = [rnd.randrange(len(calls)) for _ in range(times)]
                start.wait()
                for i in order:
                    got = ask(calls[i])
                    if got != ref[i]: bad.append((i, ref[i], got)); return
                    if bad: return
            ts = [threading.Thread(target=work, args=(k,)) for k in range(threads)]
            for t in ts: t.start()
            for t in ts: t.join()
            sys.setswitchinterval(5e-3)
            for i, c in enumerate(calls):
                if not bad and ask(c) != ref[i]: bad.append((i, ref[i], ask(c)))
            with os.fdopen(w, 'wb') as f: pickle.dump(bad[:1], f)
        except core.Hang: code = 7
        except BaseException: code = 1
        os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f: data = f.read()
    _, status = os.waitpid(pid, 0)
    if os.waitstatus_to_exitcode(status) == 7: raise core.Hang(core.CPU_LIMIT)
    if status or not data: raise Violation('the process running the threads died')
    return pickle.loads(data)


def forked(fn):
    """What fn() returns in a forked process, which takes all it changed with it."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            core.arm()
            try: out = 'ok', fn()
            except Violation as e: out = 'violation', str(e)
            with os.fdopen(w, 'wb') as f: pickle.dump(out, f)
        except core.Hang: code = 7
        except BaseException: code = 1
        os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f: data = f.read()
    _, status = os.waitpid(pid, 0)
    if os.waitstatus_to_exitcode(status) == 7: raise core.Hang(core.CPU_LIMIT)
    if status or not data: raise Violation('the process asking died')
    kind, out = pickle.loads(data)
    if kind == 'violation': raise Violation(out)
    return out


def ask(c):
    try: return ('ok', perform(c, []))
    except Exception as e: return ('raised', type(e).__name__, str(e)[:100])


def stopped(a, b, seed, most, cold):
    """Stops a at many of its steps while b is asked; the answers must be those given alone.  The number of schedules."""
    r = random.Random(seed)
    root = icudata.mod('CharProps').__file__.rsplit('/', 1)[0]
    fine = r.random() < .4
    def fresh():
        SHARED.clear()
        for c in (a, b):
            if c[0] == 'shared': shared_set(c[1]), shared_set(c[2])
    def once(k, ref, other):
        fresh()
        x, y, n = interleave.stopping(ask, a, other, k, b, fine, root)
        for c, got in ((a, x), (b, y)):
            if got is not None and got != ref[c]:
                raise Violation(f'{show(c)} gives {core.short(ref[c][1:])} alone and {core.short(got[1:])} when {show(b)} is asked at step {k} of {n} of {show(a)}')
        for c in (a, b):
            got = ask(c)
            if got != ref[c]: raise Violation(f'{show(c)} gives {core.short(ref[c][1:])} alone and {core.short(got[1:])} after {show(b)} was asked at step {k} of {n} of {show(a)}')
        return n
    def warm():
        fresh()
        ref = {c: ask(c) for c in (a, b)}
        other = interleave.Other(ask)
        n = once(0, ref, other)
        for k in (range(1, n + 1) if n <= most else sorted(r.sample(range(1, n + 1), most))): once(k, ref, other)
        other.close()
        return ref, n
    ref, n = forked(warm)
    ks = r.sample(range(1, n + 1), min(n, cold))
    for k in ks: forked(lambda: once(k, ref, interleave.Other(ask)))
    return min(n, most) + len(ks)


def show(call): return f'{call[0]}({", ".join(hex(x) if isinstance(x, int) and x > 9 else str(x) for x in call[1:])})'


def run(ctx):
    def one(t):
        h, seed, threads = t
        n = len(h)
        shuffled = list(range(n)); random.Random(seed).shuffle(shuffled)
        ref = answers(h, range(n))
        for what, order in (('backwards', range(n - 1, -1, -1)), ('shuffled', shuffled)):
            got = answers(h, order)
            for i in range(n):
                if h[i][0] != 'step' and got[i] != ref[i]:
                    raise Violation(f'{show(h[i])} gives {core.short(ref[i][1:])} forwards and {core.short(got[i][1:])} {what}')
        seen = {}
        for i in range(n):
            k = repr(h[i])
            if h[i][0] != 'step' and seen.setdefault(k, ref[i]) != ref[i]: raise Violation(f'{show(h[i])} gives {core.short(seen[k][1:])} and later {core.short(ref[i][1:])}')
            if h[i][0] == 'weave' and ref[i] != ('ok', 'same'): raise Violation(f'iterations advanced in turns: {core.short(ref[i][1:])}')
            if h[i][0] == 'set' and ref[i][0] == 'ok' and ref[i][1][0] == 'again': raise Violation(f'{show(h[i])} gives {core.short(ref[i][1][1])}, asked again (its list of ranges changed by the caller) {core.short(ref[i][1][2])}')
            if ref[i][0] == 'raised': raise Violation(f'{show(h[i])} raises {ref[i][1:]}')
        if threads:
            for (k, i), v in threaded(h, seed).items():
                if h[i][0] != 'step' and v != ref[i]: raise Violation(f'{show(h[i])} gives {core.short(ref[i][1:])} alone and {core.short(v[1:])} beside other threads')
            ctx.label('histories in four threads')
        for c in h: ctx.label('calls ' + c[0])
        ctx.case(h, len({repr(c[:3]) for c in h}) > 5, sample=[show(c) for c in h[:10]], label='histories')
    ctx.given('histories', histories(), one, (300, 5000))
    points = forked(rich)
    def schedules(seed):
        r = random.Random(seed * 7 + 1)
        calls = [c for c in crowd(seed, points) if c[0] != 'find']
        a = r.choice(calls)
        same = [c for c in calls if c[:2] == a[:2]]
        b = r.choice(same if r.random() < .6 else calls)
        ctx.current = [show(a), show(b)]
        n = stopped(a, b, seed, 60, 3)
        ctx.count(n - 1)
        ctx.case((a, b, seed), a != b and n > 8, sample=[show(a), show(b), f'{n} schedules'], label='chosen schedules')
    ctx.many('schedules', schedules, (500, 20000))
    def crowded(seed):
        calls = crowd(seed, points)
        ctx.current = [show(c) for c in calls]
        for i, want, got in stressed(calls, seed, 80 if calls[0][0] in ('set', 'enum', 'shared', 'iterate') else 500):
            raise Violation(f'{show(calls[i])} gives {core.short(want[1:])} alone and {core.short(got[1:])} while four threads ask {", ".join(show(c) for c in calls[:8])}')
        ctx.case(calls, len(calls) > 1, sample=[show(c) for c in calls[:6]], label='few functions asked by four threads')
    ctx.many('threads', crowded, (150, 6000))

    # the same questions again and again, in a fresh process
    def again(seed):
        r = random.Random(seed)
        some = [r.choice(r.choice(list(points[k]))) for k in points for _ in range(20)] if seed % 2 else []
        cs = [c for c in some if isinstance(c, int)] + [r.randrange(0x3000) for _ in range(60)] + [r.randrange(0xac00, 0xd7a4) for _ in range(12)] + [r.randrange(0x10000) for _ in range(60)] + [r.randrange(0x110000) for _ in range(40)]
        calls = [('fn', mod, f, c, *more) for mod, f, more in every for c in r.sample(cs, 14)] + [('norm', n, c) for n in NORM for c in cs] + [('name', c, k) for c in r.sample(cs, 40) for k in range(5)]
        def go():
            first = {}
            for n in range(7):
                if n: r.shuffle(calls)
                for call in calls:
                    for _ in range(1 + (n == 3)):
                        v = ask(call)
                        if first.setdefault(call, v) != v: return call, n, first[call], v
        bad = forked(go)
        if bad: raise Violation(f'{show(bad[0])} gives {core.short(bad[2])}, asked again (time {bad[1] + 1}) {core.short(bad[3])}')
        ctx.count(len(calls) * 8)
        ctx.case((seed, 'again'), True, sample=[show(c) for c in calls[:6]], label='asked again and again')
    # every function for itself, about characters it answers differently for
    def alone(mod, f, more, n):
        r = random.Random(f'{ctx.seed} {f} {more} {n}')
        pool = [c for v in points['any'] for c in r.sample(v, 400)]
        kinds = {}
        for c in pool:
            try: kinds.setdefault(repr(plain(getattr(icudata.mod(mod), f)(c, *more))), []).append(c)
            except Exception: pass
        if not kinds: return
        keys = r.sample(sorted(kinds), min(len(kinds), r.randint(2, 5)))
        calls = [('fn', mod, f, r.choice(kinds[k]), *more) for k in keys for _ in range(2 if len(keys) < 3 else 1)]
        ctx.current = [show(c) for c in calls]
        if len(calls) > 1: ctx.count(stopped(calls[0], calls[-1], f'{mod} {f} {n}', 60, 2))
        for i, want, got in stressed(calls, n, 600):
            raise Violation(f'{show(calls[i])} gives {core.short(want[1:])} alone and {core.short(got[1:])} while four threads ask {", ".join(show(c) for c in calls[:8])}')
        ctx.case(calls, len(keys) > 1, sample=[show(c) for c in calls[:6]], label='one function asked by four threads')
    every = [('CharProps', f, ()) for f in CHAR] + [('BidiProps', f, ()) for f in BIDI] + [('CaseProps', f, ()) for f in CASE] + [('Utilities', f, ()) for f in UTIL] + \
            [('LayoutProps', f, ()) for f in ('getInPC', 'getInSC', 'getVO')] + [('CharProps', 'getBinaryProp', (k,)) for k in (0, 5, 20)] + [('CharProps', 'getUnicodeProperties', (k,)) for k in (0, 1, 2)]
    def all_alone():
        for n in range(ctx.quick(2, 40)):
            for mod, f, more in every:
                if ctx.late(): return
                if len(ctx.violations) < 3: ctx.part(f'threads: {f}', alone, mod, f, more, n)
    ctx.many('again and again', again, (12, 400))
    all_alone()
    find = st.tuples(histories(), st.lists(st.sampled_from(['SPACE', 'LATIN SMALL LETTER A', 'NO SUCH NAME', 'CJK UNIFIED IDEOGRAPH-3400', '']), min_size=2, max_size=3))
    ctx.given('names looked up', find.map(lambda t: ([('find', n) for n in t[1]] + t[0][0], t[0][1], False)), one, (4, 40), shrink=False)
