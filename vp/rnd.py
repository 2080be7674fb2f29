"""The few Hypothesis strategies the larger generators use, drawn from a random.Random: every case is new and every choice equally likely.
A generator written as f(draw, st) runs with Hypothesis (shrinking) and with this module (diversity)."""
import random



class S:
    def __init__(self, f): self.f = f
    def __call__(self, r): return self.f(r)
    def map(self, g): return S(lambda r: g(self.f(r)))

    def filter(self, ok):
        def go(r):
            while True:
                v = self.f(r)
                if ok(v): return v
        return S(go)


sampled_from = lambda l: S(lambda r, l=list(l): r.choice(l))
just = lambda v: S(lambda r: v)
booleans = lambda: S(lambda r: r.random() < .5)
one_of = lambda *s: S(lambda r: r.choice(s)(r))
tuples = lambda *s: S(lambda r: tuple(q(r) for q in s))
permutations = lambda l: S(lambda r: r.sample(list(l), len(l)))


def integers(a, b):
    return S(lambda r: r.randint(a, b) if r.random() < .8 else min(b, a + (r.getrandbits(r.randint(1, max(1, (b - a).bit_length()))) if b > a else 0)))


def lists(s, min_size=0, max_size=8, unique=False):
    def go(r):
        out = []
        for _ in range(r.randint(min_size, max_size)):
            v = s(r)
            if not unique or v not in out: out.append(v)
        while len(out) < min_size:
            v = s(r)
            if v not in out: out.append(v)
        return out
    return S(go)


def text(alphabet, min_size=0, max_size=8):
    return S(lambda r: ''.join(r.choice(alphabet) for _ in range(r.randint(min_size, max_size))))


def binary(max_size=8):
    return S(lambda r: r.randbytes(r.randint(0, max_size)))


def drawer(seed):
    r = random.Random(seed)
    return lambda s: s(r)
