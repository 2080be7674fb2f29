"""Shared harness: budgets, counters, evidence, violation reports, known findings.

A check is a module checks/<id>.py with PID, RULE and run(ctx).  Inside run() each sub-check drives
generated inputs through the code under test and raises Violation (or lets an exception of the code
under test escape) when the property fails.
"""
import os, sys, time, json, random, signal, traceback, resource, hashlib, shutil, tempfile, atexit, unittest

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
STOP = bool(os.environ.get('VP_STOP'))     # end at the first violation, unreduced (tools/mutate.py)
TIER = 'thorough' if os.environ.get('VERIF_TIER', 'quick') == 'thorough' else 'quick'
HYP = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'

sys.dont_write_bytecode = True
if HYP not in sys.path: sys.path.append(HYP)

CPU_LIMIT = 60          # CPU seconds for one generated case; ordinary cases take micro- to milliseconds
PART_LIMIT = 400 if TIER == 'quick' else 3000      # CPU seconds for a part that is not made of generated cases; quick ones take up to 20 s
MEM_LIMIT = 8 << 30


class Violation(Exception):
    """The property does not hold; args[0] says how."""


class Hang(BaseException):
    """One case used more CPU time than CPU_LIMIT."""


class HarnessError(Exception):
    pass


# What comparing a malformed answer (None for a pair, a wrong type) raises in the check itself.  On the unchanged tree nothing raises these.
MALFORMED = (TypeError, ValueError, AttributeError, LookupError, ArithmeticError, StopIteration, FileNotFoundError)


_scratch = None
def even_draws():
    """Hypothesis draws small integers far more often than others, also as positions in a list to choose from: draw short ranges evenly most of the time."""
    from hypothesis.internal.conjecture.providers import HypothesisProvider as P
    skewed = getattr(P, '_draw_integer_from_distribution', None)
    if skewed is None or getattr(skewed, 'even', False): return
    def draw(self, min_value, max_value):
        if min_value is not None and max_value is not None:
            n = max_value - min_value
            if n < 1 << 16 and self._random.random() < .85 or n < 1 << 64 and self._random.random() < .35: return self._random.randint(min_value, max_value)
        return skewed(self, min_value, max_value)
    draw.even = True
    from hypothesis.internal.conjecture import engine
    engine.MAX_SHRINKING_SECONDS = 40
    P._draw_integer_from_distribution = draw


def scratch():
    """A scratch directory of this run, removed at exit."""
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='vp-')
        atexit.register(shutil.rmtree, _scratch, True)
    return _scratch


def code_frames(tb):
    """The innermost frame of the traceback that runs code under test, or None."""
    roots = [os.path.realpath(REPO) + os.sep, os.path.abspath(REPO) + os.sep]
    if _scratch: roots.append(os.path.join(_scratch, 'overlay') + os.sep)
    found = None
    for fs in traceback.extract_tb(tb):
        fn = os.path.abspath(fs.filename)
        if any(fn.startswith(r) for r in roots) or any(os.path.realpath(fn).startswith(r) for r in roots):
            found = f'{os.path.basename(fs.filename)}:{fs.name}'
    return found


def unexpected(e, where):
    if where: return f'unexpected {type(e).__name__}: {short(str(e), 200)} in {where}'
    at = [f'{os.path.basename(f.filename)}:{f.lineno}: {f.line}' for f in traceback.extract_tb(e.__traceback__) if os.sep + 'checks' + os.sep in f.filename][-1:]
    return f'the answer is not of its kind: {type(e).__name__}: {short(str(e), 200)} at {"".join(at)}'


def short(x, n=600):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[:n] + f'... ({len(s)} chars)'


SLOW = ('C02', 'C30', 'C31')


class Ctx:
    def __init__(self, pid, rule):
        self.pid, self.rule = pid, rule
        self.tier, self.seed = TIER, SEED
        self.t0 = time.time()
        self.evaluations = 0
        self.nontrivial = set()
        self.nontrivial_extra = 0      # distinct by construction (enumerated points)
        self.classes = {}
        self.samples = []
        self.sample_per = {}
        self.violations = []
        self.hung = False
        self.known_hits = []
        self.notes = []
        self.exhaustive = None
        self.current = None
        self.known = load_known(pid)
        self.sub = ''

    def quick(self, q, t):
        return t if self.tier == 'thorough' else q

    def amount(self, examples):
        """How many cases to make: of (quick, thorough) the one for this run, quick ones doubled where the check is fast."""
        if not isinstance(examples, tuple): return examples
        q, t = examples
        return t if self.tier == 'thorough' else q if self.pid in SLOW else min(2 * q, max(q, t))

    def late(self):
        """Whether the time for generated cases is over (a slow machine, or code much slower than it was)."""
        if time.time() - self.t0 < (480 if self.tier != 'thorough' else 6 * 3600): return False
        if 'time' not in self.classes: self.label('time', 0); self.notes.append(f'generation stopped early in part {self.sub!r}: the time was over')
        return True

    # -- counting -----------------------------------------------------------------------------
    def count(self, n=1): self.evaluations += n
    def label(self, name, n=1): self.classes[name] = self.classes.get(name, 0) + n
    def case(self, key, nontrivial, sample=None, label=None):
        """Counts one generated case. key identifies it, nontrivial says whether the rule holds."""
        self.evaluations += 1
        if label: self.label(label)
        if nontrivial:
            k = hashlib.blake2b(repr(key).encode('utf-8', 'surrogatepass'), digest_size=8).digest()
            if k not in self.nontrivial:
                self.nontrivial.add(k)
                if self.sample_per.get(self.sub, 0) < 3:
                    self.sample_per[self.sub] = self.sample_per.get(self.sub, 0) + 1
                    self.samples.append({'part': self.sub, 'case': short(sample if sample is not None else key, 400)})

    # -- running ------------------------------------------------------------------------------
    def part(self, name, fn, *a, **k):
        """Runs one sub-check, turning its failure into a recorded violation."""
        self.sub = name
        self.current = None
        if self.hung: return           # no answer once: the other parts would only wait again
        try:
            arm(PART_LIMIT)
            fn(*a, **k)
        except Violation as e:
            self.fail(name, str(e), self.current)
        except Hang as e:
            self.hung = True
            self.fail(name, f'no answer within {e.args[0]} s of CPU time (ordinary cases take milliseconds)', self.current)
        except HarnessError:
            raise
        except MemoryError as e:
            where = code_frames(e.__traceback__)
            if where is None: raise
            self.fail(name, f'out of memory ({MEM_LIMIT >> 30} GB) in {where}', self.current)
        except Exception as e:
            where = code_frames(e.__traceback__)
            if where is None and not isinstance(e, MALFORMED): raise
            self.fail(name, unexpected(e, where), self.current)
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)

    def given(self, name, strategy, body, examples, shrink=True, known=None):
        """Drives body(value) over generated values; the shrunk failing value becomes the replay."""
        import hypothesis
        from hypothesis import given, settings, HealthCheck, Phase
        ctx = self
        even_draws()
        n = self.amount(examples)

        failed = []

        def one(value):
            if ctx.late() and not failed: return
            ctx.current = value
            try: ctx.answer(body, value, hypothesis.errors.HypothesisException)
            except Violation as e:
                if not failed: failed.append((e, value))
                raise

        def run(phases, database):
            test = settings(max_examples=n, database=database, deadline=None, phases=phases, report_multiple_bugs=False, print_blob=False,
                suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large, HealthCheck.large_base_example, HealthCheck.filter_too_much])(given(strategy)(one))
            # not seed(): it takes the database away
            test._hypothesis_internal_use_seed = self.seed
            test._hypothesis_internal_database_key = b'vp'
            test()
        less = [Phase.shrink] if shrink and not STOP else []
        def go():
            run([Phase.explicit, Phase.generate] + less, None)
            # Hypothesis repeats and varies what it has seen; the same number of independent cases besides
            from hypothesis.control import BuildContext
            from hypothesis.internal.conjecture.data import ConjectureData
            from hypothesis.database import InMemoryExampleDatabase, choices_to_bytes
            r = random.Random(f'{self.pid} {name} {self.seed}')
            for _ in range(n if shrink else 0):
                if ctx.late(): break
                data = ConjectureData(random=r, max_choices=1 << 20)
                try:
                    with BuildContext(data, wrapped_test=one): one(data.draw(strategy))
                except (hypothesis.errors.StopTest, hypothesis.errors.UnsatisfiedAssumption): continue
                except Violation:
                    if less:
                        disarm()
                        db = InMemoryExampleDatabase()
                        db.save(b'vp.secondary', choices_to_bytes(data.choices))
                        keep = self.current
                        run([Phase.reuse] + less, db)
                        self.current = keep
                    raise
        def repeatable():
            try: go()
            except (Violation, Hang): raise
            except Exception as e:
                # a failure that does not repeat: the answer depends on the cases before
                if not failed or not isinstance(e, (unittest.SkipTest, hypothesis.errors.HypothesisException)): raise
                first, self.current = failed[0]
                self.answer(body, self.current)
                raise Violation(f'{first} (only after other cases: the same case alone passes)') from e
        self.part(name, repeatable)

    def answer(self, body, value, passing=()):
        """body(value) within the CPU budget of a case; a failure of the code under test is a violation."""
        arm()
        try:
            body(value)
        except (Violation, Hang, HarnessError): raise
        except passing: raise
        except Exception as e:
            where = code_frames(e.__traceback__)
            if where is None and not isinstance(e, MALFORMED): raise
            raise Violation(unexpected(e, where)) from e
        finally:
            disarm()

    def many(self, name, body, examples):
        """Drives body(seed) for many seeds, each the start of a random.Random from which body makes its case (no shrinking, no repetitions).
        body may record the case it made in ctx.current."""
        n = self.amount(examples)
        r = random.Random(f'{self.pid} {name} {self.seed}')
        def go():
            for _ in range(n):
                if self.late(): break
                self.current = s = r.getrandbits(48)
                self.answer(body, s)
        self.part(name, go)

    def stateful(self, name, machine, examples, steps):
        """Drives a rule-based state machine; machine.history (class attribute) holds the last history."""
        import hypothesis
        from hypothesis import settings, seed, HealthCheck, Phase
        from hypothesis.stateful import run_state_machine_as_test
        even_draws()
        n = self.amount(examples); k = self.quick(*steps) if isinstance(steps, tuple) else steps
        st = settings(max_examples=n, stateful_step_count=k, database=None, deadline=None, report_multiple_bugs=False,
                      print_blob=False, suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large,
                                                              HealthCheck.filter_too_much],
                      phases=[Phase.explicit, Phase.generate, Phase.shrink])
        def go():
            import io, contextlib
            seed(self.seed)(machine)
            buf = io.StringIO()
            try:
                with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
                    run_state_machine_as_test(machine, settings=st)
            except hypothesis.errors.Flaky as e:
                # a failure that does not repeat: the answer depends on the histories before
                first = next((x for x in getattr(e, 'exceptions', ()) if isinstance(x, Violation)), None)
                if first is None: raise
                raise Violation(f'{first} (only after other histories: the same history alone passes)') from e
            finally:
                self.current = getattr(machine, 'last', None)
                disarm()
        self.part(name, go)

    def guard(self, case, fn):
        """Runs fn() as one case (CPU budget armed, current case recorded)."""
        self.current = case
        arm()
        try: return fn()
        finally: disarm()

    # -- outcome ------------------------------------------------------------------------------
    def fail(self, part, msg, case):
        key = f'{part}: {msg}'
        for k in self.known:
            if k['part'] == part and all(s in f'{msg} {case!r}' for s in k['match']):
                self.known_hits.append((k['id'], k['what']))
                return
        os.makedirs(f'{VERIF}/evidence/replay', exist_ok=True)
        path = f'{VERIF}/evidence/replay/{self.pid}-{len(self.violations) + 1}.json'
        with open(path, 'w', encoding='utf-8', errors='backslashreplace') as f:
            json.dump({'property': self.pid, 'part': part, 'what': msg, 'case': case if jsonable(case) else repr(case),
                       'case_repr': repr(case), 'seed': self.seed, 'tier': self.tier,
                       'rerun': f'VERIF_SEED={self.seed} VERIF_TIER={self.tier} bash /verif/run.sh {self.pid}'},
                      f, indent=1, ensure_ascii=True)
        self.violations.append((part, msg, case, path))
        print(f'VIOLATION property={self.pid} replay={path}')
        print(f'  part={part}\n  {short(msg, 1500)}\n  case={short(repr(case), 1500)}', flush=True)
        if STOP: sys.exit(1)

    def finish(self, assumptions):
        cov = {'evaluations': self.evaluations, 'distinct_nontrivial': len(self.nontrivial) + self.nontrivial_extra,
               'rule': self.rule, 'samples': self.samples or ['(none)'], 'classes': dict(sorted(self.classes.items()))}
        if self.exhaustive is not None: cov['exhaustive'] = self.exhaustive
        if self.notes: cov['notes'] = self.notes
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': 'exploration', 'coverage': cov,
              'assumptions': assumptions, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.violations)}
        os.makedirs(f'{VERIF}/evidence', exist_ok=True)
        with open(f'{VERIF}/evidence/{self.pid}.json', 'w') as f: json.dump(ev, f, indent=1)
        for kid, what in sorted(set(self.known_hits)):
            print(f'KNOWN-FINDING: property={self.pid} {what}')
        print(f'{self.pid}: {self.evaluations} cases, {len(self.nontrivial) + self.nontrivial_extra} distinct non-trivial, '
              f'{len(self.violations)} violations, {ev["wall_s"]} s')
        return 1 if self.violations else 0


def jsonable(x):
    try: json.dumps(x); return True
    except Exception: return False


def load_known(pid):
    """Open findings of this property (fixed ones suppress nothing)."""
    p = f'{VERIF}/known-findings.json'
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p)).get('open', []) if k['property'] == pid]


_limit = CPU_LIMIT
def _alarm(sig, frame): raise Hang(_limit)
def arm(limit=CPU_LIMIT):
    global _limit
    _limit = limit
    signal.setitimer(signal.ITIMER_VIRTUAL, limit)
def disarm(): signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def main(pid):
    signal.signal(signal.SIGVTALRM, _alarm)
    resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
    sys.setrecursionlimit(5000)
    import importlib, warnings
    warnings.filterwarnings('ignore')
    random.seed(SEED)
    sys.path.insert(0, VERIF)
    mod = importlib.import_module(f'checks.{pid.lower()}')
    ctx = Ctx(pid, mod.RULE)
    rp = f'{VERIF}/evidence/replay'
    if os.path.isdir(rp):
        for f in os.listdir(rp):
            if f.startswith(pid + '-'): os.remove(os.path.join(rp, f))
    try:
        # importing the code under test is itself part of what is checked
        ctx.part('import', lambda: mod.load(ctx) if hasattr(mod, 'load') else None)
        if not ctx.violations: mod.run(ctx)
    except BaseException as e:
        if STOP and isinstance(e, SystemExit): return 1
        where = code_frames(e.__traceback__) if isinstance(e, Exception) and not isinstance(e, HarnessError) else None
        if where or isinstance(e, MALFORMED): ctx.fail('between parts', unexpected(e, where), ctx.current)
        # a check that cannot run gives no answer: an error exit, never a violation or a pass
        if ctx.violations:
            traceback.print_exc()
            ctx.finish(getattr(mod, 'ASSUME', []))
            return 1
        traceback.print_exc()
        return 2
    return ctx.finish(getattr(mod, 'ASSUME', []))
