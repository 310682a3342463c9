"""Common machinery of every check: seeded randomness, monitors, verdicts, evidence.

A check drives the real assembler (imported from /repo's working tree) with
generated workloads and compares what it observes at the public boundary
(output bytes, location counter, labels, exceptions, files, stdout) with an
independent oracle. Every comparison goes through Check.expect()."""
import json
import os
import random
import signal
import sys
import time
import traceback
import hashlib

REPO = os.environ.get('NV_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True


def import_repo():
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    import necroassembler
    got = os.path.realpath(necroassembler.__file__)
    if not got.startswith(os.path.realpath(REPO) + os.sep):
        print('inconclusive: necroassembler imported from', got)
        sys.exit(2)
    return necroassembler


class LineMonitor:
    """Counts the distinct source lines of /repo/necroassembler executed
    (PEP 669 LINE events, each location disabled after its first hit)."""

    def __init__(self):
        self.lines = {}
        self.active = False
        mon = getattr(sys, 'monitoring', None)
        if mon is None:
            return
        prefix = os.path.realpath(os.path.join(REPO, 'necroassembler')) + os.sep
        lines = self.lines

        def on_line(code, line):
            fn = code.co_filename
            if fn.startswith(prefix):
                lines.setdefault(fn[len(prefix):], set()).add(line)
            return mon.DISABLE
        try:
            mon.use_tool_id(mon.COVERAGE_ID, 'nv')
            mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, on_line)
            mon.set_events(mon.COVERAGE_ID, mon.events.LINE)
            self.active = True
        except Exception:
            pass

    def summary(self):
        return {k: len(v) for k, v in sorted(self.lines.items())}


class Timeout(BaseException):
    pass


def _alarm(signum, frame):
    raise Timeout()


class Outcome:
    """What one execution of the real assembler did."""
    __slots__ = ('data', 'exc', 'asm', 'stage', 'events', 'exc_type')

    def __init__(self):
        self.data = None
        self.exc = None
        self.exc_type = None
        self.asm = None
        self.stage = None
        self.events = []

    @property
    def ok(self):
        return self.exc is None

    def brief(self):
        if self.exc is None:
            return 'bytes ' + bytes(self.data).hex(' ')[:600]
        return 'error at {0}: {1}: {2}'.format(self.stage, self.exc_type, str(self.exc)[:300])


CASE_TIMEOUT = 30


def execute(factory, sources, link=True, linker=None, context=None, setup=None):
    """Assembles the sources in order with one fresh assembler and links."""
    out = Outcome()
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_TIMEOUT)
    try:
        try:
            out.stage = 'create'
            asm = out.asm = factory()
            if setup is not None:
                setup(asm, out)
            out.stage = 'assemble'
            if isinstance(sources, str):
                sources = [sources]
            for src in sources:
                if context is None:
                    asm.assemble(src)
                else:
                    asm.assemble(src, context)
            if link:
                out.stage = 'link'
                asm.link(linker) if linker is not None else asm.link()
            out.stage = 'done'
            out.data = bytes(asm.assembled_bytes)
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)
    except Timeout:
        out.exc = RuntimeError('no answer within %d s' % CASE_TIMEOUT)
        out.exc_type = 'Timeout'
    except RecursionError as e:
        out.exc, out.exc_type = e, 'RecursionError'
    except Exception as e:
        out.exc, out.exc_type = e, type(e).__name__
    return out


# how much more of the random workload a thorough run takes, where it stays well under fifteen minutes
DEEPER = {'C01': 2, 'C02': 3, 'C03': 2, 'C04': 4, 'C05': 4, 'C07': 2, 'C09': 6, 'C10': 8, 'C11': 2, 'C12': 2, 'C13': 3, 'C14': 3, 'C15': 2, 'C17': 4, 'C19': 2,
          'C20': 2, 'C30': 2, 'C31': 8, 'C32': 2, 'C33': 3, 'C36': 10, 'C39': 2}


class Check:
    def __init__(self, prop, rule, min_evaluations=100, assumptions=(), level='exploration'):
        self.prop = prop
        self.rule = rule
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if '--thorough' in sys.argv or '--tier=thorough' in sys.argv:
            self.tier = 'thorough'
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        try:
            self.seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError:
            self.seed = 1
        self.thorough = self.tier == 'thorough'
        self.rng = random.Random('%s/%d/%s' % (prop, self.seed, self.tier))
        self.level = level
        self.assumptions = list(assumptions)
        self.min_evaluations = min_evaluations
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.counters = {}
        self.sets = {}
        self.violations = {}
        self.known_hit = {}
        self.t0 = time.time()
        self.budget = 2400 if self.thorough else 500
        self.lines = LineMonitor()
        self.required = {}
        global CURRENT
        CURRENT = self
        with open(os.path.join(VERIF, 'known_findings.json')) as f:
            self.known = [k for k in json.load(f)['findings'] if k['property'] == prop]

    # -- workload size
    def n(self, quick, thorough=None):
        return (thorough if thorough is not None else quick * 10) * DEEPER.get(self.prop, 1) if self.thorough else quick

    def time_left(self):
        return self.budget - (time.time() - self.t0)

    # -- observations
    def count(self, name, k=1):
        self.counters[name] = self.counters.get(name, 0) + k

    def see(self, name, value):
        self.sets.setdefault(name, set()).add(value)

    def require(self, name, minimum):
        """The run is inconclusive unless this counter/set reached minimum."""
        self.required[name] = minimum

    def case(self, key, sample=None, nontrivial=True):
        self.evaluations += 1
        if nontrivial:
            self.distinct.add(hashlib.blake2b(repr(key).encode(), digest_size=8).digest())
        if sample is not None and len(self.samples) < 6 and (self.evaluations % 97 == 1):
            self.samples.append(str(sample)[:600])

    def sample(self, text):
        if len(self.samples) < 8:
            self.samples.append(str(text)[:600])

    # -- verdicts
    def violation(self, mech, what, replay=None):
        """mech: short stable name of the mechanism that failed."""
        for k in self.known:
            if k['mechanism'] == mech and k.get('status') == 'open':
                self.known_hit.setdefault(mech, k)
                self.count('known_finding_hits')
                return
        v = self.violations.setdefault(mech, {'what': what, 'replay': replay, 'count': 0})
        v['count'] += 1
        if len(self.violations) >= int(os.environ.get("NV_MAX", "40")):
            self.finish()

    def expect(self, cond, mech, what, replay=None):
        self.count('oracle_comparisons')
        if not cond:
            self.violation(mech, what() if callable(what) else what,
                           replay() if callable(replay) else replay)
        return cond

    def finish(self):
        wall = time.time() - self.t0
        cov = {
            'evaluations': self.evaluations,
            'distinct_nontrivial': len(self.distinct),
            'rule': self.rule,
            'samples': self.samples[:8] or ['(none)'],
            'monitor_events': dict(sorted(self.counters.items())),
            'distinct_seen': {k: len(v) for k, v in sorted(self.sets.items())},
            'repo_lines_executed': self.lines.summary(),
            'known_findings_observed': sorted(self.known_hit),
        }
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.level,
              'coverage': cov, 'assumptions': self.assumptions, 'wall_s': round(wall, 3),
              'violations': len(self.violations)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        path = os.path.join(VERIF, 'evidence', self.prop + '.json')
        with open(path + '.tmp', 'w') as f:
            json.dump(ev, f, indent=1)
        os.replace(path + '.tmp', path)
        for k in self.known:
            if k.get('status') == 'open':
                if k['mechanism'] in self.known_hit or k.get('always', True):
                    print('KNOWN-FINDING: property=%s %s%s' % (
                        self.prop, k['what'], '' if k['mechanism'] in self.known_hit else ' (not reached in this run)'))
        print('%s %s seed=%d: %d executions (%d distinct non-trivial), %d comparisons, %.1fs' % (
            self.prop, self.tier, self.seed, self.evaluations, len(self.distinct),
            self.counters.get('oracle_comparisons', 0), wall))
        if self.violations:
            rdir = os.path.join(VERIF, 'replay', self.prop)
            os.makedirs(rdir, exist_ok=True)
            for i, (mech, v) in enumerate(list(self.violations.items())[:int(os.environ.get('NV_SHOW', '15'))]):
                rp = os.path.join(rdir, '%d.json' % i)
                with open(rp, 'w') as f:
                    json.dump({'property': self.prop, 'seed': self.seed, 'tier': self.tier, 'mechanism': mech,
                               'what': v['what'], 'occurrences': v['count'], 'replay': v['replay'],
                               'rerun': 'VERIF_SEED=%d VERIF_TIER=%s python3 run.py %s' % (self.seed, self.tier, self.prop)},
                              f, indent=1, default=repr)
                print('VIOLATION property=%s replay=%s' % (self.prop, rp))
                print('  [%s] x%d: %s' % (mech, v['count'], str(v['what'])[:700]))
            sys.stdout.flush()
            os._exit(1)
        missing = []
        for name, minimum in self.required.items():
            got = self.counters.get(name, len(self.sets.get(name, ())))
            if got < minimum:
                missing.append('%s=%d<%d' % (name, got, minimum))
        if self.evaluations < self.min_evaluations:
            missing.append('evaluations=%d<%d' % (self.evaluations, self.min_evaluations))
        if missing:
            print('INCONCLUSIVE: ' + ', '.join(missing))
            sys.stdout.flush()
            os._exit(2)
        sys.stdout.flush()
        os._exit(0)


CURRENT = None


def uncaught(e):
    """An exception nobody expected: when it left the code of the assembler (and not
    a monitor called by it) during a run, an operation that must succeed failed."""
    if CURRENT is None:
        return
    repo = os.path.realpath(os.path.join(REPO, 'necroassembler')) + os.sep
    nv = os.path.join(VERIF, 'nv') + os.sep
    last = None
    for f in traceback.extract_tb(e.__traceback__):
        if os.path.realpath(f.filename).startswith(repo):
            last = f
        elif f.filename.startswith(nv):
            last = None
    if last is not None:
        CURRENT.violation('uncaught/%s' % type(e).__name__, 'the assembler failed with %s: %s (%s:%d, in %s) where it has to succeed' % (
            type(e).__name__, str(e)[:300], os.path.basename(last.filename), last.lineno, last.name),
            {'traceback': traceback.format_exception(e)})
    if CURRENT.violations and not isinstance(e, (SystemExit, KeyboardInterrupt)):
        # what was seen before stays reported
        CURRENT.finish()


def hx(b):
    return bytes(b).hex(' ')
