"""Exploration engine: enumerates work items over worker processes, counts what was covered,
turns the first disagreement into a stand-alone replay script, and writes the evidence file.

A check module (checks/<id>.py) provides
    items(tier)   -> list of work items, simplest first (plain tuples)
    run(item, R)  -> explore everything the item stands for, using R (a Recorder)
"""
import importlib, json, os, resource, shutil, signal, sys, tempfile, time, traceback
from concurrent.futures import ProcessPoolExecutor, as_completed
from concurrent.futures.process import BrokenProcessPool
import multiprocessing

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
ITEM_LIMIT_S = 240          # an item takes well under 20 s; beyond this the code does not terminate
TOTAL_LIMIT_S = 800         # a capped run says so in its evidence


class Violation(Exception):
    def __init__(self, report):
        Exception.__init__(self, report['what'])
        self.report = report


class DoesNotTerminate(BaseException):
    pass


def src(value):
    """Python source of a value used in an operation."""
    return repr(value)


def call_src(target, name, args, kwargs):
    parts = [src(a) for a in args] + ['%s=%s' % (k, src(v)) for k, v in kwargs.items()]
    return '%s.%s(%s)' % (target, name, ', '.join(parts))


class Script(object):
    """A replayable list of source lines."""
    def __init__(self, lines):
        self.lines = lines

    def script(self):
        return list(self.lines)


def scratch_file():
    return os.path.join(os.environ['VERIF_SCRATCH'], '%d.txt' % os.getpid())


class Recorder:
    """Counters of one work item."""

    def __init__(self):
        self.states = set()
        self.outcomes = set()
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.ctx = None          # whatever can render itself: has .script()

    def state(self, key):
        self.states.add(hash(key))

    def outcome(self, key):
        if len(self.outcomes) < 5000:
            self.outcomes.add(hash(key))

    def trace(self, ctx=None):
        self.traces += 1
        if ctx is not None and len(self.samples) < 1:
            self.samples.append(ctx.script())

    def fail(self, what, expected=None, observed=None):
        raise Violation({'what': what, 'script': self.ctx.script() if self.ctx else [],
                         'expected': repr(expected), 'observed': repr(observed)})


_module = None


def _init_worker(modname):
    global _module
    sys.stdout = open(os.devnull, 'w')
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except (ValueError, OSError):
        pass
    _module = importlib.import_module(modname)
    signal.signal(signal.SIGALRM, _on_alarm)


def _on_alarm(signum, frame):
    raise DoesNotTerminate()


def _work(indexed):
    index, item = indexed
    R = Recorder()
    report = None
    signal.setitimer(signal.ITIMER_REAL, ITEM_LIMIT_S)
    try:
        import random
        random.seed(int(os.environ.get('VERIF_SEED', '1')))
        _module.run(item, R)
    except Violation as v:
        report = v.report
    except DoesNotTerminate:
        report = {'what': 'no answer within %d s' % ITEM_LIMIT_S, 'script': R.ctx.script() if R.ctx else [],
                  'expected': 'an answer', 'observed': 'none'}
    except BaseException as e:      # the code under test raised where the property promises an answer
        report = {'what': 'unexpected %s: %s' % (type(e).__name__, e),
                  'script': R.ctx.script() if R.ctx else [], 'expected': 'no exception',
                  'observed': traceback.format_exc()}
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    if report is not None:
        report['item'] = repr(item)
    return index, R.states, R.outcomes, R.transitions, R.traces, R.samples, report


def load_known(prop):
    """Lines `known: property=<id> <signature>` of known_findings.txt; `fixed:` lines suppress nothing."""
    known = []
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            if line.startswith('known: property=%s ' % prop):
                known.append(line.split(' ', 2)[2].strip())
    return known


def signature(report):
    return ' ; '.join(report['script'][-6:]) + ' => ' + report['what']


def write_replay(prop, report):
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s.replay.py' % prop)
    with open(path, 'w') as f:
        f.write('# Property %s is violated: %s\n' % (prop, report['what'].replace('\n', ' ')))
        f.write('# work item: %s\n' % report.get('item', ''))
        f.write('import sys\nsys.path.insert(0, %r)\nimport math, os, tempfile\nimport networkx as nx\n'
                'import dynetworkx as dnx\ninf = float("inf")\n\n' % REPO)
        lines = report['script']
        for i, line in enumerate(lines):
            f.write(line + '\n')
        f.write('\nif "result" in dir():\n    print("result:  ", result)\n')
        for k in ('expected', 'observed'):
            f.write('print(%r)\n' % (k + ': ' + report[k]))
    return path


def main(prop, argv):
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if '--thorough' in argv:
        tier = 'thorough'
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED') or 1)
    t0 = time.time()
    modname = 'checks.' + prop.lower()
    report, died = None, None
    states, outcomes, samples = set(), set(), []
    transitions = traces = done = 0
    capped = False
    items = []
    assumptions = []
    try:
        sys.path.insert(0, REPO)
        for heavy in ('networkx', 'numpy', 'pandas', 'sklearn.linear_model', 'sortedcontainers'):
            importlib.import_module(heavy)
        sys.pycache_prefix = '/nonexistent/pycache'     # /repo is always compiled from its current source
        module = importlib.import_module(modname)   # imports dynetworkx from /repo's working tree
        import dynetworkx
        if not os.path.abspath(dynetworkx.__file__).startswith(os.path.abspath(REPO) + os.sep):
            raise RuntimeError('dynetworkx was imported from %s' % dynetworkx.__file__)
        assumptions = list(getattr(module, 'ASSUMPTIONS', []))
        items = list(module.items(tier))
    except Exception as e:
        report = {'what': 'the library cannot be loaded: %s: %s' % (type(e).__name__, e), 'script': [],
                  'expected': 'an importable library', 'observed': traceback.format_exc()}
    procs = int(os.environ.get('VERIF_PROCS') or min(8, os.cpu_count() or 1))
    found = []
    scratch = tempfile.mkdtemp(prefix='verif-')     # the only place a check writes files
    os.environ['VERIF_SCRATCH'] = scratch
    if report is None:
        ctx = multiprocessing.get_context('fork')
        ex = ProcessPoolExecutor(max_workers=procs, mp_context=ctx, initializer=_init_worker, initargs=(modname,))
        try:
            pending = {}
            it = iter(enumerate(items))
            exhausted = False
            from concurrent.futures import wait, FIRST_COMPLETED
            while True:
                while not exhausted and len(pending) < procs * 4 and not found:
                    nxt = next(it, None)
                    if nxt is None:
                        exhausted = True
                        break
                    pending[ex.submit(_work, nxt)] = nxt
                if not pending:
                    break
                ready, _ = wait(pending, timeout=5, return_when=FIRST_COMPLETED)
                for f in ready:
                    nxt = pending.pop(f)
                    index, st, oc, tr, tc, sm, rep = f.result()
                    done += 1
                    states |= st
                    if len(outcomes) < 200000:
                        outcomes |= oc
                    transitions += tr
                    traces += tc
                    if len(samples) < 6 and sm and (index % max(1, len(items) // 6) == 0 or len(samples) < 2):
                        samples += sm
                    if rep is not None:
                        if any(k == signature(rep) for k in load_known(prop)):
                            print('KNOWN-FINDING: property=%s %s' % (prop, signature(rep)))
                        else:
                            found.append((index, rep))
                if found:
                    # an item with a smaller index that is still running may hold a simpler counterexample
                    if not any(n[0] < min(found)[0] for n in pending.values()) or time.time() - t0 > TOTAL_LIMIT_S:
                        break
                    exhausted = True
                elif time.time() - t0 > TOTAL_LIMIT_S:
                    capped = True
                    break
        except BrokenProcessPool:
            found.append((10 ** 9, {'what': 'the process running the library died', 'script': [],
                                    'expected': 'an answer', 'observed': 'process death'}))
        finally:
            for p in list((ex._processes or {}).values()):
                if found or capped:
                    p.kill()
            ex.shutdown(wait=True, cancel_futures=True)
            shutil.rmtree(scratch, ignore_errors=True)
        if found:
            report = min(found, key=lambda x: x[0])[1]
    wall = time.time() - t0
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': len(states), 'transitions': transitions, 'traces_validated_against_impl': traces,
            'samples': samples or [report['script'] if report else []],
            'work_items': len(items), 'work_items_completed': done, 'distinct_outcomes': len(outcomes),
            'exhaustive': bool(not capped and report is None and done == len(items)),
            'capped': capped,
            'bounds': getattr(sys.modules.get(modname), 'BOUNDS', {}).get(tier, '') if modname in sys.modules else '',
        },
        'assumptions': assumptions,
        'wall_s': round(wall, 3), 'violations': 0 if report is None else 1,
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    path = os.path.join(VERIF, 'evidence', prop + '.json')
    with open(path + '.tmp', 'w') as f:
        json.dump(evidence, f, indent=1)
        f.write('\n')
    os.replace(path + '.tmp', path)
    print('%s %s: %d states, %d transitions, %d traces, %d outcomes, %d/%d items, %.1f s%s' % (
        prop, tier, len(states), transitions, traces, len(outcomes), done, len(items), wall,
        ' (CAPPED by time)' if capped else ''))
    if report is not None:
        rp = write_replay(prop, report)
        print(report['what'][:2000])
        for line in report['script'][-12:]:
            print('    ' + line[:400])
        print('    expected: ' + report['expected'][:1500])
        print('    observed: ' + report['observed'][-1500:])
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    return 0
