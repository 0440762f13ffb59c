"""Driver: shards, Hypothesis, replay files, evidence, known findings."""
import ast
import contextlib
import hashlib
import importlib
import json
import os
import random
import re
import resource
import signal
import subprocess
import sys
import tempfile
import time
import traceback

from . import env

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(ROOT, 'out')
EVIDENCE = os.path.join(ROOT, 'evidence')
CORPUS = os.path.join(ROOT, 'corpus')
FINDINGS = os.path.join(ROOT, 'known_findings.txt')

MEMORY = 3 << 30
SHARDS = 8
CASE_CPU = 30.0                 # seconds of CPU for one case
SOFT = {'quick': 150, 'thorough': 600}   # no new cases after that, s
HARD = {'quick': 600, 'thorough': 840}   # worker is stuck after that, s


class Violation(Exception):
    """The property does not hold on the case."""

    def __init__(self, message, key=None):
        super(Violation, self).__init__(message)
        self.message = message
        self.key = key


class CaseTimeout(BaseException):
    pass


class Abort(BaseException):
    """Stop the search at once, without shrinking."""

    def __init__(self, violation):
        super(Abort, self).__init__(str(violation))
        self.violation = violation


class Skip(Exception):
    """Case is outside of what the check looks at."""


def fail(message, *args, **kwargs):
    raise Violation(message % args if args else message, **kwargs)


def expect(condition, message, *args):
    if not condition:
        raise Violation(message % args if args else message)


def equal(got, want, what):
    if got != want:
        raise Violation('%s: got %r, expected %r' % (what, got, want))


class raises(object):
    """Result of a call that may raise."""

    def __init__(self, function, *args, **kwargs):
        self.error = None
        self.value = None
        try:
            self.value = function(*args, **kwargs)
        except Exception as error:
            if isinstance(error, Violation):
                raise
            self.error = error


def expect_raises(types, what, function, *args, **kwargs):
    result = raises(function, *args, **kwargs)
    if result.error is None:
        fail('%s: no error, got %r', what, result.value)
    if not isinstance(result.error, types):
        names = (
            types.__name__ if isinstance(types, type)
            else ' or '.join(_.__name__ for _ in types)
        )
        fail('%s: %s expected, got %r', what, names, result.error)


def digest(value):
    data = json.dumps(value, sort_keys=True, ensure_ascii=True)
    return hashlib.sha256(data.encode()).hexdigest()[:16]


class Context(object):
    """Collects what the cases of a run were."""

    def __init__(self):
        self.evaluations = 0
        self.skipped = 0
        self.labels = {}
        self.hashes = set()
        self.samples = []
        self.rng = random.Random(0)
        self.slowest = 0
        self.start()

    def start(self):
        self.case_labels = []
        self.is_nontrivial = False

    def label(self, *names):
        self.case_labels.extend(names)

    def nontrivial(self, value=True):
        if value:
            self.is_nontrivial = True

    def finish(self, case):
        self.evaluations += 1
        for name in set(self.case_labels):
            self.labels[name] = self.labels.get(name, 0) + 1
        if self.is_nontrivial:
            value = digest(case)
            if value not in self.hashes:
                self.hashes.add(value)
                size = len(self.hashes)
                if len(self.samples) < 3:
                    self.samples.append(case)
                elif self.rng.random() < 3.0 / size:
                    self.samples[self.rng.randrange(3)] = case

    def dump(self):
        return {
            'evaluations': self.evaluations,
            'skipped': self.skipped,
            'labels': self.labels,
            'hashes': sorted(self.hashes),
            'samples': self.samples,
            'slowest': self.slowest,
        }


MODEL_FILES = ('model.py', 'interp.py', 'gens.py', 'words.py')


def is_harness_error(error):
    """Error of the machinery itself: no yargy frame, innermost in the model."""
    frames = traceback.extract_tb(error.__traceback__)
    repo = os.path.realpath(env.REPO) + os.sep
    for frame in frames:
        if os.path.realpath(frame.filename).startswith(repo):
            return False
    if frames:
        name = frames[-1].filename
        if os.path.dirname(name) == os.path.join(ROOT, 'lib'):
            return os.path.basename(name) in MODEL_FILES
    return False


def short_trace(error):
    frames = traceback.extract_tb(error.__traceback__)
    if len(frames) > 40:
        frames = frames[:10] + frames[-10:]
    lines = ['%s:%s %s' % (os.path.basename(_.filename), _.lineno, _.name)
             for _ in frames[-12:]]
    return '%s: %s [%s]' % (
        type(error).__name__, str(error)[:300], ' > '.join(lines)
    )


@contextlib.contextmanager
def cpu_limit(seconds):
    def handler(signum, frame):
        raise CaseTimeout()
    old = signal.signal(signal.SIGVTALRM, handler)
    signal.setitimer(signal.ITIMER_VIRTUAL, seconds, 1.0)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)


def run_case(module, case, context):
    """Run one case. Raises Violation, Skip or a harness error."""
    context.start()
    started = time.process_time()
    limit = getattr(module, 'CASE_CPU', CASE_CPU)
    try:
        with cpu_limit(limit):
            module.check(case, context)
    except CaseTimeout:
        raise Abort(Violation('no result after %g s of CPU time' % limit))
    except MemoryError:
        raise Abort(Violation('out of memory (limit %d GB)' % (MEMORY >> 30)))
    except (Violation, Skip):
        raise
    except Exception as error:
        if type(error).__module__.startswith('hypothesis'):
            raise
        if is_harness_error(error):
            raise
        raise Violation('unexpected ' + short_trace(error))
    finally:
        context.slowest = max(
            context.slowest, time.process_time() - started)
    context.finish(case)


########
# WORKER
########


def load(name):
    env.import_yargy()
    sys.setrecursionlimit(1000)
    return importlib.import_module('props.' + name.lower())


def read_corpus(name):
    path = os.path.join(CORPUS, name + '.jsonl')
    if os.path.exists(path):
        with open(path, encoding='utf8') as file:
            for line in file:
                line = line.strip()
                if line:
                    yield json.loads(line)


def worker(name, tier, seed, shard, shards, path):
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
    module = load(name)
    context = Context()
    started = time.time()
    result = {'violation': None}

    def violate(case, violation):
        result['violation'] = {
            'case': case,
            'message': violation.message,
        }

    def finish():
        result.update(context.dump())
        result['wall_s'] = time.time() - started
        with open(path, 'w', encoding='utf8') as file:
            json.dump(result, file)

    def deterministic():
        cases = list(read_corpus(name))
        if hasattr(module, 'cases'):
            cases = cases + list(module.cases(tier))
        for index, case in enumerate(cases):
            if index % shards == shard:
                yield case

    for case in deterministic():
        if time.time() - started > SOFT[tier]:
            break
        try:
            run_case(module, case, context)
        except Skip:
            context.skipped += 1
        except Violation as violation:
            violate(case, violation)
            return finish()
        except Abort as abort:
            violate(case, abort.violation)
            return finish()

    if hasattr(module, 'exhaustive'):
        # not stored as cases, too many: module counts them itself
        try:
            module.exhaustive(tier, shard, shards, context)
        except Violation as violation:
            violate(violation.key, violation)
            return finish()

    count = getattr(module, tier.upper(), 0)
    if count:
        found = search(module, count, seed, tier, context, started)
        if found:
            violate(*found)
    finish()


def search(module, count, seed, tier, context, started):
    import hypothesis
    from hypothesis import given, settings, Phase, HealthCheck
    import hypothesis.internal.conjecture.engine as engine
    engine.MAX_SHRINKING_SECONDS = 60

    failed = []

    @hypothesis.seed(seed)
    @settings(
        max_examples=count,
        database=None,
        deadline=None,
        phases=[Phase.generate, Phase.shrink],
        suppress_health_check=list(HealthCheck),
        report_multiple_bugs=False,
        print_blob=False,
    )
    @given(module.strategy(tier))
    def test(case):
        if not failed and time.time() - started > SOFT[tier]:
            return
        # what is checked is exactly what is stored in the replay file
        case = json.loads(json.dumps(case))
        try:
            run_case(module, case, context)
        except Skip:
            context.skipped += 1
        except Violation as violation:
            failed.append((case, violation))
            raise

    try:
        test()
    except Abort as abort:
        return abort_case(abort, failed)
    except Violation:
        return failed[-1]
    except hypothesis.errors.HypothesisException:
        if failed:
            # flaky: depends on something outside of the case
            return failed[-1]
        raise
    if failed:
        return failed[-1]


def abort_case(abort, failed):
    case = getattr(abort, 'case', None)
    if case is None and failed:
        return failed[-1]
    return case, abort.violation


_run_case = run_case


def run_case(module, case, context):
    try:
        _run_case(module, case, context)
    except Abort as abort:
        abort.case = case
        raise


########
# PARENT
########


def read_findings(name):
    """Listed known findings of the property: key -> text."""
    known = {}
    if os.path.exists(FINDINGS):
        with open(FINDINGS, encoding='utf8') as file:
            for line in file:
                match = re.match(
                    r'known: property=(\S+) key=(\S+) (.*)', line.strip()
                )
                if match and match.group(1) == name:
                    known[match.group(2)] = match.group(3)
    return known


def environment(hashseed):
    data = dict(os.environ)
    data['PYTHONHASHSEED'] = str(hashseed)
    data['PYTHONDONTWRITEBYTECODE'] = '1'
    data['LANG'] = 'C.UTF-8'
    data['PYTHONUTF8'] = '1'
    return data


def command(*args):
    return [
        sys.executable, '-B', os.path.join(ROOT, 'run.py')
    ] + [str(_) for _ in args]


def derive(*parts):
    data = ':'.join(str(_) for _ in parts).encode()
    return int.from_bytes(hashlib.sha256(data).digest()[:6], 'big')


def seeds(name, tier, seed, shard):
    return (
        derive(seed, name, tier, shard),
        derive('hash', seed, name, shard) % 4294967295
    )


def write_replay(name, tier, seed, shard, hashseed, violation):
    os.makedirs(OUT, exist_ok=True)
    data = {
        'property': name,
        'hashseed': hashseed,
        'message': violation['message'],
        'case': violation['case'],
        'found': {'tier': tier, 'seed': seed, 'shard': shard},
    }
    path = os.path.join(OUT, '%s-%s.json' % (name, digest(data['case'])))
    with open(path, 'w', encoding='utf8') as file:
        json.dump(data, file, ensure_ascii=False, indent=1)
    return path


def replay(name, path):
    with open(path, encoding='utf8') as file:
        data = json.load(file)
    if os.environ.get('VERIF_REPLAY') != '1':
        environ = environment(data.get('hashseed', 0))
        environ['VERIF_REPLAY'] = '1'
        return subprocess.call(
            command(name, '--replay', path), env=environ
        )
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
    module = load(name)
    try:
        run_case(module, data['case'], Context())
    except Skip:
        print('case is skipped')
    except Violation as violation:
        print(violation.message)
        print('VIOLATION property=%s replay=%s' % (name, path))
        return 1
    except Abort as abort:
        print(abort.violation.message)
        print('VIOLATION property=%s replay=%s' % (name, path))
        return 1
    print('OK')
    return 0


def known_cases(name):
    """Run the listed known findings in a separate process."""
    known = read_findings(name)
    if not known:
        return []
    lines = []
    for key in sorted(known):
        output = subprocess.run(
            command('--known', name, key), env=environment(0),
            stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300
        )
        if output.returncode == 1:
            lines.append((key, known[key]))
        elif output.returncode != 0:
            sys.stderr.write(output.stderr.decode())
            raise SystemExit(3)
    return lines


def known(name, key):
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
    module = load(name)
    case = module.KNOWN[key]
    try:
        run_case(module, case, Context())
    except (Violation, Abort):
        return 1
    return 0


def check(name, tier):
    started = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    os.makedirs(EVIDENCE, exist_ok=True)
    evidence_path = os.path.join(EVIDENCE, name + '.json')
    if os.path.exists(evidence_path):
        os.remove(evidence_path)

    env.setup_path()
    for key, text in known_cases(name):
        print('KNOWN-FINDING: property=%s %s: %s' % (name, key, text))
        sys.stdout.flush()

    work = tempfile.mkdtemp(prefix='verif-')
    processes = []
    for shard in range(SHARDS):
        case_seed, hashseed = seeds(name, tier, seed, shard)
        path = os.path.join(work, '%d.json' % shard)
        error = open(os.path.join(work, '%d.err' % shard), 'wb')
        process = subprocess.Popen(
            command('--worker', name, tier, case_seed, shard, SHARDS, path),
            env=environment(hashseed),
            stdout=error, stderr=error, start_new_session=True
        )
        processes.append((shard, hashseed, path, process, error))

    results = []
    errors = []
    found = []
    pending = list(processes)
    while pending:
        time.sleep(0.05)
        for item in list(pending):
            shard, hashseed, path, process, error = item
            code = process.poll()
            if code is None:
                continue
            pending.remove(item)
            if code == 0 and os.path.exists(path):
                with open(path, encoding='utf8') as file:
                    result = json.load(file)
                results.append(result)
                if result['violation']:
                    found.append((shard, hashseed, result['violation']))
            else:
                error.flush()
                with open(error.name, 'rb') as file:
                    text = file.read().decode('utf8', 'replace')[-1500:]
                errors.append('shard %d: exit %s\n%s' % (shard, code, text))
        if found and pending:
            # give the others a moment, then stop
            stop(pending)
            pending = []
        if time.time() - started > HARD[tier]:
            if pending:
                stop(pending)
                errors.append('%d shards do not end' % len(pending))
            pending = []

    for _, _, path, process, error in processes:
        error.close()
        for name_ in (path, error.name):
            if os.path.exists(name_):
                os.remove(name_)
    os.rmdir(work)

    replays = []
    for shard, hashseed, violation in found:
        path = write_replay(name, tier, seed, shard, hashseed, violation)
        confirmed = subprocess.run(
            command(name, '--replay', path), env=environment(hashseed),
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT
        ).returncode == 1
        replays.append((path, violation, confirmed))

    module_rule = rule_text(name)
    write_evidence(
        evidence_path, name, tier, seed, results, module_rule,
        time.time() - started, len(replays)
    )

    if replays:
        replays.sort(key=lambda _: (not _[2], len(json.dumps(_[1]['case']))))
        path, violation, confirmed = replays[0]
        print(violation['message'])
        print(json.dumps(violation['case'], ensure_ascii=False)[:2000])
        if not confirmed:
            print('not reproduced in a fresh process: depends on the '
                  'history of the process')
        print('VIOLATION property=%s replay=%s' % (name, path))
        return 1
    if errors:
        sys.stderr.write('%d shards failed, the first: %s\n' % (
            len(errors), errors[0]))
        return 3
    total = sum(_['evaluations'] for _ in results)
    print('OK property=%s tier=%s cases=%d wall=%.1fs slowest=%.1fs' % (
        name, tier, total, time.time() - started,
        max(_['slowest'] for _ in results)))
    return 0


def stop(items):
    for _, _, _, process, _ in items:
        try:
            os.killpg(process.pid, signal.SIGKILL)
        except OSError:
            pass
    for _, _, _, process, _ in items:
        process.wait()


def rule_text(name):
    path = os.path.join(ROOT, 'props', name.lower() + '.py')
    with open(path, encoding='utf8') as file:
        tree = ast.parse(file.read())
    for node in tree.body:
        if isinstance(node, ast.Assign) and node.targets[0].id == 'RULE':
            return ast.literal_eval(node.value)
    return ''


def write_evidence(path, name, tier, seed, results, rule, wall, violations):
    hashes = set()
    labels = {}
    samples = []
    for result in results:
        hashes.update(result['hashes'])
        for key, value in result['labels'].items():
            labels[key] = labels.get(key, 0) + value
        samples.extend(result['samples'][:1])
    data = {
        'property': name,
        'tier': tier,
        'seed': seed,
        'level': 'exploration',
        'coverage': {
            'evaluations': sum(_['evaluations'] for _ in results),
            'distinct_nontrivial': len(hashes),
            'skipped': sum(_['skipped'] for _ in results),
            'rule': rule,
            'labels': dict(sorted(labels.items())),
            'samples': samples[:5],
            'shards': len(results),
        },
        'wall_s': round(wall, 2),
        'violations': violations,
    }
    temp = path + '.tmp'
    with open(temp, 'w', encoding='utf8') as file:
        json.dump(data, file, ensure_ascii=False, indent=1)
    os.replace(temp, path)


def setup():
    env.setup_path()
    import hypothesis
    yargy = env.import_yargy()
    print('hypothesis', hypothesis.__version__, 'yargy', yargy.__file__)
    return 0


def main(args):
    env.setup_path()
    if args[:1] == ['--setup']:
        return setup()
    if args[:1] == ['--worker']:
        name, tier, seed, shard, shards, path = args[1:]
        worker(name, tier, int(seed), int(shard), int(shards), path)
        return 0
    if args[:1] == ['--serve']:
        resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
        return load(args[1]).serve(*args[2:])
    if args[:1] == ['--known']:
        return known(*args[1:])
    if len(args) == 3 and args[1] == '--replay':
        return replay(args[0], args[2])
    if len(args) == 2 and args[1] in ('quick', 'thorough'):
        return check(args[0], args[1])
    sys.stderr.write(__doc__ + '\n')
    return 2
