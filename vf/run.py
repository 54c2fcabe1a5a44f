"""Runs the check of one property: vf.run ID TIER | vf.run ID --replay FILE."""
import hashlib
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
sys.path.insert(0, ROOT)

from vf import codec
from vf.engine import Data, Discard, Violation, case_rng, shrink

CASE_CPU = 60
SOFT = {'quick': 420, 'thorough': 780}
WORKERS = 8


class Hang(BaseException):
    pass


def _alarm(signum, frame):
    raise Hang()


class HarnessError(Exception):
    pass


def load(prop):
    module = importlib.import_module('vf.props.%s' % prop.lower())
    import scheme
    if not os.path.abspath(scheme.__file__).startswith(os.path.abspath(REPO) + os.sep):
        raise HarnessError('scheme was imported from %s' % scheme.__file__)
    return module


def from_repo(error):
    tb = error.__traceback__
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(os.path.abspath(REPO) + os.sep):
            return True
        tb = tb.tb_next
    return False


def describe_exception(error):
    lines = traceback.format_exception(type(error), error, error.__traceback__)
    return ''.join(lines[-8:])[-2500:]


ORDINARY = (TypeError, AttributeError, KeyError, IndexError, ValueError, RecursionError,
    AssertionError, ArithmeticError, NameError, StopIteration, UnicodeError)


def judge(check, case):
    """(labels, None) when the property holds for the case, (None, message) when it does not."""
    for attempt in (1, 2):
        signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU)
        try:
            try:
                labels = check(case)
            finally:
                signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            return list(labels or ()), None
        except Discard:
            return None, None
        except Violation as v:
            return None, str(v)
        except Hang:
            if attempt == 2:
                return None, 'did not terminate within %d CPU seconds, twice' % CASE_CPU
        except MemoryError:
            raise
        except OSError as error:
            if from_repo(error) and error.errno in (2, 17, 20, 21, 22, None):
                return None, 'unexpected exception\n' + describe_exception(error)
            raise
        except Exception as error:
            if from_repo(error) or isinstance(error, ORDINARY):
                return None, 'unexpected exception\n' + describe_exception(error)
            raise


def worker(prop, tier, seed, w, workers, out):
    module = load(prop)
    signal.signal(signal.SIGVTALRM, _alarm)
    started = time.monotonic()
    result = {'sections': [], 'failure': None, 'truncated': False}
    hashes = open(os.path.join(out, 'hash.%d' % w), 'wb')
    scale = float(os.environ.get('VF_SCALE', '1'))
    for s, section in enumerate(module.SECTIONS):
        only = os.environ.get('VF_SECTION')
        if only and section.name != only:
            continue
        count = int((section.quick if tier == 'quick' else section.thorough) * scale)
        stats = {'name': section.name, 'cases': 0, 'nontrivial': 0, 'discarded': 0, 'labels': {},
            'samples': []}
        result['sections'].append(stats)
        seen = set()
        section_start = time.monotonic()
        for n, index in enumerate(range(w, count, workers)):
            if n % 16 == 0:
                if time.monotonic() - started > SOFT[tier]:
                    result['truncated'] = True
                    break
                if n % 64 == 0 and beaten(out, s, index):
                    break
            d = Data(case_rng(seed, prop, section.name, index))
            try:
                case = section.gen(d)
            except Discard:
                stats['discarded'] += 1
                continue
            text = codec.dumps(case)
            labels, failure = judge(section.check, codec.loads(text))
            if failure is not None:
                claim(out, s, index)
                result['failure'] = shrunk(section, s, index, d.record, text, failure)
                break
            if labels is None:
                stats['discarded'] += 1
                continue
            stats['cases'] += 1
            digest = hashlib.blake2b(('%d:' % s + text).encode('utf-8', 'surrogatepass'), digest_size=8).digest()
            trivial = 'trivial' in labels
            if not trivial and digest not in seen:
                seen.add(digest)
                stats['nontrivial'] += 1
                hashes.write(digest)
            for label in set(labels):
                stats['labels'][label] = stats['labels'].get(label, 0) + 1
            if not trivial and len(stats['samples']) < 2 and len(text) < 1500:
                stats['samples'].append({'section': section.name, 'index': index, 'labels': sorted(set(labels)),
                    'case': codec.encode(case)})
        stats['wall_s'] = round(time.monotonic() - section_start, 2)
        if result['failure']:
            break
    hashes.close()
    with open(os.path.join(out, 'result.%d' % w), 'w') as handle:
        json.dump(result, handle)


def claim(out, s, index):
    path = os.path.join(out, 'failed')
    if not beaten(out, s, index):
        temporary = '%s.%d' % (path, os.getpid())
        with open(temporary, 'w') as handle:
            handle.write('%d %d' % (s, index))
        os.rename(temporary, path)


def beaten(out, s, index):
    try:
        with open(os.path.join(out, 'failed')) as handle:
            found = tuple(int(x) for x in handle.read().split())
    except (IOError, ValueError):
        return False
    return found < (s, index)


def shrunk(section, s, index, record, text, failure):
    best = {'text': text, 'failure': failure}

    def fails(choices):
        d = Data(prefix=choices)
        try:
            case = section.gen(d)
        except Discard:
            return None
        candidate = codec.dumps(case)
        labels, message = judge(section.check, codec.loads(candidate))
        if message is None:
            return None
        if len(candidate) <= len(best['text']):
            best['text'], best['failure'] = candidate, message
        return list(d.record)

    if 'did not terminate' not in failure:
        _, evals = shrink(record, fails, seconds=float(os.environ.get('VF_SHRINK', '40')))
    return {'order': [s, index], 'section': section.name, 'index': index, 'case': json.loads(best['text']),
        'message': best['failure'], 'original': json.loads(text), 'original_message': failure,
        'tz': os.environ.get('TZ')}


def replay(prop, path):
    module = load(prop)
    signal.signal(signal.SIGVTALRM, _alarm)
    with open(path) as handle:
        saved = json.load(handle)
    if saved.get('tz') and saved['tz'] != os.environ.get('TZ'):
        done = subprocess.run([sys.executable, os.path.abspath(__file__), prop, '--replay', path],
            env=dict(os.environ, TZ=saved['tz']), stdout=subprocess.PIPE)
        if done.returncode not in (0, 1):
            raise HarnessError('replay of %s ended with %d' % (path, done.returncode))
        return done.stdout.decode('utf-8', 'replace').rsplit('VIOLATION', 1)[0].strip() if done.returncode else None
    for finding in getattr(module, 'FINDINGS', ()):
        if finding.key == saved.get('finding'):
            return finding.what if probe(finding) else None
    for section in module.SECTIONS:
        if section.name == saved['section']:
            labels, failure = judge(section.check, codec.decode(saved['case']))
            return failure
    raise HarnessError('no section %s' % saved['section'])


def known(prop):
    keys = set()
    with open(os.path.join(ROOT, 'known_findings.txt')) as handle:
        for line in handle:
            if line.startswith('finding: property=%s ' % prop):
                keys.add(line.split()[2].rstrip(':'))
    return keys


def probe(finding):
    try:
        return finding.probe()
    except Exception:
        return False


def save_probe(prop, finding):
    folder = os.path.join(ROOT, 'replay')
    if not os.path.isdir(folder):
        os.makedirs(folder)
    path = os.path.join(folder, '%s-finding-%s.json' % (prop, finding.key))
    with open(path, 'w') as handle:
        json.dump({'finding': finding.key, 'what': finding.what}, handle)
    return path


def regressions(prop, module):
    folder = os.path.join(ROOT, 'regress', prop)
    count = 0
    if os.path.isdir(folder):
        for name in sorted(os.listdir(folder)):
            failure = replay(prop, os.path.join(folder, name))
            count += 1
            if failure:
                return count, os.path.join(folder, name), failure
    return count, None, None


def main(argv):
    prop = argv[0]
    if argv[1] == '--replay':
        failure = replay(prop, argv[2])
        if failure:
            print(failure)
            print('VIOLATION property=%s replay=%s' % (prop, argv[2]))
            return 1
        print('the property holds for this case')
        return 0
    seed = os.environ.get('VERIF_SEED') or '1'
    if argv[1] == '--worker':
        worker(prop, argv[2], seed, int(argv[3]), int(argv[4]), argv[5])
        return 0

    tier = argv[1]
    started = time.monotonic()
    module = load(prop)
    signal.signal(signal.SIGVTALRM, _alarm)
    violation = None
    listed = known(prop)
    for finding in getattr(module, 'FINDINGS', ()):
        if not probe(finding):
            continue
        if finding.key in listed:
            print('KNOWN-FINDING: property=%s %s: %s' % (prop, finding.key, finding.what))
        elif violation is None:
            violation = (save_probe(prop, finding), 'not listed in known_findings.txt: ' + finding.what)
    replayed = 0
    if violation is None:
        replayed, path, failure = regressions(prop, module)
        if failure:
            violation = (path, failure)
    results = []
    out = tempfile.mkdtemp(prefix='vf-')
    try:
        if violation is None:
            zones = getattr(module, 'ZONES', None)
            processes = []
            for w in range(WORKERS):
                env = dict(os.environ)
                if zones:
                    env['TZ'] = zones[w % len(zones)]
                processes.append(subprocess.Popen([sys.executable, os.path.abspath(__file__), prop, '--worker',
                    tier, str(w), str(WORKERS), out], env=env))
            codes = [p.wait() for p in processes]
            if any(codes):
                print('a worker failed: %r' % codes)
                return 2
            for w in range(WORKERS):
                with open(os.path.join(out, 'result.%d' % w)) as handle:
                    results.append(json.load(handle))
            failures = [r['failure'] for r in results if r['failure']]
            if failures:
                first = min(failures, key=lambda f: f['order'])
                first.update(property=prop, seed=seed, tier=tier)
                folder = os.path.join(ROOT, 'replay')
                if not os.path.isdir(folder):
                    os.makedirs(folder)
                path = os.path.join(folder, '%s-%s-%d.json' % (prop, first['section'], first['index']))
                with open(path, 'w') as handle:
                    json.dump(first, handle, indent=1, sort_keys=True)
                violation = (path, first['message'] + '\ncase: ' + json.dumps(first['case'], sort_keys=True)[:3000])
        distinct = set()
        for w in range(WORKERS):
            try:
                with open(os.path.join(out, 'hash.%d' % w), 'rb') as handle:
                    data = handle.read()
            except IOError:
                continue
            distinct.update(data[i:i + 8] for i in range(0, len(data), 8))
    finally:
        shutil.rmtree(out, ignore_errors=True)

    wall = time.monotonic() - started
    write_evidence(prop, tier, seed, module, results, len(distinct), replayed, violation, wall)
    if violation:
        print(violation[1])
        print('VIOLATION property=%s replay=%s' % (prop, violation[0]))
        return 1
    print('%s held: %d cases, %d distinct and non-trivial, %.1f s' % (prop,
        sum(s['cases'] for r in results for s in r['sections']), len(distinct), wall))
    if os.environ.get('VF_VERBOSE'):
        for s in merged(results):
            print('  %-24s %7d cases %7d discarded %6.1fs(max worker)  %s' % (s['name'], s['cases'], s['discarded'],
                s['wall_s'], ' '.join('%s=%d' % x for x in sorted(s['labels'].items(), key=lambda x: -x[1])[:40])))
    return 0


def merged(results):
    sections = []
    for r in results:
        for i, s in enumerate(r['sections']):
            if i >= len(sections):
                sections.append({'name': s['name'], 'cases': 0, 'nontrivial': 0, 'discarded': 0, 'labels': {},
                    'samples': [], 'wall_s': 0})
            m = sections[i]
            for k in ('cases', 'nontrivial', 'discarded'):
                m[k] += s[k]
            m['wall_s'] = max(m['wall_s'], s.get('wall_s', 0))
            for label, n in s['labels'].items():
                m['labels'][label] = m['labels'].get(label, 0) + n
            m['samples'].extend(s['samples'])
    return sections


def write_evidence(prop, tier, seed, module, results, distinct, replayed, violation, wall):
    sections = merged(results)
    samples = []
    for s in sections:
        samples.extend(sorted(s['samples'], key=lambda x: x['index'])[:3])
    evidence = {
        'property': prop, 'tier': tier, 'seed': int(seed) if str(seed).isdigit() else 0, 'level': 'exploration',
        'wall_s': round(wall, 2),
        'coverage': {
            'evaluations': sum(s['cases'] for s in sections) + replayed,
            'distinct_nontrivial': distinct,
            'rule': module.RULE,
            'samples': samples[:24],
            'sections': [dict((k, s[k]) for k in ('name', 'cases', 'nontrivial', 'discarded', 'labels'))
                for s in sections],
            'replayed_regressions': replayed,
            'truncated_by_time': any(r['truncated'] for r in results),
        },
        'assumptions': list(getattr(module, 'ASSUMPTIONS', ())),
        'violations': 1 if violation else 0,
    }
    folder = os.path.join(ROOT, 'evidence')
    if not os.path.isdir(folder):
        os.makedirs(folder)
    path = os.path.join(folder, '%s.json' % prop)
    with open(path + '.tmp', 'w') as handle:
        json.dump(evidence, handle, indent=1, sort_keys=True)
    os.rename(path + '.tmp', path)


if __name__ == '__main__':
    try:
        code = main(sys.argv[1:])
    except Exception:
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.exit(code)
