"""Writing down violations so that they can be repeated: python3-vt -m harness.replay FILE"""

import json
import os
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
FOLDER = os.path.join(VERIF, 'evidence', 'replay')
BYTES = ('aff', 'dic', 'aff2', 'dic2')


def plain(value):
    """As JSON can hold"""
    if isinstance(value, bytes):
        return value.decode('latin-1')
    if isinstance(value, (list, tuple)):
        return [plain(item) for item in value]
    if isinstance(value, dict):
        return {key: plain(item) for key, item in value.items()}
    return value


def minimized(pid, violation, seconds):
    """Same violation with fewer lines in the files"""
    from harness import oracles
    deadline = time.time() + seconds
    best = violation

    def still(candidate):
        try:
            what = oracles.repeat(pid, candidate)
        except Exception:   # files that cannot be read at all
            return None
        if what and 'exception' in what and 'exception' not in violation['what']:   # files that became malformed
            return None
        return what

    for field in ('dic', 'aff', 'history'):
        if field not in best or (field != 'history' and 'aff2' in best and pid == 'C20'):
            continue
        pos = 0
        while time.time() < deadline:
            items = best[field].split(b'\n') if field != 'history' else best[field]
            if pos >= len(items):
                break
            rest = items[:pos] + items[pos + 1:]
            candidate = dict(best, **{field: b'\n'.join(rest) if field != 'history' else rest})
            what = still(candidate)
            if what:
                best = dict(candidate, what=what)
            else:
                pos += 1
    return best


def write(pid, violation):
    os.makedirs(FOLDER, exist_ok=True)
    path = os.path.join(FOLDER, f'{pid}.json')
    with open(path, 'w', encoding='utf-8') as file:
        json.dump({'property': pid, 'how': f'python3-vt /verif/harness/replay.py {path}', **plain(violation)}, file, indent=1)
    return path


def write_obligation(pid, report, difference):
    os.makedirs(FOLDER, exist_ok=True)
    path = os.path.join(FOLDER, f'{pid}-obligation.json')
    with open(path, 'w', encoding='utf-8') as file:
        json.dump({'property': pid, 'function': report['function'], 'failed_obligation': report['why'],
                   'at': report.get('at'), 'verifier_output': report.get('output'), 'difference': difference},
                  file, indent=1, default=str)
    return path


def main():
    from harness import oracles
    with open(sys.argv[1], encoding='utf-8') as file:
        violation = json.load(file)
    for key in BYTES:
        if key in violation:
            violation[key] = violation[key].encode('latin-1')
    what = oracles.repeat(violation['property'], violation)
    print(ascii(what) if what else 'not reproduced')
    return 1 if what else 0


if __name__ == '__main__':
    sys.exit(main())
