"""python3-vt check.py PROPERTY: decide one property for the code in /repo.

1. Every function the property depends on is taken from the current source and verified against its contract.
2. The specification those contracts are made of is compared with the running code on generated dictionaries: this finds
   a failing input where an obligation fails, and stands in (bounded) for what is assumed or not proved.
"""

import argparse
import json
import os
import shutil
import sys
import tempfile
import time

sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)

import deduct                          # noqa: E402
import workers                         # noqa: E402
from harness import functions, oracles, replay as replays   # noqa: E402
from contracts.registry import BOUNDED                # noqa: E402
from contracts.trust import ADAPTORS, ASSUMED, BASE       # noqa: E402

BATCH = 60
# cases per profile
QUICK = {'C01': 6000, 'C02': 4000, 'C03': 2500, 'C04': 4000, 'C05': 6000, 'C06': 4000, 'C07': 5000, 'C08': 5000,
         'C09': 6000, 'C10': 1200, 'C11': 1500, 'C12': 1500, 'C13': 1500, 'C14': 2500, 'C15': 1500, 'C16': 8000,
         'C17': 8000, 'C18': 800, 'C19': 1200, 'C20': 1200, 'C21': 1500}
SECONDS = {'quick': 60, 'thorough': 600}
MORE = {'quick': 1, 'thorough': 12}


def judge(tasks):
    stats = oracles.Stats()
    found = [violation for task in tasks for violation in oracles.judge(*task, stats)]
    return len(tasks), stats.evaluations, list(stats.seen), stats.skipped, stats.samples, found


class Exploration:
    def __init__(self):
        self.evaluations = 0
        self.seen = set()
        self.skipped = 0
        self.cases = 0
        self.planned = 0
        self.lost = 0
        self.samples = []
        self.found = []

    def run(self, pid, count, seconds, seed, stop=True):
        tasks = [(pid, index, seed * 10 ** 7 + number) for number in range(count)
                 for index in range(len(oracles.profiles(pid)))]
        self.planned += len(tasks)
        size = max(4, min(BATCH, len(tasks) // 32))
        batches = [tasks[i:i + size] for i in range(0, len(tasks), size)]
        for batch, result in workers.run(judge, batches, seconds=seconds, deadline=time.time() + seconds):
            if result is workers.DIED or result is workers.LATE:
                self.lost += len(batch)
                continue
            cases, evaluations, seen, skipped, samples, found = result
            self.cases += cases
            self.evaluations += evaluations
            self.seen.update(seen)
            self.skipped += skipped
            if len(self.samples) < 3:
                self.samples += [replays.plain(sample) for sample in samples[:1]]
            self.found += found
            if found and stop:
                break


def back_ends(reports):
    counts = {}
    for report in reports:
        if report['status'] == 'proved':
            name = report.get('back_end', 'z3')
            counts[name] = counts.get(name, 0) + report['discharged']
    return counts


def known_findings(pid):
    """Findings recorded rather than repaired: a violation whose description contains the text is one of them"""
    path = os.path.join(VERIF, 'known_findings.txt')
    found = []
    with open(path, encoding='utf-8') as file:
        for line in file:
            if line.startswith(f'finding: property={pid} '):
                found.append(line.strip()[len(f'finding: property={pid} '):])
    return found


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument('property')
    parser.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    options = parser.parse_args()
    pid, tier = options.property, options.tier
    seed = int(os.environ.get('VERIF_SEED', '1'))
    started = time.time()

    contracts, reports, assumed, lemmas = deduct.run(pid, timeout=8000 if tier == 'quick' else 60000)
    failed = [report for report in reports.values() if report['status'] == 'refuted']
    open_ones = [report for report in reports.values() if report['status'] != 'proved']

    exploration = Exploration()
    count = QUICK[pid] * MORE[tier]
    # an obligation that is not discharged: look harder for an input that shows it
    exploration.run(pid, count * (3 if open_ones else 1), SECONDS[tier] * (2 if open_ones else 1), seed)

    violations = []
    for violation in sorted(exploration.found, key=lambda v: len(repr(v)))[:1]:
        violation = replays.minimized(pid, violation, 30)
        violations.append((replays.write(pid, violation), violation['what'], ''))
    confirmed = []
    if not violations and failed:
        for report in failed:
            if pid in contracts.by_name[report['function']].serves:
                difference = functions.difference(report['function'], report.get('model'), seed)
                if difference:
                    confirmed.append((report, difference))
        for report, difference in confirmed[:1]:
            path = replays.write_obligation(pid, report, difference)
            violations.append((path, f'{report["function"]} does not meet its contract: {difference}',
                               ' no-failing-input-found'))

    listed = known_findings(pid)
    for text in listed:
        print(f'KNOWN-FINDING: property={pid} {text}')

    obligations = sum(report['obligations'] for report in reports.values())
    discharged = sum(report['discharged'] for report in reports.values() if report['status'] == 'proved')
    bounded = BOUNDED.get(pid, [])
    level = 'proof' if obligations and not open_ones and not bounded else 'exploration'
    coverage = {
        'obligations': obligations,
        'discharged': discharged,
        'checker_cmd': f'python3-vt check.py {pid}',
        'trusted_base': BASE,
        'functions_under_contract': len(reports),
        'functions_proved': sum(1 for report in reports.values() if report['status'] == 'proved'),
        'functions_not_proved': [{'function': report['function'], 'status': report['status'], 'why': report['why']}
                                 for report in open_ones],
        'functions_bounded_only': bounded,
        'lemmas_tried_on_short_texts': lemmas,
        'back_ends': back_ends(reports.values()),
        'solver_seconds': round(sum(report['solver_seconds'] for report in reports.values()), 2),
        'functions': list(reports.values()),
        'bounded': {
            'rule': 'random dictionaries and words over the domain of the property, the running code against the '
                    'specification; non-trivial: distinct and not answered by False or an empty list',
            'cases': exploration.cases, 'planned': exploration.planned, 'answers_compared': exploration.evaluations,
            'skipped': exploration.skipped, 'lost': exploration.lost,
        },
        'evaluations': exploration.evaluations,
        'distinct_nontrivial': len(exploration.seen),
        'rule': 'as in bounded.rule',
        'samples': exploration.samples,
    }
    evidence = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': coverage,
        'assumptions': [*[f'{name}: {ASSUMED.get(name, "assumed contract")}' for name in assumed],
                        *(ADAPTORS if reports else [])],
        'wall_s': round(time.time() - started, 2), 'violations': len(violations),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', f'{pid}.json'), 'w', encoding='utf-8', errors='backslashreplace') as file:
        json.dump(evidence, file, indent=1, default=str)

    for report in open_ones:
        print(f'not proved (bounded check stands in): {report["function"]}: {report["status"]}: {report["why"][:200]}')
    print(f'{pid}: {coverage["functions_proved"]}/{len(reports)} functions proved, {discharged}/{obligations} obligations, '
          f'{exploration.evaluations} answers compared in {evidence["wall_s"]} s')
    if not exploration.evaluations:
        print('nothing was compared')
        return 2
    for path, what, suffix in violations:
        print(ascii(what))
        print(f'VIOLATION property={pid} replay={path}{suffix}')
    return 1 if violations else 0


def in_scratch():
    """Everything written while checking, also by processes that are killed, goes to a folder that is removed"""
    folder = tempfile.mkdtemp(prefix='verif-check-')
    tempfile.tempdir = os.environ['TMPDIR'] = folder
    try:
        return main()
    finally:
        shutil.rmtree(folder, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(in_scratch())
