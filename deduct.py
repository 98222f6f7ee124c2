"""The deductive part of a check: obligations of every function a property depends on."""

import os
import time
import traceback

import workers
from contracts import lemmas, trials
from contracts.registry import PURE, ROOTS, build
from pyvc.frame import frames
from pyvc.verify import REPO, verify

MEMORY = 6 * 1024 ** 3


def failed(name, status, why, seconds, trace=''):
    return dict(function=name, status=status, why=why, trace=trace, obligations=0, discharged=0, callee_contracts=[], inlined=[],
                at='', seconds=seconds, solver_seconds=0)


def verify_one(task):
    name, timeout = task
    contracts = build()
    started = time.time()
    try:
        return verify(contracts, contracts.by_name[name], timeout).as_dict()
    except Exception as error:  # an unexpected shape of the source is not a violation
        return failed(name, 'error', f'{type(error).__name__}: {error}'[:300], time.time() - started,
                      traceback.format_exc()[-2000:])


def without_errors(report):
    """Proved to end without an exception, not just to give the right result where it gives one"""
    if report['status'] == 'proved' and (report['may_raise'] or report['not_known_to_end']):
        report['status'] = 'unknown'
        report['why'] = '; '.join([*report['may_raise'], *report['not_known_to_end']])[:500]


def only_expected_errors(contract, report):
    """Where malformed files are read, other errors than those of malformed files fail the contract"""
    unexpected = [what for what in report['may_raise'] if what not in contract.raises]
    if report['status'] == 'proved' and unexpected:
        report['status'] = 'unknown'
        report['why'] = '; '.join(unexpected)[:500]
    if report['status'] == 'proved':
        # rows with too few columns are outside of the contract
        report['outside_of_contract'] = report['may_raise']
        report['obligations'] = report['discharged']


def try_one(name):
    return trials.tried(name) if name in trials.TRIALS else lemmas.disagreement(build(), name)


def lemmas_used(reports, seconds=100):
    """What is assumed of the library and of classes, tried on all short texts; what relies on a wrong one is not proved"""
    used = sorted({name for report in reports.values() for name in report['callee_contracts']
                   if lemmas.known(name) or name in trials.TRIALS})
    tried = []
    for name, result in workers.run(try_one, used, seconds=seconds, memory=MEMORY):
        what, count, wrong = ('', 0, 'no answer') if result in (workers.DIED, workers.LATE) else result
        tried.append({'lemma': name, 'tried': what, 'cases': count, 'wrong_for': wrong})
        if wrong is not None:
            for report in reports.values():
                if name in report['callee_contracts'] and report['status'] == 'proved':
                    report.update(status='unknown', why=f'{name} is not what is assumed of it: {wrong!r}')
    return sorted(tried, key=lambda row: row['lemma'])


def cyclic(contracts, reports):
    """Functions calling themselves through others: their end is not proved"""
    calls = {name: [c for c in report['callee_contracts']
                    if c in reports and contracts.by_name[c].group != contracts.by_name[name].group]
             for name, report in reports.items()}
    for name in calls:
        seen, queue = set(), list(calls[name])
        while queue:
            cur = queue.pop()
            if cur not in seen:
                seen.add(cur)
                queue.extend(calls.get(cur, ()))
        if name in seen and reports[name]['status'] == 'proved':
            reports[name].update(status='unknown', why='recursion through other functions')


def frame_report(name, place, changed, read):
    fine = not changed and not read
    why = '; '.join([*[f'may change {what}' for what in changed], *[f'reads {what}' for what in read]])
    return dict(function=f'frame of {name}', status='proved' if fine else 'unknown', why=why, at=place, obligations=1,
                discharged=int(fine), callee_contracts=[], inlined=[], seconds=0, solver_seconds=0, back_end='frame analysis')


def callees(contracts, report):
    """Contracts relied on, or those they are shown by"""
    known = [contracts.by_name.get(name) for name in report['callee_contracts']]
    return [callee for name, contract in zip(report['callee_contracts'], known)
            for callee in (contract.shown_by if contract is not None and contract.shown_by else [name])]


def run(pid, timeout=None, seconds=240, total=420):
    """Reports of the functions serving the property and of all they rely on"""
    contracts = build()
    wanted = [contract.name for contract in contracts.by_name.values()
              if contract.real and (pid in contract.serves or contract.name in ROOTS.get(pid, ()))]
    reports = {}
    end = time.time() + total
    while wanted:
        seconds = max(1, min(seconds, int(end - time.time())))
        for (name, _), report in workers.run(verify_one, [(name, timeout) for name in wanted], seconds=seconds, memory=MEMORY):
            if report is workers.DIED:
                report = failed(name, 'error', 'the verifier died', 0)
            elif report is workers.LATE:
                report = failed(name, 'unknown', f'no answer in {seconds} s', seconds)
            reports[name] = report
        wanted = sorted({name for report in reports.values() for name in callees(contracts, report)
                         if name in contracts.by_name and contracts.by_name[name].real and name not in reports})
    for name, report in reports.items():
        if contracts.by_name[name].raises is not None and 'may_raise' in report:
            only_expected_errors(contracts.by_name[name], report)
    if pid == 'C19':
        for report in reports.values():
            without_errors(report)
        cyclic(contracts, reports)
    for name, place, changed, read in frames(os.path.join(REPO, 'spylls', 'hunspell'), PURE[pid]) if pid in PURE else ():
        reports[f'frame of {name} ({place})'] = frame_report(name, place, changed, read)
    assumed = sorted({name for report in reports.values() for name in callees(contracts, report) if name not in reports})
    return contracts, reports, assumed, lemmas_used(reports)
