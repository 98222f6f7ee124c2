"""Verification of one function: its body, taken from the current source, against its contract."""

import ast
import os
import time
import traceback

import z3

from pyvc import prove as P
from pyvc.compare import Comparison, Obligation
from pyvc.inductive import Inductive, unfolding
from pyvc.interp import Interp, State
from pyvc.lib import distinct_axioms, letter_axioms, removal_axioms, split_axioms, strip_axioms
from pyvc.values import ClassV, FuncV, Seq, Sym, Unsupported

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Report:
    def __init__(self, name):
        self.name = name
        self.status = 'unknown'     # proved | refuted | unknown | unsupported | missing
        self.why = ''
        self.obligations = []
        self.unsafe = []
        self.endless = []
        self.seconds = 0.0
        self.solver_seconds = 0.0
        self.solvers = {}
        self.used = []
        self.inlined = []
        self.location = ''

    def solver_work(self, before):
        self.solver_seconds = P.STATS['seconds'] - before['seconds']
        self.solvers = {'unsat by z3 and cvc5': P.STATS['confirmed'] - before['confirmed'],
                        'unsat by z3, no answer of cvc5': P.STATS['alone'] - before['alone'],
                        'unsat by z3 but sat by cvc5 (not counted)': P.STATS['disputed'] - before['disputed']}

    def as_dict(self):
        return {
            'function': self.name, 'status': self.status, 'why': self.why, 'at': self.location,
            'obligations': len(self.obligations),
            'discharged': sum(1 for o in self.obligations if o.result),
            'may_raise': self.unsafe, 'not_known_to_end': self.endless,
            'callee_contracts': self.used, 'inlined': self.inlined,
            'seconds': round(self.seconds, 2), 'solver_seconds': round(self.solver_seconds, 2),
            'solvers': self.solvers,
        }


def find(interp, where):
    module_name, cls, name = where
    module = interp.module(module_name)
    if module is None:
        return None, None
    if cls is None:
        node = module.defs.get(name)
        if not isinstance(node, ast.FunctionDef):
            node = None
    else:
        node = module.method(cls, name)
    return module, node


def within(node, name):
    """Function defined in another one"""
    return next((n for n in ast.walk(node) if isinstance(n, ast.FunctionDef) and n.name == name), None)


def run(interp, where, receiver, params, assume, call=None):
    outer, _, inner = where[2].partition('.')
    if where[2].startswith('def '):
        # how objects are made and used
        module, node, inner = interp.module(where[0]), ast.parse(where[2]).body[0], None
    else:
        module, node = find(interp, (*where[:2], outer))
    if inner and node is not None:
        return run_nested(interp, module, within(node, inner), where, params, assume)
    if node is None:
        raise LookupError('.'.join(x for x in where if x))
    names = [a.arg for a in [*node.args.posonlyargs, *node.args.args, *node.args.kwonlyargs]]
    static = any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in node.decorator_list)
    if any(isinstance(d, ast.Name) and d.id == 'classmethod' for d in node.decorator_list):
        receiver = ClassV(module.defs[where[1]], module)
    st = State({}, list(assume), module)
    kwargs = {}
    args = []
    positional = [a.arg for a in [*node.args.posonlyargs, *node.args.args]]
    if where[1] is not None and not static:
        positional = positional[1:]
    given = dict(params)
    order = list(given)
    # by name where the names match, by position otherwise
    if call is not None:
        args, kwargs = call(interp, *params.values())
    elif all(n in names for n in given):
        kwargs = {n: v for n, v in given.items()}
    else:
        for n, v in given.items():
            if order.index(n) < len(positional):
                args.append(v)
            else:
                kwargs[n] = v
    func = FuncV(node, None, module, self_value=receiver if where[1] is not None and not static else None,
                 cls=where[1])
    return interp.call_function(func, args, kwargs, st), node, module


def run_nested(interp, module, node, where, params, assume):
    if node is None:
        raise LookupError('.'.join(x for x in where if x))
    names = [a.arg for a in [*node.args.posonlyargs, *node.args.args, *node.args.kwonlyargs]]
    around = State({name: value for name, value in params.items() if name not in names}, list(assume), module)
    around.cls = where[1]
    func = FuncV(node, around, module)
    around.env[node.name] = func
    kwargs = {name: value for name, value in params.items() if name in names}
    return interp.call_function(func, [], kwargs, State({}, list(assume), module)), node, module


def definitions(contracts, names):
    """Function -> (parameters, body): what the specification functions are by definition"""
    found = {}
    for name in names:
        contract = contracts.by_name[name]
        spec = Interp('spec', VERIF, 'spec', contracts)
        params = {n: Sym(ty, z3.Const(f'{name}:{n}', ty.sort())) for n, ty, _ in contract.params}
        value, _, _ = run(spec, contract.spec, None, params, [])
        found[contract.function().get_id()] = ([p.t for p in params.values()], spec.term(value, contract.returns))
    return found


def by_invariants(contracts, contract, report):
    unfold = unfolding(definitions(contracts, contract.unfolds))
    real = Inductive('real', REPO, 'spylls', contracts, contract.invariants, unfold)
    spec = Interp('spec', VERIF, 'spec', contracts)
    params = {name: Sym(ty, z3.Const(name, ty.sort())) for name, ty, _ in contract.params}
    value1, node, module = run(real, contract.real, None, params, [])
    report.location = f'{os.path.relpath(module.path, REPO)}:{node.lineno}'
    value2, _, _ = run(spec, contract.spec, None, params, [])
    if real.loop_number != len(contract.invariants):
        raise Unsupported('loops other than those of the invariants')
    if P.check([*real.facts, *unfold(real.facts)])[0] == z3.unsat:
        raise Unsupported('contradictory invariants')
    real.oblige(real.facts, real.term(value1, contract.returns) == spec.term(value2, contract.returns), 'result')
    guards = [Obligation(text, real.proof(ctx, formula)) for _, ctx, formula, text in real.safety]
    report.unsafe = [o.what for o in guards if not o.result]
    report.obligations = [*real.obligations, *guards]
    report.used = sorted((real.used | spec.used) - set(contract.unfolds))
    report.inlined = sorted(real.inlined)
    bad = [o for o in real.obligations if not o.result]
    report.status = 'unknown' if bad else 'proved'
    report.why = '; '.join(o.what for o in bad)[:500]


def verify(contracts, contract, timeout=None):
    report = Report(contract.name)
    started = time.time()
    before = dict(P.STATS)
    P.AXIOMS[:] = [distinct_axioms, letter_axioms, removal_axioms, split_axioms, strip_axioms, contracts.axioms(), *[p.axioms for p in contracts.predicates]]
    try:
        if contract.invariants:
            by_invariants(contracts, contract, report)
            report.seconds = time.time() - started
            report.solver_work(before)
            return report
        real = Interp('real', REPO, 'spylls', contracts)
        spec = Interp('spec', VERIF, 'spec', contracts)
        real.made = spec.made = contract.made
        receiver = None
        if contract.receiver is not None:
            receiver = Sym(contract.receiver, z3.Const('self', contract.receiver.sort()))
        params = {name: Sym(ty, z3.Const(name, ty.sort())) for name, ty, _ in contract.params}
        st = State({}, [], None)
        assume = [pre(real, receiver, list(params.values()), st) for pre in contract.requires]
        if contract.setup is not None:
            assume.extend(contract.setup(real, receiver, params))
        terms = [] if receiver is None else [receiver.t]
        terms += [value.t for value in params.values()]
        if contract.variant is not None:
            real.measured = (contract.group, contract.variant(*terms))
        P.TWINS.reset()
        P.TWINS.recording = True
        value1, node, module = run(real, contract.real, receiver, params, assume, contract.given)
        report.location = f'{os.path.relpath(module.path, REPO)}:{node.lineno}'
        if contract.made:
            report.location = ', '.join(f'{os.path.relpath(module.path, REPO)}:{module.defs[name].lineno}'
                                        for name in sorted(contract.made) if name in module.defs)
        P.TWINS.recording, P.TWINS.comparing = False, True
        value2, _, _ = run(spec, contract.spec, receiver, params, assume, contract.given)
        if not P.possible(assume):
            raise Unsupported('contradictory preconditions')
        comparison = Comparison(real, timeout)
        if contract.view is not None:
            value1, value2 = contract.view(real, value1), contract.view(spec, value2)
        comparison.values(value1, value2, assume, 'result')
        for cell, initial in contract.state:
            comparison.values(real.heap.get(cell, initial), spec.heap.get(cell, initial), assume, f'state {cell}')
        for fact in contract.ensures:
            comparison.goal(assume, fact(real.term(value1, contract.returns), terms), 'ensures')
        for fact in contract.each:
            comparison.each(real.nodes_of(value1, None), assume, lambda item, fact=fact: fact(item, terms),
                            contract.returns.of, 'ensures of items')
        guards = Comparison(real, timeout)
        for line, ctx, formula, text in real.safety:
            guards.easy_goal(ctx, formula, text)
        report.unsafe = [o.what for o in guards.failed()]
        report.endless = [f'loop in line {line}' for line in sorted(set(real.endless))]
        if contract.name in real.used and contract.variant is None:
            report.endless.append('recursion')
        report.obligations = [*comparison.obligations, *guards.obligations]
        report.used = sorted(real.used | spec.used)
        report.inlined = sorted(real.inlined)
        bad = comparison.failed() or [o for o in guards.failed() if 'precondition' in o.what]
        if not report.obligations:
            report.status, report.why = 'unknown', 'no obligations'
        elif not bad:
            report.status = 'proved'
        elif any(o.result.status == 'refuted' for o in bad):
            report.status = 'refuted'
            report.why = '; '.join(o.what for o in bad)[:500]
        else:
            report.status = 'unknown'
            report.why = '; '.join(f'{o.what} ({o.result.why})' for o in bad)[:500]
    except LookupError as error:
        report.status, report.why = 'missing', f'function not found: {error}'
    except Unsupported as error:
        report.status, report.why = 'unsupported', str(error)[:500]
    except (z3.Z3Exception, RecursionError, KeyError, AttributeError, IndexError, TypeError, ValueError) as error:
        report.status = 'unsupported'
        report.why = f'{type(error).__name__}: {error} ' + ' < '.join(
            f'{os.path.basename(f.filename)}:{f.lineno}' for f in reversed(traceback.extract_tb(error.__traceback__)[-6:]))
    report.seconds = time.time() - started
    report.solver_work(before)
    return report
