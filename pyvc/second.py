"""A second solver asked about what the first one has decided: sequences are where solvers err."""

import hashlib
import re

import cvc5

STEPS = 400000      # of cvc5
_answers = {}


def opinion(solver):
    """'unsat', 'sat' or 'unknown' (also if the question can not be put to the other solver)"""
    text = re.sub(r'\|[^|]*\|', lambda symbol: symbol.group().replace('\\', '!'), solver.to_smt2())
    key = hashlib.blake2b(text.encode()).digest()
    if key not in _answers:
        _answers[key] = ask(text)
    return _answers[key]


def ask(text):
    manager = cvc5.TermManager()
    solver = cvc5.Solver(manager)
    solver.setOption('strings-exp', 'true')
    solver.setOption('arrays-exp', 'true')
    solver.setOption('rlimit', str(STEPS))
    parser = cvc5.InputParser(solver)
    parser.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, '(set-logic ALL)\n' + text, 'query')
    symbols = parser.getSymbolManager()
    answer = ''
    try:
        while True:
            command = parser.nextCommand()
            if command.isNull():
                break
            answer += command.invoke(solver, symbols)
    except RuntimeError:
        return 'unknown'
    answer = answer.strip()
    return answer if answer in ('sat', 'unsat') else 'unknown'
