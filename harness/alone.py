"""Answers for queries, each from a newly loaded dictionary, in a process of its own (see oracles.alone)."""

import pickle
import sys

from harness import oracles


def main():
    aff, dic, queries = pickle.load(sys.stdin.buffer)
    answers = []
    for kind, word in queries:
        answers.append(oracles.ask_real(oracles.load_real(aff, dic), kind, word))
    sys.stdout.buffer.write(pickle.dumps(answers))


if __name__ == '__main__':
    main()
