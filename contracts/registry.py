"""All contracts."""

import importlib

from pyvc.contract import Contracts

MODULES = ['data', 'patterns', 'lookup', 'strings', 'suggest', 'ngrams', 'reading', 'loading']


def build():
    contracts = Contracts()
    for name in MODULES:
        importlib.import_module(f'contracts.{name}').register(contracts)
    return contracts


# where the answers a property speaks about come from
ROOTS = {
    **{f'C{number:02}': ['Dictionary.lookup'] for number in range(1, 10)},
    **{f'C{number:02}': ['Dictionary.suggest'] for number in (10, 11, 12, 13, 15, 21)},
    'C03': ['Dictionary.lookup', 'Dictionary.suggest'],
    'C09': ['Dictionary.lookup', 'Dictionary.suggest'],
    'C18': ['Dictionary.lookup', 'Dictionary.suggest'],
    'C19': ['Dictionary.lookup', 'Dictionary.suggest'],
}

# what properties depend on besides, covered by the bounded comparison only
BOUNDED = {}

# whose functions may change nothing but what they make
PURE = {
    'C18': {('Dictionary', 'lookup'), ('Dictionary', 'suggest')},
}
