"""Discharging obligations. Quantified notions (exists, first index, comprehension, fold) are named by function
symbols with known definitions; their defining facts are instantiated on demand, so every query is quantifier-free."""

import itertools
import time

import z3

from pyvc.second import opinion

TRUE = z3.BoolVal(True)
FALSE = z3.BoolVal(False)

STATS = {'queries': 0, 'seconds': 0.0, 'unknown': 0, 'confirmed': 0, 'alone': 0, 'disputed': 0}
TIMEOUT = 8000
STEPS = 6000     # of the solver, in a millisecond

DEBUG = None

_counter = [0]


def fresh(sort, prefix):
    _counter[0] += 1
    return z3.Const(f'{prefix}!{_counter[0]}', sort)


def simplify(t):
    return z3.simplify(t)


def conj(*terms):
    terms = [t for t in terms if not z3.is_true(t)]
    if any(z3.is_false(t) for t in terms):
        return FALSE
    if not terms:
        return TRUE
    return terms[0] if len(terms) == 1 else z3.And(*terms)


def disj(*terms):
    terms = [t for t in terms if not z3.is_false(t)]
    if any(z3.is_true(t) for t in terms):
        return TRUE
    if not terms:
        return FALSE
    return terms[0] if len(terms) == 1 else z3.Or(*terms)


def neg(t):
    if z3.is_true(t):
        return FALSE
    if z3.is_false(t):
        return TRUE
    if z3.is_not(t):
        return t.arg(0)
    return z3.Not(t)


def free_consts(t, skip=()):
    """Uninterpreted constants in order of occurrence"""
    seen = set()
    found = []
    skip_ids = {s.get_id() for s in skip}
    stack = [t]
    while stack:
        cur = stack.pop()
        if cur.get_id() in seen:
            continue
        seen.add(cur.get_id())
        if z3.is_app(cur):
            if cur.num_args() == 0 and cur.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                if cur.get_id() not in skip_ids:
                    found.append(cur)
            stack.extend(reversed(cur.children()))
    return found


_consts = {}


def const_ids(t):
    """Identities of the uninterpreted constants"""
    found = _consts.get(t.get_id())
    if found is None or not found[0].eq(t):
        consts = free_consts(t)
        found = _consts[t.get_id()] = (t, frozenset(c.get_id() for c in consts), consts)
    return found[1]


def contains(t, const):
    return const.get_id() in const_ids(t)


def size(t, limit):
    """Number of different subterms, up to the limit"""
    seen = set()
    stack = [t]
    while stack and len(seen) < limit:
        cur = stack.pop()
        if cur.get_id() not in seen:
            seen.add(cur.get_id())
            if z3.is_app(cur):
                stack.extend(cur.children())
    return len(seen)


class Definition:
    """kind: exists | first | comp | sum | max | concat..."""

    def __init__(self, kind, decl, params, n, k, body, extra=None):
        self.kind = kind
        self.decl = decl
        self.params = params
        self.n = n
        self.k = k
        self.body = body
        self.extra = extra
        self.symbols = None


_by_key = {}
_by_decl = {}


def define(kind, n, k, body, sort, extra=None):
    """Term standing for: exists k<n: body / first k<n with body / ..."""
    n, body = simplify(n), simplify(body)
    if kind == 'exists':
        if z3.is_false(body):
            return FALSE
    pack = z3.Function('pack', z3.IntSort(), body.sort(), z3.BoolSort())(n, body)
    free = free_consts(pack, skip=[k])
    names = [z3.Const(f'param!{i}:{c.sort()}', c.sort()) for i, c in enumerate(free)]
    bound = z3.Const('bound!k', z3.IntSort())
    subst = [*zip(free, names), (k, bound)]
    n2 = z3.substitute(n, *subst)
    body2 = z3.substitute(body, *subst)
    key = (kind, str(sort), n2.get_id(), body2.get_id())
    if key not in _by_key:
        same = TWINS.alias(key, free) or TWINS.find(kind, sort, n, k, body, None, free)
        if same is not None:
            TWINS.remember(key, same, free, (n2, body2))
            return same[0].decl(*same[1])
        decl = z3.Function(f'{kind}!{len(_by_key)}', *[c.sort() for c in free], sort)
        definition = Definition(kind, decl, names, n2, bound, body2, extra)
        _by_key[key] = definition
        _by_decl[decl.get_id()] = definition
    TWINS.add(_by_key[key], free)
    return _by_key[key].decl(*free)


def define_iterate(place, k, step, init, count):
    """Term standing for: `init` changed `count` times by place := step(place, k), k = 0, 1..."""
    step = simplify(step)
    count = simplify(count)
    if z3.is_int_value(count) and count.as_long() <= 0:
        return init
    free = free_consts(step, skip=[k, place])
    names = [z3.Const(f'param!{i}:{c.sort()}', c.sort()) for i, c in enumerate(free)]
    bound = z3.Const('bound!k', z3.IntSort())
    state = z3.Const(f'bound!s:{place.sort()}', place.sort())
    body = z3.substitute(step, *zip(free, names), (k, bound), (place, state))
    key = ('iterate', str(place.sort()), body.get_id())
    if key not in _by_key:
        same = TWINS.alias(key, free) or TWINS.find('iterate', place.sort(), None, k, step, place, free)
        if same is not None:
            TWINS.remember(key, same, free, (body,))
            return same[0].decl(init, *same[1], count)
        decl = z3.Function(f'iterate!{len(_by_key)}', place.sort(), *[c.sort() for c in free], z3.IntSort(), place.sort())
        definition = Definition('iterate', decl, names, None, bound, body, state)
        _by_key[key] = definition
        _by_decl[decl.get_id()] = definition
    TWINS.add(_by_key[key], free)
    return _by_key[key].decl(init, *free, count)


class Twins:
    """Symbols defined for the code, used for the specification as well where their definitions are proved equivalent
    (for all values of their parameters)"""

    def __init__(self):
        self.recording = False
        self.comparing = False
        self.known = []
        self.aliases = {}
        self.proved = 0

    def reset(self):
        self.__init__()

    def add(self, definition, free):
        if self.recording and not any(d is definition and len(free) == len(f) and all(map(z3.eq, f, free))
                                      for d, f in self.known):
            self.known.append((definition, free))

    def find(self, kind, sort, n, k, body, place, free):
        if not self.comparing:
            return None
        about = symbols(body)
        ranked = []
        for d, params in self.known:
            if d.kind != kind or d.decl.range() != sort:
                continue
            if d.symbols is None:
                d.symbols = symbols(d.body)
            likeness = len(about & d.symbols) / max(1, len(about | d.symbols))
            if likeness >= 0.5:
                ranked.append((-likeness, len(ranked), d, params))
        ranked.sort(key=lambda item: item[:2])
        for effort, tries in ((100, 8), (2000, 4), (None, 2)):
            for _, _, d, params in ranked[:tries]:
                for actual in matches(params, free):
                    if self.equal(d, actual, n, k, body, place, effort):
                        self.proved += 1
                        return d, actual
        return None

    def equal(self, d, actual, n, k, body, place, effort):
        subst = [*zip(d.params, actual), (d.k, k)]
        if place is not None:
            subst.append((d.extra, place))
        context = [k >= 0]
        if n is not None:
            count = z3.substitute(d.n, *subst)
            if not equivalent([], count, n, effort):
                return False
            if d.kind != 'least':
                context.append(k < n)
        return equivalent(context, z3.substitute(d.body, *subst), body, effort)

    def remember(self, key, same, free, keep):
        definition, actual = same
        places = [next((i for i, c in enumerate(free) if c.eq(a)), a) for a in actual]
        self.aliases[key] = (definition, places, keep)

    def alias(self, key, free):
        if not self.comparing or key not in self.aliases:
            return None
        definition, places, _ = self.aliases[key]
        return definition, [free[p] if isinstance(p, int) else p for p in places]


TWINS = Twins()


def symbols(t):
    """Names of functions and values of literals"""
    found = set()
    seen = set()
    stack = [t]
    while stack:
        cur = stack.pop()
        if cur.get_id() in seen or not z3.is_app(cur):
            continue
        seen.add(cur.get_id())
        if cur.num_args() and cur.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            found.add(cur.decl().name())
        elif z3.is_string_value(cur):
            found.add(repr(cur.as_string()))
        stack.extend(cur.children())
    return found


def matches(params, free):
    """What the parameters of a definition may be in terms of other constants"""
    own = [c for c in free if '!' in c.decl().name()]
    options = []
    for c in params:
        if '!' not in c.decl().name():
            options.append([c])
        else:
            options.append([o for o in own if o.sort() == c.sort()])
    count = 0
    for choice in itertools.product(*options):
        inner = [c for c in choice if '!' in c.decl().name()]
        if len({c.get_id() for c in inner}) == len(inner):
            yield list(choice)
            count += 1
            if count == 6:
                return


def equivalent(context, a, b, effort):
    a, b = simplify(a), simplify(b)
    if a.eq(b):
        return True
    if effort:
        return check([plain(f) for f in [*context, a != b]], effort)[0] == z3.unsat
    return Congruence(context).same(a, b)


_plain = {}


def plain(t):
    """The term with operations on sequences taken for unknown functions"""
    stack = [t]
    while stack:
        cur = stack[-1]
        known = _plain.get(cur.get_id())
        if known is not None:
            stack.pop()
            continue
        if not z3.is_app(cur) or cur.num_args() == 0:
            _plain[cur.get_id()] = (cur, cur)
            stack.pop()
            continue
        children = cur.children()
        missing = [c for c in children if c.get_id() not in _plain]
        if missing:
            stack.extend(missing)
            continue
        parts = [_plain[c.get_id()][1] for c in children]
        decl = cur.decl()
        if decl.kind() in SEQUENCE_OPS:
            name = f'plain:{decl.name()}:{",".join(str(p.sort()) for p in parts)}:{decl.range()}'
            new = z3.Function(name, *[p.sort() for p in parts], decl.range())(*parts)
        elif all(p is c or p.eq(c) for p, c in zip(parts, children)):
            new = cur
        else:
            new = rebuilt(cur, parts)
        _plain[cur.get_id()] = (cur, new)
        stack.pop()
    return _plain[t.get_id()][1]


SEQUENCE_OPS = {getattr(z3, name) for name in dir(z3) if name.startswith(('Z3_OP_SEQ_', 'Z3_OP_STR_', 'Z3_OP_STRING_'))}


def rebuilt(t, parts):
    kind = t.decl().kind()
    if kind == z3.Z3_OP_AND:
        return z3.And(*parts)
    if kind == z3.Z3_OP_OR:
        return z3.Or(*parts)
    if kind == z3.Z3_OP_ADD:
        return z3.Sum(*parts)
    if kind == z3.Z3_OP_MUL:
        return z3.Product(*parts)
    if kind == z3.Z3_OP_DISTINCT:
        return z3.Distinct(*parts)
    return t.decl()(*parts)


def follows(context, goal, timeout, longer):
    formulas = [*context, z3.Not(goal)]
    if check([plain(f) for f in formulas], timeout)[0] == z3.unsat:
        return True
    if check(formulas, timeout)[0] == z3.unsat:
        return True
    more = facts(formulas)
    return bool(more) and check([*formulas, *more], longer)[0] == z3.unsat


class Congruence:
    """Equality of terms by equality of their parts, where they are alike; by search, where they are not"""

    def __init__(self, context, budget=40):
        self.context = context
        self.answers = {}
        self.budget = budget

    def same(self, a, b):
        if a.eq(b):
            return True
        key = (a.get_id(), b.get_id())
        if key not in self.answers:
            # (terms are kept, so that the identities are)
            self.answers[key] = (self.compare(a, b), a, b)
        return self.answers[key][0]

    def compare(self, a, b):
        if a.sort() != b.sort():
            return False
        if z3.is_app(a) and z3.is_app(b) and a.num_args() and a.decl().eq(b.decl()):
            parts_a, parts_b = a.children(), b.children()
            if a.decl().kind() in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_ADD, z3.Z3_OP_EQ):
                parts_a, parts_b = rest(parts_a, parts_b), rest(parts_b, parts_a)
            if len(parts_a) == len(parts_b) and all(x.sort() == y.sort() for x, y in zip(parts_a, parts_b)) and \
                    all(self.same(x, y) for x, y in zip(parts_a, parts_b)):
                return True
        if self.budget <= 0:
            return False
        self.budget -= 1
        answer = follows(self.context, a == b, 300, 1500)
        if DEBUG is not None and not answer:
            DEBUG(a, b)
        return answer


def rest(parts, others):
    """Those that are not among the others"""
    return [p for p in parts if not any(p.eq(o) for o in others)]


def unfold_iterate(term):
    """definition, initial state, count, step in terms of the bound k and state"""
    d = _by_decl[term.decl().get_id()]
    children = term.children()
    subst = list(zip(d.params, children[1:-1]))
    return d, children[0], children[-1], (z3.substitute(d.body, *subst) if subst else d.body)


def exists(n, k, body):
    body = simplify(body)
    if z3.is_false(body):
        return FALSE
    if not contains(body, k):
        return conj(n > 0, body)
    return define('exists', n, k, body, z3.BoolSort())


def instances(terms, seen):
    """Applications of defined symbols in the terms"""
    stack = list(terms)
    visited = set()
    while stack:
        cur = stack.pop()
        if cur.get_id() in visited:
            continue
        visited.add(cur.get_id())
        if z3.is_app(cur):
            if cur.decl().get_id() in _by_decl and cur.get_id() not in seen:
                seen[cur.get_id()] = cur
                yield cur
            stack.extend(cur.children())


def kind_of(term):
    return _by_decl[term.decl().get_id()].kind


def unfold(term):
    d = _by_decl[term.decl().get_id()]
    subst = list(zip(d.params, term.children()))
    return d, (z3.substitute(d.n, *subst) if subst else d.n), (z3.substitute(d.body, *subst) if subst else d.body)


class Result:
    def __init__(self, status, why='', model=None, exact=True):
        self.status = status        # proved | refuted | unknown
        self.why = why
        self.model = model
        self.exact = exact

    def __bool__(self):
        return self.status == 'proved'

    def __repr__(self):
        return f'{self.status}({self.why})'


AXIOMS = []     # functions: list of formulas -> extra formulas (facts about terms that occur)


def close(formulas, witnesses=(), limit=None):
    """Add instances of the definitions for the terms that occur (until they are too large)"""
    formulas = list(formulas)
    seen = {}
    done = set()
    witnesses = list(witnesses)
    exs = []
    frontier = list(formulas)
    for _ in range(4):
        new = []
        for term in instances(frontier, seen):
            if _by_decl[term.decl().get_id()].kind == 'iterate':
                d, init, count, step = unfold_iterate(term)
                new.append(z3.Implies(count <= 0, term == init))
                if is_successor(count):
                    previous = term.decl()(*term.children()[:-1], simplify(count - 1))
                    new.append(z3.Implies(count > 0, term == z3.substitute(step, (d.extra, previous), (d.k, simplify(count - 1)))))
                continue
            d, n, body = unfold(term)
            if d.kind == 'least':
                exs.append((term, d, n, body))
                new.append(conj(term >= 0, z3.substitute(body, (d.k, term))))
                witnesses.append(term)
            elif d.kind in ('exists', 'first'):
                exs.append((term, d, n, body))
                if d.kind == 'exists':
                    w = fresh(z3.IntSort(), 'w')
                    witnesses.append(w)
                    new.append(z3.Implies(term, conj(w >= 0, w < n, z3.substitute(body, (d.k, w)))))
                else:
                    new.append(conj(term >= 0, term <= z3.If(n > 0, n, 0)))
                    new.append(z3.Implies(term < n, z3.substitute(body, (d.k, term))))
                    witnesses.append(term)
            elif d.kind in ('sum', 'concat', 'comp'):
                zero = {'sum': lambda: z3.IntVal(0), 'concat': lambda: z3.StringVal(''),
                        'comp': lambda: z3.Empty(term.sort())}[d.kind]()
                if d.kind != 'comp':
                    new.append(z3.Implies(n <= 0, term == zero))
                else:
                    new.append(z3.Implies(n <= 0, term == zero))
        for term, d, n, body in exs:
            for w in witnesses:
                mark = (term.get_id(), w.get_id())
                if mark in done or len(done) > 600:
                    continue
                done.add(mark)
                at = z3.substitute(body, (d.k, w))
                if d.kind == 'exists':
                    new.append(z3.Implies(conj(w >= 0, w < n, at), term))
                else:
                    new.append(z3.Implies(conj(w >= 0, w < term), neg(at)))
        for axiom in AXIOMS:
            new.extend(axiom(frontier, done))
        if not new:
            break
        formulas.extend(new)
        frontier = new
        if limit is not None and size(z3.And(*formulas), limit) >= limit:
            break
    return formulas


def is_successor(t):
    return z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ADD and any(z3.is_int_value(c) and c.as_long() > 0 for c in t.children())


def facts(formulas):
    """Instances of the axioms only"""
    done = set()
    new = []
    frontier = list(formulas)
    for _ in range(2):
        frontier = [fact for axiom in AXIOMS for fact in axiom(frontier, done)]
        if not frontier:
            break
        new.extend(frontier)
    return new


def check(formulas, timeout=None):
    # in a context of its own: answers depend on nothing asked or built before
    apart = z3.Context()
    solver = z3.Solver(ctx=apart)
    # the same answers on a slower machine: steps are counted rather than time
    solver.set('rlimit', STEPS * (timeout or TIMEOUT))
    solver.set('timeout', 6 * (timeout or TIMEOUT))
    started = time.time()
    solver.add(*[formula.translate(apart) for formula in formulas])
    answer = solver.check()
    if answer == z3.unsat:
        other = opinion(solver)
        STATS[{'unsat': 'confirmed', 'sat': 'disputed'}.get(other, 'alone')] += 1
        if other == 'sat':
            answer = z3.unknown
    STATS['queries'] += 1
    STATS['seconds'] += time.time() - started
    if answer == z3.unknown:
        STATS['unknown'] += 1
    return answer, solver


def prove(assumptions, goal, witnesses=(), timeout=None, lemmas=None, limit=None):
    """Result of: assumptions entail goal"""
    goal = simplify(goal)
    if z3.is_true(goal):
        return Result('proved')
    assumptions = [a for a in assumptions if not z3.is_true(a)]
    if limit is None:
        if z3.is_eq(goal) and Congruence([], 10).same(goal.arg(0), goal.arg(1)):
            return Result('proved')
        if check([plain(f) for f in [*assumptions, z3.Not(goal)]], 5000)[0] == z3.unsat:
            return Result('proved')
    given = [*assumptions, z3.Not(goal)]
    extra = []
    if lemmas is not None and any(True for _ in instances([goal], {})):
        # defined symbols as they are, then with what is known of their pairs
        if check([*given, *facts(given)], 1000)[0] == z3.unsat:
            return Result('proved')
        extra = lemmas([goal], assumptions)
        if extra:
            given = [*given, *extra]
            if check([*given, *facts(given)], 3000)[0] == z3.unsat:
                return Result('proved')
    formulas = close(given, witnesses, limit)
    answer, solver = check(formulas, timeout if lemmas is None else min(timeout or TIMEOUT, 2000))
    if answer == z3.unsat:
        return Result('proved')
    if lemmas is not None:
        more = lemmas(formulas, assumptions)
        if more:
            formulas = close([*formulas, *more], witnesses)
        if more or answer == z3.unknown:
            answer, solver = check(formulas, timeout)
            if answer == z3.unsat:
                return Result('proved')
    if answer == z3.unknown:
        return Result('unknown', solver.reason_unknown())
    return Result('refuted', 'counter-model', solver.model().translate(z3.main_ctx()), exact=True)


def conjuncts(formulas):
    for formula in formulas:
        if z3.is_and(formula):
            yield from conjuncts(formula.children())
        else:
            yield formula


def quick(assumptions, goal, timeout=1000):
    """The same, with the assumptions that are small and about the same things only"""
    goal = simplify(goal)
    if z3.is_true(goal):
        return Result('proved')
    if z3.is_false(goal):
        return Result('unknown')
    about = const_ids(goal)
    known = [a for a in conjuncts(assumptions) if not z3.is_true(a) and about & const_ids(a) and size(a, 200) < 200]
    if check([*known, z3.Not(goal)], 300)[0] == z3.unsat:
        return Result('proved')
    if any(True for _ in instances([goal], {})) and size(z3.And(goal, *known), 1000) >= 1000:
        return Result('unknown')
    return prove(known, goal, timeout=timeout, limit=1500)


def possible(assumptions):
    """False only if the assumptions are contradictory for sure"""
    assumptions = [simplify(a) for a in assumptions]
    if any(z3.is_false(a) for a in assumptions):
        return False
    answer, _ = check([plain(a) for a in assumptions if not z3.is_true(a)], 300)
    return answer != z3.unsat
