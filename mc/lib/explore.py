'''
Exhaustive exploration helpers.

choices(body): stateless search over every sequence of answers body asks for
with ch(n) (0..n-1), by re-execution with growing prefixes.

Search: breadth-first search over a world's operation sequences, by re-executing
the sequence on fresh real objects, with states merged on a canonical form.
'''
import hashlib
import json
import os

from java.lang import Thread

import env


class StopExploring(Exception):
    'enough violations, or another worker stopped'


def hash_of(canon):
    return hashlib.md5(repr(canon)).hexdigest()[:16]


class Diverged(Exception):
    'the same prefix of choices led somewhere else: some nondeterminism is not owned'


class Prune(Exception):
    'this branch is outside the bound'


class Chooser(object):
    def __init__(self, prefix):
        self.prefix = prefix
        self.taken = []
        self.arity = []

    def __call__(self, n):
        i = len(self.taken)
        c = self.prefix[i] if i < len(self.prefix) else 0
        if c >= n:
            raise Diverged('choice %d of %d at point %d' % (c, n, i))
        self.taken.append(c)
        self.arity.append(n)
        return c


def choices(body, first=()):
    '''
    Call body(ch) for every sequence of choices; yields (taken, result).
    first: a fixed prefix (to partition the tree).
    '''
    prefix = list(first)
    fixed = len(prefix)
    while True:
        ch = Chooser(prefix)
        try:
            result = body(ch)
            yield ch.taken, result
        except Prune:
            pass
        # next prefix in depth-first order
        i = len(ch.taken) - 1
        while i >= fixed and ch.taken[i] + 1 >= ch.arity[i]:
            i -= 1
        if i < fixed:
            return
        prefix = ch.taken[:i] + [ch.taken[i] + 1]


class World(object):
    '''
    A closed system around the real code.
      __init__()         fresh real objects
      ops()              the operations enabled now (JSON-able, in canonical order)
      apply(op)          perform one; may call self.fail(key, message)
      canon()            canonical form of the state
      outcome()          short observable summary (vacuity check)
    '''
    final = False

    def __init__(self):
        self.failures = []

    def fail(self, key, message):
        self.failures.append((key, message))

    def outcome(self):
        return None

    def finish(self):
        'called at the end of each maximal path'

    def found(self):
        'called on a state that was not known (the world is not used after that)'


def run_path(make, path):
    w = make()
    last = len(path) - 1
    for i, op in enumerate(path):
        # the prefix was judged when it was explored: worlds may skip costly oracles there
        w.final = i == last
        w.apply(op)
    return w


def plain(x):
    'what was JSON, with byte strings'
    if isinstance(x, unicode):
        return x.encode('utf-8')
    if isinstance(x, list):
        return [plain(y) for y in x]
    if isinstance(x, dict):
        return dict((plain(k), plain(v)) for k, v in x.items())
    return x


class Levels(object):
    '''
    Level-synchronous exchange of newly found states between the workers of one
    check, through files in the check's scratch directory.
    '''
    used = {}

    def __init__(self, ctx, label):
        self.ctx = ctx
        n = Levels.used[label] = Levels.used.get(label, 0) + 1
        self.base = os.path.join(os.environ.get('MC_SHARED', os.environ['MC_SCRATCH']), 'level-%s-%d' % (label, n))

    def exchange(self, level, found):
        'found: [[hash, path]]; returns everybody\'s, in an order all agree on'
        ctx = self.ctx
        if ctx.nparts == 1:
            return found
        name = lambda i: '%s-%d-%d' % (self.base, level, i)
        with open(name(ctx.part) + '.tmp', 'w') as f:
            json.dump(found, f)
        os.rename(name(ctx.part) + '.tmp', name(ctx.part))
        out = []
        for i in range(ctx.nparts):
            while not os.path.exists(name(i)):
                if os.path.exists(os.path.join(os.path.dirname(self.base), 'stopped%d' % i)) and not os.path.exists(name(i)):
                    ctx.note('exploration of %s stopped early: another worker stopped' % os.path.basename(self.base))
                    raise StopExploring()
                Thread.sleep(20)
            with open(name(i)) as f:
                out += plain(json.load(f))
        return out


def search(ctx, make, depth, label, case_extra=None, max_states=None, check_replay=True):
    '''
    Breadth-first over operation sequences up to depth. Every transition is
    executed on real objects rebuilt from scratch. The workers share each level:
    each expands every nparts-th state of the frontier, then all exchange what
    they found, so that a state is expanded once.
    '''
    levels = Levels(ctx, label)
    extra = case_extra or {}

    def report(w, path):
        for key, message in w.failures:
            case = dict(extra)
            case['path'] = path
            ctx.violation(key, '%s after %r' % (message, path), case)

    w = make()
    report(w, [])
    h = hash_of((label, w.canon()))
    ctx.state_set.add(h)
    seen = set([h])
    frontier = [[]]
    sampled = 0
    for d in range(depth):
        found = []
        mine = set()
        for n, path in enumerate(frontier):
            if n % ctx.nparts != ctx.part:
                continue
            w0 = run_path(make, path)
            ops = w0.ops()
            if not ops:
                w0.finish()
                report(w0, path)
                ctx.trace()
            for op in ops:
                p = path + [op]
                w = run_path(make, p)
                ctx.transition()
                canon = w.canon()
                if check_replay and ctx.counts.get('transitions', 0) % 97 == 1:
                    w2 = run_path(make, p)
                    ctx.count('replays_checked')
                    if w2.canon() != canon:
                        raise Diverged('%r: %r != %r' % (p, w2.canon(), canon))
                    # the clock and the reactor are those of the last world made
                    w = w2
                report(w, p)
                ctx.outcome(w.outcome())
                h = hash_of((label, canon))
                ctx.state_set.add(h)
                if h in seen or h in mine:
                    continue
                mine.add(h)
                found.append([h, p])
                before = len(w.failures)
                w.found()
                if len(w.failures) > before:
                    del w.failures[:before]
                    report(w, p)
                if d + 1 == depth:
                    w.finish()
                    report(w, p)
                    ctx.trace()
                    if sampled < 2:
                        sampled += 1
                        ctx.sample({'world': label, 'path': p, 'outcome': str(w.outcome())})
        frontier = []
        for h, p in levels.exchange(d, found):
            if h not in seen:
                seen.add(h)
                frontier.append(p)
        if ctx.part == 0:
            ctx.counts['depth_completed_' + label] = d + 1
        if not frontier:
            if ctx.part == 0:
                ctx.counts['closed_' + label] = 1
            break
        if max_states is not None and len(seen) > max_states and d + 1 < depth:
            ctx.note('%s: stopped at %d states after depth %d (of %d)' % (label, len(seen), d + 1, depth))
            ctx.counts['capped'] = 1
            break


def replay_path(ctx, make, case):
    case = plain(case)
    w = run_path(make, case['path'])
    w.found()
    w.finish()
    for key, message in w.failures:
        ctx.violation(key, '%s after %r' % (message, case['path']), case)
