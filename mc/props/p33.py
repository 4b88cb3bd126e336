'''
P33: every history of rounds (good, failed, given up), waits, client absences and
changes of the continue setting, noise, delay and start time on a real tally server.
A reference decides from what happened whether each tick has to start a round.
'''
import logging
import re

import env
import fixtures as F
from env import REACTOR, CLOCK
from explore import plain, search, replay_path
from server import Server

CONTINUES = (False, True, 0, 1, 2, 3)


class LastStatus(logging.Handler):
    'the line every node logs about the rounds'
    line = None

    def emit(self, record):
        m = record.getMessage()
        if 'Rounds: completed' in m:
            LastStatus.line = m


def limit(setting):
    'False: one round. A number: that many. True: no limit.'
    return None if setting is True else 1 if setting is False else setting


def remaining(setting, completed, active):
    n = limit(setting)
    return None if n is None else max(n - completed - (1 if active else 0), 0)


class Rounds(Server):
    dcs, sks = ('dc0',), 1
    config = {'continue': 2}
    begin = ()
    begun = False

    def __init__(self):
        Server.__init__(self)
        self.away = set()
        self.ref = None         # what the series of good rounds began with, and when the last one ended
        self.last_end = None
        self.started = 0
        self.last = None
        self.good = None
        for op in self.begin:
            self.apply(list(op))
        self.begun = True

    def ops(self):
        o = [['continue', c] for c in CONTINUES if c is not self.conf['continue']]
        if self.ts.get_status()['state'] == 'active':
            o += [['finish', h] for h in ('good', 'no-counts', 'never-started', 'dc-only', 'later')]
        o += [['noise', n] for n in sorted(self.noise) if n != self.conf['noise_name']]
        o += [['tick', 10], ['tick', 305], ['away', 'dc0'], ['away', 'sk0']]
        o += [['delay', d] for d in (0, 300) if d != self.conf['delay_period']]
        o += [['after', 100], ['always'], ['bad-config']]
        return o

    def beat(self, seconds=1.0):
        REACTOR.jump(seconds)
        for n in self.names:
            if n not in self.away:
                self.visit(n, counts=self.good is not False)
        REACTOR.jump(0.5)
        self.refresh()

    def apply(self, op):
        REACTOR.jump(0.01)
        k = op[0]
        self.last = op[:2] if k == 'finish' else k
        if k == 'continue':
            self.rewrite(**{'continue': op[1]})
            self.beat()
        elif k == 'noise':
            self.rewrite(noise_name=op[1])
            self.beat()
        elif k == 'delay':
            self.rewrite(delay_period=op[1])
            self.beat()
        elif k == 'always':
            self.rewrite(always_delay=not self.conf.get('always_delay', False))
            self.beat()
        elif k == 'after':
            # whole seconds, so that both sides mean the same time
            self.rewrite(after=int(CLOCK.now) + op[1])
            self.beat()
        elif k == 'bad-config':
            # a refused edit leaves the settings in force as they were
            good = dict(self.conf)
            self.rewrite(**{'continue': -1, 'delay_period': 0})
            self.conf = good
            self.beat()
            self.rewrite()
        elif k == 'tick':
            self.beat(op[1])
        elif k == 'away':
            self.away ^= set([op[1]])
            self.beat(80)
        elif k == 'finish':
            self.finish_round(op[1])
        if self.final or not self.begun:
            self.judge_reports()

    def finish_round(self, how):
        self.good = how in ('good', 'later')
        was = self.completed
        REACTOR.jump(1.0)
        if how == 'never-started':
            # the clients restarted
            self.truth = dict((n, 'idle') for n in self.truth)
        else:
            for i in range(2):
                for n in self.names:
                    self.visit(n, counts=self.good)
        REACTOR.jump(55.0)
        for n in self.names:
            self.report(n)
        self.refresh()              # the round expires
        for i in range(2):
            if self.completed == was:
                REACTOR.jump(1.0)
                for n in self.names:
                    self.visit(n, counts=self.good or how == 'dc-only' and n == 'dc0')
                if how == 'later' and i == 0:
                    REACTOR.jump(20.0)
                    for n in self.names:
                        self.report(n)
                REACTOR.jump(0.5)
                self.refresh()
        if self.completed != was + 1:
            self.fail('not-ended', 'the round did not end although every client answered')
        self.good = None

    def on_start(self, name, conf):
        if self.round is None:
            self.fail('no-round', '%s was started outside a round' % name)

    def returned(self, name, counts):
        if self.round is not None and name in self.round['who']:
            self.round['returned'].setdefault(name, counts)

    def ended(self, now):
        noise = self.round['noise']
        if all(self.round['returned'].get(n) for n in self.round['who']):
            self.last_end = now
            if self.ref is None or self.conf.get('always_delay', False) or self.changed(noise):
                self.ref = noise

    def changed(self, noise):
        'a lower sigma; the ten per cent tolerance never applies here'
        a, b = self.noise[self.ref], self.noise[noise]
        return sorted(a) != sorted(b) or any(b[k]['sigma'] < a[k]['sigma'] for k in a)

    def earliest(self):
        t = self.conf.get('after') or 0
        if self.last_end is not None:
            delay = 0
            if self.conf.get('always_delay', False) or self.changed(self.conf['noise_name']):
                delay = self.conf['delay_period'] + max([1.0] + [h['rtt'] + 1.0 for h in self.heard.values()])
            t = max(t, self.last_end + delay)
        return t

    def judge_start(self, now, started):
        n = limit(self.conf['continue'])
        more = n is None or self.completed < n
        ready = self.enough()
        due = now >= self.earliest()
        if started and not more:
            self.fail('too-many', 'round %d started, continue is %r and %d completed' % (self.completed + 1, self.conf['continue'], self.completed))
        elif started and not due:
            self.fail('too-early', 'a round started %.2f s before it may' % (self.earliest() - now))
        elif started and not ready:
            self.fail('not-enough', 'a round started without enough clients')
        elif not started and more and ready and due:
            self.fail('not-started', 'no round started: continue is %r, %d completed, the clients are idle and no delay applies' % (self.conf['continue'], self.completed))
        if started:
            self.started += 1
            self.round = {'noise': self.conf['noise_name'], 'who': self.known('dc', 'idle') + self.known('sk', 'idle'), 'returned': {}}

    def judge_reports(self):
        from privcount import node
        s = self.ts.get_status()
        if s['completed_phases'] != self.completed:
            self.fail('completed', 'the status says %r rounds completed, it were %d' % (s['completed_phases'], self.completed))
        if s['continue'] is not self.conf['continue'] and s['continue'] != self.conf['continue']:
            self.fail('continue', 'the status says continue is %r, configured is %r' % (s['continue'], self.conf['continue']))
        if (s['state'] == 'active') != (self.round is not None):
            self.fail('state', 'the status says %r' % s['state'])
        args = (s['completed_phases'], s['continue'], s['state'])
        left = remaining(self.conf['continue'], self.completed, self.round is not None)
        if node.get_total_rounds(s['continue']) != limit(self.conf['continue']):
            self.fail('total', 'get_total_rounds is %r for %r' % (node.get_total_rounds(s['continue']), s['continue']))
        if node.get_remaining_rounds(*args) != left:
            self.fail('remaining', 'get_remaining_rounds%r is %r, %r rounds will run' % (args, node.get_remaining_rounds(*args), left))
        if bool(node.continue_collecting(*args)) != (left is None or left > 0):
            self.fail('continues', 'continue_collecting%r is %r, %r rounds will run' % (args, node.continue_collecting(*args), left))
        if abs(s['delay_until'] - self.earliest()) > 0.001:
            self.fail('delay', 'the status says the next round is delayed until %r, it is %r' % (s['delay_until'], self.earliest()))
        self.judge_log(s, left)

    def judge_log(self, status, left):
        'what an operator reads, where it still has the form we know'
        from privcount import node
        LastStatus.line = None
        logging.disable(logging.NOTSET)
        node.log_tally_server_status(status)
        logging.disable(logging.CRITICAL)
        line = LastStatus.line or ''
        m = re.search(r'completed (\d+)(?:/(\d+))?', line)
        if m:
            total = limit(self.conf['continue'])
            if int(m.group(1)) != self.completed or (m.group(2) is None) != (total is None) or total is not None and int(m.group(2)) != total:
                self.fail('log-total', 'the log says %r, %d of %r rounds completed' % (line, self.completed, total))
        m = re.search(r'collecting for (\d+) more|(indefinitely)|(stop collecting)', line)
        if m:
            said = int(m.group(1)) if m.group(1) else None if m.group(2) else 0
            if said != left:
                self.fail('log-remaining', 'the log says %r, %r rounds will run' % (line, left))

    def canon(self):
        ago = None if self.last_end is None else min(CLOCK.now - self.last_end, 400)
        after = self.conf.get('after')
        conf = sorted((k, repr(v)) for k, v in self.conf.items() if k != 'after')
        return (self.ages(), sorted(self.truth.items()), conf, after and max(after - CLOCK.now, -1), sorted(self.away), self.ref, ago,
                min(self.completed, 4), self.round and (self.round['noise'], sorted(self.round['returned'].items())), self.hidden())

    def outcome(self):
        return (self.last, self.completed, self.started, self.round is not None)


G = (('tick', 10), ('finish', 'good'))
WORLDS = {
    'two': {'config': {'continue': 2}},
    'one-good': {'config': {'continue': False}, 'begin': (('tick', 10), ('finish', 'good'))},
    'ever': {'config': {'continue': True}, 'begin': (('tick', 10), ('finish', 'good'), ('tick', 10), ('finish', 'good'), ('noise', 'other'))},
    'zero': {'config': {'continue': 0}},
    'waiting': {'config': {'continue': 3}, 'begin': (('tick', 10), ('noise', 'other'), ('finish', 'good'))},
}


def world(name):
    class W(Rounds):
        pass
    for k, v in WORLDS[name].items():
        setattr(W, k, v)
    return W


def formulas(ctx, case=None):
    'the reported numbers for every setting, number of completed rounds and state'
    from privcount import node
    for c in (False, True) + tuple(range(0, 8)) + (100, 10 ** 12, 3L, 0L):
        for done in range(0, 10) + [99, 100, 101, 10 ** 12]:
            for state in ('idle', 'active'):
                k = {'formula': [c, done, state]}
                if case is not None and k != case or case is None and not ctx.mine():
                    continue
                left = remaining(c, done, state == 'active')
                ctx.evaluation()
                if node.get_total_rounds(c) != limit(c):
                    ctx.violation('total', 'get_total_rounds(%r) is %r' % (c, node.get_total_rounds(c)), k)
                if node.get_remaining_rounds(done, c, state) != left:
                    ctx.violation('remaining', 'get_remaining_rounds(%r, %r, %r) is %r, not %r' % (done, c, state, node.get_remaining_rounds(done, c, state), left), k)
                if bool(node.continue_collecting(done, c, state)) != (left is None or left > 0):
                    ctx.violation('continues', 'continue_collecting(%r, %r, %r) is wrong' % (done, c, state), k)


def run(ctx):
    log_status()
    formulas(ctx)
    for name in sorted(WORLDS):
        search(ctx, world(name), 5 if ctx.thorough else 3, name, {'world': name}, max_states=60000)


def log_status():
    root = logging.getLogger()
    root.setLevel(logging.INFO)
    root.handlers = [LastStatus()]


def replay(ctx, case):
    log_status()
    if 'formula' in case:
        return formulas(ctx, plain(case))
    replay_path(ctx, world(case['world']), case)
