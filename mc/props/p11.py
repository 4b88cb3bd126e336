'''
P11: a real tally server, data collectors and share keepers, whose messages the
harness delivers one at a time. From every point of an undisturbed round, every
sequence of deviations (a message early or late, a lost connection, a crash, a
refusal, a duplicate, a long silence, an early or late end) is followed by fair
behaviour, and whatever is published is judged against the events that happened.
'''
import json

import env
import fixtures as F
import net
from env import ENTROPY, REACTOR, CLOCK, HarnessExit
from explore import World, search, replay_path, run_path

SIZES = {'2dc-1sk': (2, 1, {}), '1dc-2sk': (1, 2, {}), '2dc-1sk-any': (2, 1, {'dc_threshold': 1})}
PERIOD = 50


class System(World):
    dcs, sks, kw, start = 2, 1, {}, ()
    recovered = set()

    def __init__(self):
        World.__init__(self)
        self.quiet = False
        self.net = self.make()
        self.statuses = {}      # what the server last heard: {client: (state, when, round trip)}
        self.asked = {}
        self.commands = 0
        self.round = None
        self.rounds = 0
        self.sessions = {}      # {collector: what it is counting}
        self.last_reply = {}    # {client: the last START or STOP answer on this connection}
        self.published = 0
        self.ended = []
        self.session_count = 0
        self.noise = 0
        ENTROPY.gauss_hook = lambda mu, sigma: self.noise
        self.n = 0
        for op in self.start:
            self.apply(op)

    def make(self):
        n = net.Net(self.dcs, self.sks, cheap=True, **self.kw)
        n.sent, n.delivered = self.sent, self.delivered
        real_step = n.step
        def step(name):
            # noise drawn while a collector works is that collector's
            self.noise = self.sessions[name]['noise'] if name in self.sessions else 0
            return real_step(name)
        n.step = step
        return n

    # -- what happens on the wire ---------------------------------------
    def sent(self, name, line):
        kind = line.split(' ', 1)[0]
        if kind in ('START', 'STOP'):
            self.commands += 1
        if kind == 'STATUS':
            self.asked[name] = CLOCK.now
        elif kind == 'START':
            if self.round is None or name not in self.round['who']:
                self.fail('start-outsider', '%s got a START for a round it is no part of' % self.label(name))
            elif name in self.net.sks:
                conf = json.loads(line.split(' ', 1)[1])
                got = sorted(s['dc_name'] for s in conf['shares'])
                want = sorted(d for d in self.round['who'] if d in self.net.dcs)
                if got != want:
                    self.fail('wrong-shares', 'a keeper got shares of %r, the collectors of the round are %r' % (got, want))

    def delivered(self, name, side, line):
        kind, _, rest = line.partition(' ')
        if side == 's':
            if kind == 'STATUS':
                self.statuses[name] = (json.loads(rest.split(' ', 1)[1])['state'], CLOCK.now, CLOCK.now - self.asked[name])
            elif kind == 'STOP':
                self.heard_stop(name, rest)
            if kind in ('START', 'STOP'):
                self.last_reply[name] = line
        elif kind == 'START' and name in self.net.dcs:
            w = self.net.wires.get(name)
            if w is not None and w.to_s and w.to_s[0].startswith('START SUCCESS'):
                conf = json.loads(rest)
                self.session_count += 1
                self.sessions[name] = {'round': self.rounds, 'events': 0, 'begin': CLOCK.now + conf['defer_time'], 'noise': 100 * self.session_count}
        elif kind == 'STOP':
            w = self.net.wires.get(name)
            s = self.sessions.pop(name, None)
            if s is not None and self.round is not None:
                # a round's counts are those of the session that was stopped
                self.round['stopped'].setdefault(name, s)

    def heard_stop(self, name, rest):
        r = self.round
        if r is None or name not in r['who'] or name in r['got']:
            return
        word, _, payload = rest.partition(' ')
        if word != 'SUCCESS':
            return
        r['got'][name] = bool(json.loads(payload).get('Counts'))

    # -- operations ------------------------------------------------------
    def label(self, name):
        return name if name in self.net.dcs else 'sk%d' % self.net.sks.index(name)

    def ops(self):
        out = [['tick'], ['expire'], ['silence'], ['crash-server']]
        for i, name in enumerate(self.net.names):
            w = self.net.wires.get(name)
            if w is None or w.pending():
                out += [['step', i], ['visit', i]]
            out.append(['crash', i])
            if w is not None:
                out.append(['lose', i])
                p = w.pending()
                if p and p[0] == 'c' and p[1].split(' ')[0] in ('START', 'STOP'):
                    out.append(['refuse', i])
                if name in self.last_reply:
                    out.append(['duplicate', i])
            s = self.sessions.get(name)
            if s is not None and CLOCK.now > s['begin'] + 1:
                out.append(['event', i])
        return out

    def apply(self, op):
        self.n += 1
        name = self.net.names[op[1]] if len(op) > 1 else None
        try:
            self.perform(op[0], name)
        except HarnessExit:
            self.fail('died', 'a node stopped itself at %r' % (op,))
        if REACTOR.stopped:
            self.fail('died', 'a node stopped itself at %r' % (op,))
            REACTOR.stopped = False
        self.judge()

    def perform(self, kind, name):
        n = self.net
        if kind in ('tick', 'expire', 'silence'):
            before = n.ts.get_status()['state']
            n.tick({'tick': 10, 'expire': PERIOD, 'silence': 100}[kind])
            # clients that were silent for seven check-ins are forgotten
            for m, (_, when, rtt) in list(self.statuses.items()):
                if CLOCK.now - when > 7 * 10 + rtt + 1.0:
                    del self.statuses[m]
            heard = dict(self.statuses)
            after = n.ts.get_status()['state']
            if before == 'idle' and after == 'active':
                self.begin(heard)
            elif before == 'active' and after == 'idle':
                self.end()
        elif kind == 'step':
            n.step(name)
        elif kind == 'visit':
            n.visit(name)
        elif kind == 'lose':
            n.lose(name)
        elif kind == 'crash':
            n.crash(name)
            self.sessions.pop(name, None)
        elif kind == 'crash-server':
            n.crash_server()
            self.statuses = {}
            self.round = None
        elif kind == 'event':
            if n.clients[name].aggregator.handle_event(net.stream_event()):
                self.sessions[name]['events'] += 1
        elif kind == 'refuse':
            w = n.wires[name]
            line = w.to_c.pop(0)
            if line.startswith('START'):
                w.to_s.append('START FAIL')
            else:
                # stopped, but no counts to give
                w.to_c.insert(0, 'STOP {"send_counters": false}')
        elif kind == 'duplicate':
            w = n.wires[name]
            w.to_s.insert(0, self.last_reply[name])
            before = len(w.to_c)
            side, line = 's', w.to_s.pop(0)
            w.s.dataReceived(line + '\r\n')
            w.collect()
            for l in w.to_c[before:]:
                self.sent(name, l)
        for m in list(self.last_reply):
            if m not in n.wires:
                del self.last_reply[m]

    # -- rounds ----------------------------------------------------------
    def begin(self, heard):
        who = [m for m in self.net.names if m in heard and heard[m][0] == 'idle']
        self.rounds += 1
        self.round = {'who': who, 'got': {}, 'stopped': {}, 'begin': CLOCK.now}
        d = [m for m in who if m in self.net.dcs]
        k = [m for m in who if m in self.net.sks]
        if len(d) < self.net.kw['dc_threshold'] or len(k) < self.net.kw['sk_threshold']:
            self.fail('below-threshold', 'a round started with %d collectors and %d keepers' % (len(d), len(k)))

    def end(self):
        r, self.round = self.round, None
        self.ended.append(r)

    def judge(self):
        'whatever was published belongs to the round that ended in this operation'
        files = self.net.results()
        ended, self.ended = self.ended, []
        tallies = [c for f, c in sorted(files.items()) if 'tallies' in f]
        outcomes = [c for f, c in sorted(files.items()) if 'outcome' in f]
        if not ended:
            if files:
                self.fail('published-early', '%s appeared although no round ended' % sorted(files))
            return
        r = ended[0]
        if len(outcomes) != 1 or len(tallies) > 1:
            self.fail('wrong-files', 'a round ended with %s' % sorted(files))
        full = all(r['got'].get(m) for m in r['who'])
        lacking = [self.label(m) for m in r['who'] if not r['got'].get(m)]
        told = [o.get('Tally') for o in outcomes]
        if not full:
            if tallies or any(told):
                self.fail('published-partial', 'a tally was published although %s gave no counts' % ' '.join(lacking))
            return
        if not tallies or not all(told):
            self.fail('not-published', 'every participant returned its counts, but no tally was published')
            return
        sessions = [r['stopped'].get(m) for m in r['who'] if m in self.net.dcs]
        if not all(s is not None and s['round'] == self.rounds for s in sessions):
            self.fail('mixed-rounds', 'the tally has counts of %r in round %d' % (sessions, self.rounds))
            return
        noise = sum(s['noise'] for s in sessions)
        e = sum(s['events'] for s in sessions)
        want = {'ZeroCount': [noise], 'ExitStreamCount': [noise + e], 'ExitStreamByteHistogram': [noise + e, noise]}
        for t in tallies + told:
            got = dict((k, [b[2] for b in v['bins']]) for k, v in t.items())
            if got != want:
                self.fail('wrong-tally', 'published %r, the collectors of the round counted %r' % (got, want))
        self.published += 1

    # -- fair behaviour ever after ---------------------------------------
    def finish(self):
        before = self.published
        passed = []
        for i in range(24):
            # states from which a round was completed before
            k = repr(self.canon(True))
            if k in self.recovered:
                break
            passed.append(k)
            self.apply(['tick'])
            for j in range(len(self.net.names)):
                # a connection without anything in flight times out
                w = self.net.wires.get(self.net.names[j])
                if w is not None and not w.pending():
                    self.apply(['lose', j])
                self.apply(['visit', j])
            for j in range(self.dcs):
                if ['event', j] in self.ops() and i % 2 == j:
                    self.apply(['event', j])
            if self.published > before:
                break
        else:
            self.fail('never-again', 'no round was completed in 24 check-in periods of undisturbed running')
            return
        self.recovered.update(passed)

    def canon(self, ahead=False):
        ts = self.net.ts
        now = CLOCK.now
        p = ts.collection_phase
        phase = p and F.shallow(p, ('tally_server_config', 'counters_config', 'noise_config', 'sk_public_keys', 'client_config', 'client_status', 'tally_server_status', 'traffic_model_config'))
        r = self.round
        past = ('num_completed_collection_phases', 'idle_time') if ahead else ()
        return (F.shallow(ts, ('config', 'clients', 'collection_phase', 'collection_delay') + past), phase,
                r and (sorted(map(self.label, r['who'])), sorted((self.label(m), v) for m, v in r['got'].items()), round(now - r['begin'], 1), sorted(map(self.label, r['stopped']))),
                sorted((self.label(m), s, round(now - t, 1)) for m, (s, t, _) in self.statuses.items()),
                sorted((m, s['round'] - self.rounds, min(s['events'], 2), s['begin'] - now > 0) for m, s in self.sessions.items()),
                [(self.label(m), w.pending() and (w.pending()[0], w.pending()[1].split(' ')[0]), len(w.to_c), len(w.to_s), m in self.last_reply) for m, w in sorted(self.net.wires.items())],
                [self.net.clients[m].get_status()['state'] for m in self.net.names],
                () if ahead else (self.net.ts.get_status()['completed_phases'], min(self.published, 1)))

    def outcome(self):
        r = self.round
        return (self.published, self.rounds, r and len(r['got']), r and len(r['stopped']))


def honest(size):
    'the operations of one undisturbed round, line by line'
    dcs, sks, kw = SIZES[size]
    class W(System):
        pass
    W.dcs, W.sks, W.kw = dcs, sks, kw
    w = W()
    done = []

    def do(op):
        done.append(op)
        w.apply(op)
    t = 0
    while not w.published:
        t += 1
        if t > 20:
            raise AssertionError('no round is published without any deviation')
        do(['tick'])
        for j in range(dcs):
            if ['event', j] in w.ops():
                do(['event', j])
        for j in range(dcs + sks):
            # line by line, unless nothing is asked of the client
            n, c = len(done), w.commands
            do(['step', j])
            while w.net.names[j] in w.net.wires:
                do(['step', j])
            if w.commands == c and t != 1:
                done[n:] = [['visit', j]]
    if w.failures:
        raise AssertionError(w.failures)
    return done


def maker(size, start):
    class W(System):
        pass
    W.dcs, W.sks, W.kw = SIZES[size]
    W.start = start
    W.recovered = System.recovered
    return W


def run(ctx):
    F.remember_counter_names()
    net.remember_keys()
    for size in sorted(SIZES):
        if size == '2dc-1sk' and not ctx.thorough:
            continue
        path = honest(size)
        if ctx.part == 0:
            ctx.count('points_' + size, len(path))
        seen = set()
        System.recovered.clear()
        # neighbouring points share many states; later ones cost more
        for i in range(len(path)):
            if i // 3 % ctx.nparts == ctx.part:
                deviate(ctx, size, path[:i], 2 if ctx.thorough else 1, seen)


def deviate(ctx, size, start, depth, seen):
    'every sequence of deviations of this length, each followed by fair behaviour'
    make = maker(size, start)
    frontier = [[]]
    for d in range(depth + 1):
        following = []
        for path in frontier:
            w = run_path(make, path)
            ctx.transition()
            h = repr(w.canon())
            ctx.state((size, h))
            ops = w.ops() if d < depth and (not path or h not in seen) else []
            if h not in seen:
                seen.add(h)
                w.finish()
            ctx.trace()
            ctx.evaluation()
            ctx.outcome((size,) + w.outcome()[:2])
            for key, message in w.failures:
                ctx.violation(key, '%s: %s after %r then %r' % (size, message, start[-6:], path), {'size': size, 'start': start, 'path': path})
            following += [path + [op] for op in ops]
        frontier = following


def replay(ctx, case):
    F.remember_counter_names()
    net.remember_keys()
    w = run_path(maker(case['size'], [list(o) for o in case['start']]), case['path'])
    w.finish()
    for key, message in w.failures:
        ctx.violation(key, '%s after %r' % (message, case['path']), case)
