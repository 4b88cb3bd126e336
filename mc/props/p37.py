'''
P37: small recorded logs through the real injector to a modelled client: every
log over event types, gaps and windows; every history of client commands.
'''
import itertools
import os

import env
import fixtures as F
from env import ENTROPY, REACTOR, CLOCK, HarnessExit, Transport, EXITS
from explore import World, search, replay_path, hash_of

# {name: (line with %(start)s and %(end)s, where the times are in the words)}
POSITIONAL = {
    'bytes': ('PRIVCOUNT_STREAM_BYTES_TRANSFERRED 2 2352530074 3565 1 3486 %(end)s', None, 6),
    'stream': ('PRIVCOUNT_STREAM_ENDED 2 2352530074 3565 4747 0 10240 %(start)s %(end)s localhost 127.0.0.1 1', 7, 8),
    'circuit': ('PRIVCOUNT_CIRCUIT_ENDED 10 3455103661 3 2 0 0 %(start)s %(end)s 127.0.0.1 1 127.0.0.1 0', 7, 8),
    'connection': ('PRIVCOUNT_CONNECTION_ENDED 3 %(start)s %(end)s 127.0.0.1 1', 2, 3),
}
TAGGED = {
    'cell': 'PRIVCOUNT_CIRCUIT_CELL EventTimestamp=%(end)s IsSentFlag=0 IsOutboundFlag=0 PreviousChannelId=8 CellCommandString=create2',
    'close': 'PRIVCOUNT_CIRCUIT_CLOSE CreatedTimestamp=%(start)s EventTimestamp=%(end)s PreviousChannelId=10 NextNodeRelayFlagList=Exit,Fast NextNodeIPAddress=::1 StateString=open ExitStreamCount=20',
    'conn': 'PRIVCOUNT_CONNECTION_CLOSE EventTimestamp=%(end)s CreatedTimestamp=%(start)s ChannelId=1 RemoteIPAddress=127.0.0.1 InboundByteCount=12345 RemoteCountryCode=US',
    'store': 'PRIVCOUNT_HSDIR_CACHE_STORE HiddenServiceVersionNumber=2 EventTimestamp=%(end)s IntroPointHistogram=3',
    'fetch': 'PRIVCOUNT_HSDIR_CACHE_FETCH HiddenServiceVersionNumber=3 EventTimestamp=%(end)s CacheCreatedTime=1499999000 BlindedEd25519PublicKeyBase64String=KTq6d/D35vVSS7V1dNNc6OEM3DmH8kuzRBGeukUnqVs',
    'packets': 'PRIVCOUNT_VITERBI_PACKETS EventTimestamp=%(end)s ViterbiPathPackets=[["m10s1";"+";35432];["m2s4";"-";0]]',
    'streams': 'PRIVCOUNT_VITERBI_STREAMS ViterbiPathStreams=[] EventTimestamp=%(end)s',
}
KINDS = sorted(POSITIONAL) + sorted(TAGGED)
STARTS = ('stream', 'circuit', 'connection', 'close', 'conn')
BASE = 1400000000.123457


def line_of(kind, start, end):
    t = {'start': '%.6f' % start, 'end': '%.6f' % end}
    return (POSITIONAL[kind][0] if kind in POSITIONAL else TAGGED[kind]) % t


def read(line):
    'a recorded or sent event: (code, start or None, end, everything else)'
    words = line.split(' ')
    for kind in POSITIONAL:
        fmt, s, e = POSITIONAL[kind]
        if words[0] == fmt.split(' ')[0] and len(words) == len(fmt.split(' ')):
            rest = [w for i, w in enumerate(words) if i not in (s, e)]
            return words[0], float(words[s]) if s else None, float(words[e]), rest
    d = [w.partition('=')[::2] for w in words[1:]]
    f = dict(d)
    if len(f) != len(d) or 'EventTimestamp' not in f:
        return words[0], None, None, words
    s = f.pop('CreatedTimestamp', None)
    return words[0], None if s is None else float(s), float(f.pop('EventTimestamp')), [words[0]] + sorted(f.items())


class Line(Transport):
    connected = property(lambda self: not self.closed)


class Injected(object):
    'an injector, and the client it sends to'
    def __init__(self, log, pause=False, before=0.0, after=float(2 ** 63), password=None, blank=False, stdin=False):
        F.reset()
        from privcount.inject import PrivCountDataInjector
        path = os.path.join(F.SCRATCH, 'events.log')
        with open(path, 'w') as f:
            f.write(log)
        self.f = PrivCountDataInjector(path, pause, before, after, None, None)
        self.port = REACTOR.listenTCP(20003, self.f)
        self.f.set_listeners([self.port])
        self.p = self.f.buildProtocol(None)
        self.t = Line()
        self.p.makeConnection(self.t)
        self.sent = []      # (when, line)
        self.replies = []
        self.t.on_write = self.got
        self.buffer = ''
        self.lost = False

    def got(self, data):
        self.buffer += data
        while '\r\n' in self.buffer:
            l, _, self.buffer = self.buffer.partition('\r\n')
            if l.startswith('650 '):
                self.sent.append((CLOCK.now, l[4:]))
            else:
                self.replies.append(l)

    def say(self, line):
        if not self.t.closed:
            self.p.dataReceived(line + '\r\n')

    def drop(self):
        from twisted.internet import error
        from twisted.python import failure
        self.t.closed = True
        self.lost = True
        self.p.connectionLost(failure.Failure(error.ConnectionDone()))

    def subscribe(self):
        self.say('AUTHENTICATE')
        self.say('SETEVENTS PRIVCOUNT_STREAM_ENDED PRIVCOUNT_CIRCUIT_CELL')

    def settle(self, most=400):
        'until there is nothing left to wait for'
        for i in range(most):
            if REACTOR.next_timer() is None or REACTOR.stopped:
                return
            REACTOR.fire_next()


def compare(line, when, sent):
    'how an event was sent wrongly, if it was'
    code, s, e, rest = read(line)
    try:
        code2, s2, e2, rest2 = read(sent)
    except ValueError:
        return 'was sent as %r' % sent
    if code2 != code or rest2 != rest or (s is None) != (s2 is None) or e2 is None:
        return 'was sent as %r' % sent
    if abs(e2 - when) > 2e-6:
        return 'was sent with the time %r at %r' % (e2, when)
    if s is not None and abs((e2 - s2) - (e - s)) > 3e-6:
        return 'lasted %.6f s, and was sent as lasting %.6f s' % (e - s, e2 - s2)
    return None


def judge(events, r, pause, before, after, begun, fail, complete=True):
    '''
    events: the lines of the log that hold events. What was sent must be the
    first of those in the window, in order; all of them if complete.
    '''
    want = [(i, l) for i, l in enumerate(events) if before <= read(l)[2] <= after]
    if complete and len(r.sent) != len(want) or len(r.sent) > len(want):
        fail('events', '%d of the %d events in the window were sent: %r' % (len(r.sent), len(want), [l for _, l in r.sent][-1:]))
        return
    for n, ((i, l), (when, sent)) in enumerate(zip(want, r.sent)):
        w = compare(l, when, sent)
        if w:
            fail('event', 'event %d, %r, %s' % (n + 1, l, w))
            return
        if n == 0:
            # nothing to wait for, except events that are left out
            limit = 0.0
            if pause and i > 0:
                ends = [read(x)[2] for x in events[:i + 1]]
                limit = max(ends) - min(ends)
            if when - begun > limit + 0.001:
                fail('begin', 'the first event was sent %.3f s after the subscription' % (when - begun))
                return
            continue
        j = want[n - 1][0]
        gap = when - r.sent[n - 1][0]
        ends = [read(x)[2] for x in events[j:i + 1]]
        if gap < 0:
            fail('order', 'an event was sent before the one before it')
            return
        if not pause:
            if gap > 0.001:
                fail('gap', 'an event was sent %.3f s after the one before it, without pauses' % gap)
                return
        elif ends == sorted(ends) or len(ends) == 2:
            asked = max(0.0, ends[-1] - ends[0])
            if abs(gap - asked) > 1e-5:
                fail('gap', 'an event was sent %.6f s after the one before it, and recorded %.6f s after it' % (gap, asked))
                return


# ---- logs --------------------------------------------------------------
def once(ctx, spec):
    'spec: {lines: [[kind, gap, life]], pause, before, after (in seconds after the first), extra}'
    ctx.transition()
    ctx.trace()
    ctx.evaluation()
    ctx.state(spec)
    now, events = BASE, []
    for kind, gap, life in spec['lines']:
        now += gap
        events.append(line_of(kind, now - life, now))
    end = spec.get('end', '\n')
    blanks = spec.get('blanks', [])
    text = ''
    for i, l in enumerate(events):
        if i in blanks:
            text += '\n'
        text += l + ('\n' if i + 1 < len(events) else end)
    if len(events) in blanks:
        text += '\n'
    before = 0.0 if spec.get('before') is None else BASE + spec['before']
    after = float(2 ** 63) if spec.get('after') is None else BASE + spec['after']
    r = Injected(text, spec['pause'], before, after)
    fail = lambda key, msg: ctx.violation(key, msg, {'kind': 'log', 'spec': spec})
    try:
        if r.sent:
            fail('early', 'events were sent before the client asked for any')
        r.subscribe()
        begun = CLOCK.now
        r.settle()
    except HarnessExit:
        fail('exit', 'the injector stopped with an error')
        return
    except Exception as e:
        fail('exception', 'the injector raised %s: %s' % (type(e).__name__, e))
        return
    judge(events, r, spec['pause'], before, after, begun, fail)
    ctx.outcome((len(r.sent), [round(w - begun, 3) for w, _ in r.sent], r.t.closed))
    if [x for x in EXITS if x]:
        fail('exit', 'the injector failed')
    elif not r.t.closed or not REACTOR.stopped:
        fail('close', 'the injector did not close the connection and stop after the last event')


GAPS = [0.0, 0.25, 70.0, -3.0]
LIVES = [0.0, 0.000001, 12.345678, 90000.5]


def logs(ctx):
    n = 0

    def take(spec):
        take.n += 1
        if ctx.mine(take.n):
            once(ctx, spec)
    take.n = 0
    # every kind alone, with every life
    for kind in KINDS:
        for life in LIVES if kind in STARTS else [0.0]:
            for pause in (False, True):
                for end in ('\n', '', '\r\n'):
                    take({'lines': [[kind, 0.0, life]], 'pause': pause, 'end': end})
    # every pair of kinds, with every gap
    for a, b in itertools.product(KINDS, repeat=2):
        for gap in GAPS:
            for pause in (False, True):
                take({'lines': [[a, 0.0, 1.5], [b, gap, 0.75]], 'pause': pause})
    # gaps, windows
    few = ['stream', 'cell', 'conn'] if not ctx.thorough else ['bytes', 'stream', 'cell', 'conn', 'packets']
    length = 4
    windows = [(None, None), (0.0, None), (None, 0.0), (0.1, 100.0), (-5.0, 0.3), (1000.0, None), (0.25, 0.25)]
    for kinds in itertools.product(few[:2], repeat=length - 1):
        for gaps in itertools.product(GAPS, repeat=length - 2):
            for before, after in windows:
                for pause in (False, True):
                    take({'lines': [[k, g, 2.0] for k, g in zip(kinds, (0.0,) + gaps)], 'pause': pause, 'before': before, 'after': after})
    for gaps in itertools.product(GAPS, repeat=length - 1 if not ctx.thorough else length):
        for before, after in windows:
            for pause in (False, True):
                take({'lines': [[few[i % len(few)], g, 3.5] for i, g in enumerate((0.0,) + gaps)], 'pause': pause, 'before': before, 'after': after})
    # blank lines
    for count in range(4):
        for blanks in itertools.chain.from_iterable(itertools.combinations(range(count + 1), k) for k in range(count + 2)):
            for pause in (False, True):
                for end in ('\n', ''):
                    take({'lines': [[few[i % len(few)], 0.5 if i else 0.0, 0.25] for i in range(count)], 'pause': pause, 'blanks': list(blanks), 'end': end})
    # longer than a buffer
    for pause in (False, True):
        for size in (30, 120):
            take({'lines': [[KINDS[i % len(KINDS)], 0.125 if i else 0.0, 1.0] for i in range(size)], 'pause': pause})


# ---- client histories --------------------------------------------------
class Client(World):
    pause = False
    count = 3

    def __init__(self):
        World.__init__(self)
        self.events = [line_of(['stream', 'cell', 'conn', 'bytes'][i % 4], BASE + i * 2.5 - 1.25, BASE + i * 2.5) for i in range(self.count)]
        self.r = Injected('\n'.join(self.events) + '\n', self.pause)
        self.authenticated = False
        self.subscribed = None      # when the first subscription was
        self.stopped = None
        self.ended = False
        self.at_stop = None

    def ops(self):
        if self.r.t.closed and (REACTOR.next_timer() is None or REACTOR.stopped):
            return []
        out = []
        if not self.r.t.closed:
            out += ['auth', 'all', 'one', 'none', 'unknown', 'quit', 'info', 'drop']
        if REACTOR.next_timer() is not None and not REACTOR.stopped:
            out += ['tick', 'later']
        return out

    def apply(self, op):
        REACTOR.jump(0.01)
        r = self.r
        before = len(r.sent)
        replies = len(r.replies)
        try:
            if op == 'auth':
                if not self.authenticated:
                    r.say('AUTHENTICATE')
                    self.authenticated = True
            elif op in ('all', 'one', 'none', 'unknown'):
                events = {'all': ' PRIVCOUNT_STREAM_ENDED PRIVCOUNT_CIRCUIT_CELL PRIVCOUNT_CONNECTION_CLOSE PRIVCOUNT_STREAM_BYTES_TRANSFERRED', 'one': ' privcount_stream_ended', 'none': '',
                          'unknown': ' PRIVCOUNT_STREAM_ENDED PRIVCOUNT_NOSUCH PRIVCOUNT_OTHER'}[op]
                r.say('SETEVENTS' + events)
                if self.authenticated and self.stopped is None:
                    if op in ('all', 'one'):
                        if self.subscribed is None:
                            self.subscribed = CLOCK.now
                    elif self.subscribed is not None:
                        self.stopped, self.at_stop = CLOCK.now, len(r.sent)
                if self.authenticated:
                    got = r.replies[replies:]
                    if got[:1] != (['552 Unrecognized event "PRIVCOUNT_NOSUCH"'] if op == 'unknown' else ['250 OK']):
                        if op != 'unknown' or not got or not got[0].startswith('552 '):
                            self.fail('reply', 'a subscription (%s) was answered %r' % (op, got))
            elif op == 'info':
                r.say('GETINFO version')
            elif op == 'quit':
                r.say('QUIT')
                self.over()
            elif op == 'drop':
                r.drop()
                self.over()
            elif op == 'tick':
                REACTOR.fire_next()
            elif op == 'later':
                REACTOR.advance(2.5)
        except HarnessExit:
            self.fail('exit', 'the injector stopped with an error after %s' % op)
            r.t.closed = True
            return
        except Exception as e:
            self.fail('exception', '%s raised %s: %s' % (op, type(e).__name__, e))
            return
        if not self.authenticated and op != 'auth' and r.t.closed:
            self.over()
        if [x for x in EXITS if x]:
            self.fail('exit', 'the injector failed after %s' % op)
        if r.sent and self.subscribed is None:
            self.fail('early', 'events were sent to a client that did not subscribe')
        elif self.at_stop is not None and len(r.sent) > self.at_stop:
            self.fail('late', 'events were sent after the client stopped')
        elif self.subscribed is not None:
            self.ordered()

    def ordered(self):
        for l, (when, sent) in zip(self.events, self.r.sent):
            w = compare(l, when, sent)
            if w:
                self.fail('event', 'event %r %s' % (l, w))
                return
        if len(self.r.sent) > len(self.events):
            self.fail('events', 'events were sent again')

    def over(self):
        if self.at_stop is None:
            self.stopped, self.at_stop = CLOCK.now, len(self.r.sent)

    def finish(self):
        try:
            for i in range(60):
                if REACTOR.next_timer() is None or REACTOR.stopped:
                    break
                REACTOR.fire_next()
        except HarnessExit:
            self.fail('exit', 'the injector stopped with an error at the end')
            return
        if self.subscribed is not None and self.stopped is None and not self.r.t.closed:
            self.fail('close', 'the injector sent everything, and did not close the connection')
        if self.subscribed is not None and self.stopped is None and len(self.r.sent) != len(self.events):
            self.fail('events', '%d of %d events were sent to a client that stayed' % (len(self.r.sent), len(self.events)))
        if self.at_stop is not None and len(self.r.sent) > self.at_stop:
            self.fail('late', 'events were sent after the client stopped')

    def canon(self):
        return (F.shallow(self.r.f, ('listeners', 'protocol', 'event_file')), F.shallow(self.r.p, ('transport', 'factory')), self.authenticated, self.subscribed is not None, self.stopped is not None,
                len(self.r.sent), self.r.t.closed, REACTOR.stopped, [round(c.getTime() - REACTOR.rightNow, 1) for c in REACTOR.calls])

    def outcome(self):
        return (len(self.r.sent), self.r.t.closed, REACTOR.stopped, self.subscribed is not None, len(self.r.replies))


def client(pause_):
    class C(Client):
        pause = pause_
    return C


# ---- the recorded log ----------------------------------------------------
def recorded(ctx):
    path = '/repo/test/events.txt'
    if not os.path.exists(path):
        return
    with open(path) as f:
        events = [l.strip() for l in f if l.strip()]
    for pause in (False, True):
        ctx.transition()
        ctx.trace()
        if pause:
            # some times in it are absurd on purpose
            events = [l for l in events if read(l)[2] < 2e9]
        r = Injected('\n'.join(events) + '\n', pause)
        r.subscribe()
        begun = CLOCK.now
        r.settle(5 * len(events))
        judge(events, r, pause, 0.0, float(2 ** 63), begun, lambda key, msg: ctx.violation(key, msg, {'kind': 'recorded'}))
        ctx.outcome(('recorded', len(r.sent)))


def run(ctx):
    logs(ctx)
    if ctx.part == 0:
        recorded(ctx)
    for pause in (False, True):
        search(ctx, client(pause), 9 if ctx.thorough else 6, 'client%d' % pause, {'kind': 'client', 'pause': pause})


def replay(ctx, case):
    if case['kind'] == 'log':
        once(ctx, case['spec'])
    elif case['kind'] == 'recorded':
        recorded(ctx)
    else:
        replay_path(ctx, client(case['pause']), case)
