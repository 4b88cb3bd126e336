'''
P26: what a real collector asks tor for, for every counter alone and for every
combination of counter families, against the events that change each counter.
'''
import itertools

import account as A
import env
import fixtures as F
import p20
import p21
import p22
import p23
import p24
import tor
from env import ENTROPY, REACTOR, CLOCK
from explore import plain

INF = float('inf')
CODES = ['STREAM_ENDED', 'CIRCUIT_CLOSE', 'CONNECTION_CLOSE', 'HSDIR_CACHE_STORE', 'HSDIR_CACHE_FETCH', 'VITERBI_PACKETS', 'VITERBI_STREAMS']


def table():
    'the documented events behind every counter'
    t = {'ZeroCount': []}
    for n in p21.stream_names():
        t[n] = ['STREAM_ENDED']
    for n in p21.circuit_names():
        t[n] = ['STREAM_ENDED', 'CIRCUIT_CLOSE']
    groups, both = p22.names_of()
    for l in groups.values():
        for _, n in l:
            t[n] = ['CIRCUIT_CLOSE']
    for n in [n for n, _ in both] + p23.IP_NAMES:
        t[n] = ['CIRCUIT_CLOSE']
    for n in p23.names_of():
        t[n] = ['CONNECTION_CLOSE']
    for n, m in p24.names_of().items():
        t[n] = ['HSDIR_CACHE_' + m['e'].upper()]
    for n in A.valid_names():
        if 'TrafficModel' in n:
            t[n] = ['VITERBI_PACKETS' if n.startswith('ExitStream') else 'VITERBI_STREAMS']
    missing = [n for n in A.valid_names() if n not in t]
    if missing:
        raise AssertionError('counters of no family: %r' % missing[:5])
    return dict((n, frozenset('PRIVCOUNT_' + c for c in l)) for n, l in t.items())


def one_bin(n):
    return [[0.0, INF]] if n.endswith('Count') or 'TrafficModel' in n else [[0.0, 1.0], [1.0, INF]]


# ---- every counter alone -----------------------------------------------
def alone(ctx, n, needs):
    ctx.transition()
    ctx.trace()
    ctx.evaluation()
    F.reset()
    ENTROPY.gauss_hook = lambda mu, sigma: 0.0
    dc = F.make_dc('alone', sks=0)
    conf = F.start_config(sks=0)
    conf['counters'] = {n: {'bins': one_bin(n)}}
    conf['noise'] = {'counters': {n: {'sigma': 0.0}}}
    case = {'kind': 'alone', 'counter': n}
    if dc.do_start(F.wire(conf)) is None:
        ctx.violation('refused', 'a round of %s was refused' % n, case)
        return
    REACTOR.advance(0.01)
    t = tor.Tor(dc.aggregator)
    t.settle()
    got = frozenset(t.subscribed)
    if got != needs:
        ctx.violation('subscription', 'a round of %s asks tor for %s, but the events that change it are %s' % (n, ' '.join(sorted(got)) or 'nothing', ' '.join(sorted(needs)) or 'none'), case)
    dc.do_stop({'send_counters': False})
    ctx.state(n)
    ctx.outcome(sorted(got))


# ---- the counters a model names ----------------------------------------
def model_counters(model):
    'the counters of this model and the event that changes each'
    t = {}
    for kind, pre, event, static in (('packet_model', 'ExitStreamTrafficModel', 'VITERBI_PACKETS', 'StreamCount'), ('stream_model', 'ExitCircuitTrafficModel', 'VITERBI_STREAMS', 'CircuitCount')):
        m = model.get(kind)
        if m is None:
            continue
        names = ['EmissionCount', 'TransitionCount', static]
        for s in sorted(m['emission_probability']):
            for c in sorted(m['emission_probability'][s]):
                names.append('EmissionCount_%s_%s' % (s, c))
                if c in '+-' or c == '$' and 'Dwell' in s:
                    names += ['LogDelayTime', 'SquaredLogDelayTime', 'LogDelayTime_%s_%s' % (s, c), 'SquaredLogDelayTime_%s_%s' % (s, c)]
                elif c == '$' and 'Active' in s:
                    names += ['DelayTime', 'DelayTime_%s_%s' % (s, c)]
        for s in sorted(m['transition_probability']):
            names += ['TransitionCount_%s_%s' % (s, d) for d, p in sorted(m['transition_probability'][s].items()) if p > 0]
        names += ['TransitionCount_START_' + s for s, p in sorted(m['start_probability'].items()) if p > 0]
        for n in names:
            t[pre + n] = 'PRIVCOUNT_' + event
    return t


def models():
    packet, stream = p20.MODEL['packet_model'], p20.MODEL['stream_model']
    return [{'packet_model': packet, 'stream_model': stream}, {'packet_model': packet}, {'stream_model': stream},
            {'packet_model': dict(packet, start_probability={'m0s0': 0.5, 'm0s1': 0.5}),
             'stream_model': dict(stream, start_probability={'Active': 0.5, 'Dwell': 0.5},
                                  transition_probability={'Active': {'Active': 0.25, 'Dwell': 0.5, 'End': 0.25}, 'Dwell': {'Active': 0.5, 'Dwell': 0.5}, 'End': {}})}]


def of_model(ctx, i, before, names):
    'a round of these counters of a model, after a round of another model'
    ctx.transition()
    ctx.trace()
    ctx.evaluation()
    F.reset()
    ENTROPY.gauss_hook = lambda mu, sigma: 0.0
    dc = F.make_dc('model', sks=0)
    case = {'kind': 'model', 'model': i, 'before': before, 'counters': names}
    for j, chosen in ((before, sorted(model_counters(models()[before]))), (i, names)) if before is not None else ((i, names),):
        model = models()[j]
        t = model_counters(model)
        conf = F.start_config(sks=0, traffic_model=model)
        conf['counters'] = dict((n, {'bins': [[0.0, INF]]}) for n in chosen)
        conf['noise'] = {'counters': dict((n, {'sigma': 0.0}) for n in chosen)}
        REACTOR.jump(10)
        if dc.do_start(F.wire(conf)) is None:
            ctx.violation('model-refused', 'a round of %s was refused' % ' '.join(chosen), case)
            return
        REACTOR.advance(0.01)
        r = tor.Tor(dc.aggregator)
        r.settle()
        got, needs = frozenset(r.subscribed), frozenset(t[n] for n in chosen)
        if got != needs:
            ctx.violation('model-subscription', 'a round of the model counters %s asks tor for %s, but the events that change them are %s' % (
                          ' '.join(chosen[:4]), ' '.join(sorted(got)) or 'nothing', ' '.join(sorted(needs))), case)
        dc.do_stop({'send_counters': False})
    ctx.state(case)
    ctx.outcome(sorted(got))


def of_models(ctx):
    for i, model in enumerate(models()):
        t = model_counters(model)
        names = sorted(t)
        for before in [None] + range(len(models())):
            for n in names:
                if ctx.mine() and (before is None or ctx.thorough):
                    of_model(ctx, i, before, [n])
            if ctx.mine():
                of_model(ctx, i, before, names)
            for e in sorted(set(t.values())):
                if ctx.mine():
                    of_model(ctx, i, before, [n for n in names if t[n] == e])
        # one of each kind
        for a in names:
            for b in names:
                if a < b and t[a] != t[b] and (ctx.thorough or a.count('_') == 1) and ctx.mine():
                    of_model(ctx, i, None, [a, b])


# ---- families together -------------------------------------------------
FAMILIES = ['ExitStreamCount', 'ExitWebCircuitCount', 'EntryClientIPCount', 'EntryConnectionCount', 'HSDirStoreCount', 'HSDirFetchCount', 'ExitStreamTrafficModelEmissionCount',
            'ExitCircuitTrafficModelEmissionCount', 'MidCircuitCount']
PATHS = ['plain', 'early', 'late', 'reconnect', 'interrupted', 'again', 'setconf-off']


def rotate():
    'the rotation of every collector that was started in the last period'
    REACTOR.advance(600 - REACTOR.seconds() % 600 + 5)


def script():
    'one event of every kind, then the client address window is rotated out'
    now = CLOCK.now
    return [p21.words(1, 2, 80, 10, 20, 0.0, 1.0, 'localhost', '198.51.100.1', 1),
            p21.close(1, 2),
            p23.circuit('192.0.2.1', True, now - 0.25),
            (p20.EVENTS[0][0], p20.EVENTS[0][1])] + [(c, f) for c, f, _ in p20.EVENTS[1:]] + [None, None]


def as_words(e):
    return e if isinstance(e, list) else ['PRIVCOUNT_' + e[0]] + e[1].split()


def counts(dc):
    from privcount.counter import counter_modulus
    r = F.wire(dc.do_stop({'send_counters': True})).get('Counts')
    if r is None:
        return None
    q = counter_modulus()
    return dict((k, [long(b[2]) if long(b[2]) < (q + 1) // 2 else long(b[2]) - q for b in v['bins']]) for k, v in r.items())


def start(names):
    conf = F.start_config(sks=0, traffic_model=p20.MODEL)
    conf['counters'] = dict((n, {'bins': one_bin(n)}) for n in names)
    conf['noise'] = {'counters': dict((n, {'sigma': 0.0}) for n in names)}
    return F.wire(conf)


def full_round(dc, names, path, deliver):
    'a round of these counters: deliver is True if every event reaches the collector, whatever it asked for'
    REACTOR.jump(10)
    conf = start(names)
    if path == 'early':
        conf['defer_time'] = 5.0
    if dc.do_start(conf) is None:
        return None, None
    if path == 'early':
        # the control connection is there before the round is
        t = tor.Tor(dc.aggregator)
        t.settle()
        REACTOR.advance(6.0)
        t.collect()
    else:
        REACTOR.advance(1.0)
        if path == 'late':
            REACTOR.jump(100)
        t = tor.Tor(dc.aggregator)
    if path == 'interrupted':
        for _ in range(3):
            t.answer()
        t.lose()
        t = tor.Tor(dc.aggregator)
    t.settle()
    if path == 'reconnect':
        t.lose()
        t = tor.Tor(dc.aggregator)
        t.settle()
    asked = frozenset(t.subscribed)
    if deliver:
        t.subscribed = ['PRIVCOUNT_' + c for c in CODES]
    for e in script():
        if e is None:
            REACTOR.advance(610)
        elif deliver:
            dc.aggregator.handle_event(as_words(e))
        else:
            t.event(as_words(e))
    return asked, counts(dc)


_reference = {}

def together(ctx, chosen, path, t):
    ctx.transition()
    ctx.trace()
    ctx.evaluation()
    names = [FAMILIES[i] for i in chosen]
    case = {'kind': 'together', 'chosen': list(chosen), 'path': path}
    F.reset()
    ENTROPY.gauss_hook = lambda mu, sigma: 0.0
    if tuple(chosen) not in _reference:
        _reference[tuple(chosen)] = full_round(F.make_dc('together', sks=0), names, 'plain', True)[1]
        F.reset()
        ENTROPY.gauss_hook = lambda mu, sigma: 0.0
    dc = F.make_dc('together', sks=0, **({'use_setconf': False} if path == 'setconf-off' else {}))
    if path == 'again':
        # another round first, of the other families
        full_round(dc, [n for n in FAMILIES if n not in names] or FAMILIES[:1], 'plain', False)
    asked, got = full_round(dc, names, path, False)
    if asked is None:
        ctx.violation('refused', 'a round of %s was refused' % ' '.join(names), case)
        return
    needs = frozenset(e for n in names for e in t[n])
    if asked != needs:
        ctx.violation('subscription', '%s: a round of %s asks tor for %s, but the events that change them are %s' % (
                      path, ' '.join(names), ' '.join(sorted(asked)) or 'nothing', ' '.join(sorted(needs))), case)
    want = _reference[tuple(chosen)]
    if got != want:
        ctx.violation('counts', '%s: a round of %s counts %r from the events it asked for, and %r from every event' % (path, ' '.join(names), got, want), case)
    ctx.state(case)
    ctx.outcome(sorted((k, v) for k, v in (got or {}).items()))


# ---- which events change which counters --------------------------------
def lists():
    return A.lists_config(domain=[['example.com']], country=[['us']], as_prefix={4: '192.0.0.0/8\t1\n', 6: '2001::/16\t1\n'}, hsdir_store=[['novel']], hsdir_fetch=[['found']],
                          circuit_failure=[['timeout']], onion_address=[['abcdefghijklmnop']], **{'as': [['1']]})


def everything(only=None):
    return F.Counting(dict((n, b) for n, b in p20.layout().bins.items() if only is None or n in only), traffic_model=p20.MODEL, **lists())


def circuits():
    wheres = [c for n in range(5) for c in itertools.combinations(sorted(p22.WHERE), n)]
    whats = [()] + [(x,) for x in sorted(p22.WHAT)] + [('exit', x) for x in sorted(p22.WHAT) if x != 'exit']
    for c in itertools.product(wheres, whats, [None, 0, 1], [None, 2, 3], [None, 'timeout'], [(p22.three(3), p22.three(4)), (p22.three(3), p22.three(5))], [0.5], [False]):
        yield p22.words(dict(zip(p22.FIELDS, c[:5] + c[5] + c[6:])))


def streams():
    for c in itertools.product([80, 22, 6881, 9], [10, 0], ['example.com', 'www.example.com', 'example.org', '198.51.100.1', '2001:db8::1'], [i for i, _ in p21.IPS], [1, 2]):
        yield p21.words(1, 3, c[0], c[1], c[1], 0.0, 1.0, c[2], c[3], c[4])


def connections():
    for c in itertools.product([0, 1], [0, 1], [0, 1], [(600, 1)], [(1, 0)], [1.0], ['us', 'de', None], ['192.0.2.1', '198.51.100.1', '2001:db8::1', '2620::1']):
        yield p23.words(dict(zip(p23.FIELDS, c)))


def requests():
    for event in ('Store', 'Fetch'):
        added = [0, 1] if event == 'Store' else [None]
        for c in itertools.product(added, [None, 0, 1], [None, 0, 1], [r for r, _ in p24.REASONS[event]], [None, p24.ONIONS[0], p24.ONIONS[1]], [p24.SIZES[0], p24.SIZES[2]], [None, 3], [None, 1]):
            if event == 'Store' or c[-1] is None:
                yield p24.words(dict(zip(p24.FIELDS, (event, 2) + c + (None,))))
        for c in itertools.product(added, [None, 0, 1], [r for r, _ in p24.REASONS[event]], [p24.SIZES[0], p24.SIZES[2]], [None, 4]):
            yield p24.words(dict(zip(p24.FIELDS, (event, 3, c[0], c[1], None, c[2], None, c[3], None, None, c[4]))))


def others():
    for c, f, _ in p20.EVENTS:
        yield ['PRIVCOUNT_' + c] + f.split()
    for c, w in (('VITERBI_PACKETS', '[["m0s0";"+";5]]'), ('VITERBI_STREAMS', '[["Active";"$";5]]')):
        yield ['PRIVCOUNT_' + c, 'EventTimestamp=1500000000.5', 'ViterbiPath%s=%s' % (c[8:].capitalize(), w)]
    yield ['PRIVCOUNT_STREAM_BYTES_TRANSFERRED'] + p20.BYTES
    yield ['PRIVCOUNT_DNS_RESOLVED', '1', '2', '3', 'example.com']
    yield ['PRIVCOUNT_CIRCUIT_ENDED'] + ['1'] * 12
    yield ['PRIVCOUNT_CONNECTION_ENDED'] + ['1'] * 5
    # a stream makes the circuit that ends an exit circuit
    for port in (80, 22, 6881, 9):
        for n in (1, 2):
            for i in range(n):
                yield p21.words(5, 5, port, 10, 10, float(i), i + 1.0, 'localhost', '198.51.100.1', 1)
            yield p21.close(5, 5)


def observed(ctx, w, words, t, case, changed):
    ctx.transition()
    ctx.trace()
    ctx.evaluation()
    w.event(words)
    got = set(n for n, _ in w.take())
    for n in got:
        changed.add(n)
        if words[0] not in t[n]:
            ctx.violation('observed', '%s changes %s, which does not ask for it' % (' '.join(words), n), case)
            break
    ctx.outcome((words[0], len(got)))
    ctx.state(words)


SPACES = {'circuits': circuits, 'streams': streams, 'connections': connections, 'requests': requests, 'others': others}


# ---- sessions ----------------------------------------------------------
def alphabet():
    'events of every family (the channel and circuit are filled in), and a rotation'
    a = [['stream', 80, 1], ['stream', 22, 2], ['close', 1, 0], ['close', 0, 1], ['client', 0, 1], ['client', 1, 0], ['rotate']]
    return a + [['event', i] for i in (3, 4, 5, 7, 9, 10)]


def session_words(op, base):
    if op[0] == 'stream':
        return p21.words(base, 1, op[1], 10, 20, float(op[2]), 3.0, 'localhost', '198.51.100.1', 1)
    if op[0] == 'close':
        return p21.close(base, 1, exit=op[1], entry=op[2])
    if op[0] == 'client':
        return p23.circuit(p23.IPS[op[1]], op[2], CLOCK.now - 0.25)
    c, f, _ = p20.EVENTS[op[1]]
    return ['PRIVCOUNT_' + c] + f.split()


class Sessions(object):
    def __init__(self, t):
        self.sets = sorted(set(t.values()), key=sorted)
        F.reset()
        REACTOR.jump(600 - REACTOR.seconds() % 600)
        self.full = everything()
        self.worlds = [(s, everything(set(n for n in t if t[n] == s))) for s in self.sets if s]
        self.base = 0
        self.t = t

    def run(self, ctx, ops):
        ctx.trace()
        ctx.evaluation()
        self.base += 1
        case = {'kind': 'session', 'ops': ops}
        for op in list(ops) + [['rotate'], ['rotate']]:
            ctx.transition()
            if op[0] == 'rotate':
                rotate()
                continue
            REACTOR.jump(0.5)
            words = session_words(op, self.base)
            self.full.event(words)
            for s, w in self.worlds:
                if words[0] in s:
                    w.event(words)
        want = self.full.take()
        for s, w in self.worlds:
            got = dict((k, v) for k, v in w.take().items() if self.t[k[0]] == s)
            mine = dict((k, v) for k, v in want.items() if self.t[k[0]] == s)
            A.compare(ctx, 'session', got, mine, 'after %r, a collector that only asked for %s' % (ops, ' '.join(sorted(s)) or 'nothing'), case)
        ctx.state(ops)
        ctx.outcome(len(want))


def run(ctx):
    F.reset()
    F.remember_counter_names()
    t = table()
    ctx.note('%d counters in %d subscriptions' % (len(t), len(set(t.values()))))
    for n in sorted(t):
        if n != 'ZeroCount' and ctx.mine():
            alone(ctx, n, t[n])
    of_models(ctx)
    n = 0
    for size in range(1, len(FAMILIES) + 1):
        for chosen in itertools.combinations(range(len(FAMILIES)), size):
            for i, path in enumerate(PATHS):
                n += 1
                if (ctx.thorough or size in (1, len(FAMILIES)) or n % 6 == 0) and ctx.mine():
                    together(ctx, chosen, path, t)
    F.reset()
    w = everything()
    changed = set()
    for space in sorted(SPACES):
        for i, words in enumerate(SPACES[space]()):
            # the streams of a circuit stay together
            if space == 'others' and ctx.part == 0 or space != 'others' and ctx.mine():
                observed(ctx, w, words, t, {'kind': 'observed', 'space': space, 'index': i}, changed)
    for n in changed:
        ctx.state(('changed', n))
    w.dc.do_stop({'send_counters': False})
    s = Sessions(t)
    for depth in range(1, 5 if ctx.thorough else 4):
        for ops in itertools.product(alphabet(), repeat=depth):
            if ctx.mine():
                s.run(ctx, list(ops))


def replay(ctx, case):
    case = plain(case)
    F.reset()
    F.remember_counter_names()
    t = table()
    if case['kind'] == 'alone':
        alone(ctx, case['counter'], t[case['counter']])
    elif case['kind'] == 'model':
        of_model(ctx, case['model'], case['before'], case['counters'])
    elif case['kind'] == 'together':
        together(ctx, tuple(case['chosen']), case['path'], t)
    elif case['kind'] == 'observed':
        w = everything()
        for i, words in enumerate(SPACES[case['space']]()):
            if case['space'] == 'others' or i == case['index']:
                observed(ctx, w, words, t, case, set())
    else:
        Sessions(t).run(ctx, case['ops'])
