'''
P27: every path over small traffic models, sent as tor events to a real
collector holding every counter of the model, against a direct count.
'''
import itertools
import json
import math

import env
import fixtures as F
from env import ENTROPY, REACTOR

INF = float('inf')


# ---- the models --------------------------------------------------------
def hmm(states, obs, start, trans, emit):
    return {'state_space': states, 'observation_space': obs, 'start_probability': start, 'transition_probability': trans, 'emission_probability': emit}


P = [0.5, 1.0, 1.0, 0.0]
W = [1.0, 1.0, 1.0, 0.0]
PACKET = hmm(['m0s0', 'm0s1', 'm0sEnd'], ['+', '-', 'F'], {'m0s0': 0.5, 'm0s1': 0.5},
             {'m0s0': {'m0s0': 0.25, 'm0s1': 0.5, 'm0sEnd': 0.25}, 'm0s1': {'m0s0': 0.5, 'm0sEnd': 0.5}, 'm0sEnd': {}},
             {'m0s0': {'+': P, '-': P}, 'm0s1': {'-': W}, 'm0sEnd': {'F': [1.0]}})
# some things never happen in this one: they have no counters
RARE = hmm(['a_b', 'a', 'End'], ['+', '-', 'F'], {'a': 1.0, 'a_b': 0.0},
           {'a': {'a': 0.0, 'a_b': 1.0}, 'a_b': {'End': 1.0, 'a': 0.0}, 'End': {}},
           {'a': {'+': W}, 'a_b': {'+': P, '-': P}, 'End': {'F': [1.0]}})
STREAM = hmm(['Active', 'Dwell', 'End'], ['$', 'F'], {'Active': 0.5, 'Dwell': 0.5},
             {'Active': {'Active': 0.25, 'Dwell': 0.5, 'End': 0.25}, 'Dwell': {'Active': 0.5, 'Dwell': 0.5}, 'End': {}},
             {'Active': {'$': [1.0, 0.0, 0.0, 0.5]}, 'Dwell': {'$': W}, 'End': {'F': [1.0]}})
MANY = hmm(['ActiveA', 'ActiveB', 'DwellA', 'End'], ['$', 'F'], {'ActiveA': 1.0},
           {'ActiveA': {'ActiveB': 0.5, 'DwellA': 0.5}, 'ActiveB': {'ActiveA': 1.0}, 'DwellA': {'ActiveB': 0.5, 'End': 0.5}, 'End': {}},
           {'ActiveA': {'$': [1.0, 0.0, 0.0, 0.5]}, 'ActiveB': {'$': [1.0, 0.0, 0.0, 2.0]}, 'DwellA': {'$': W}, 'End': {'F': [1.0]}})
MODELS = {
    'both': {'packet_model': PACKET, 'stream_model': STREAM},
    'packets': {'packet_model': PACKET},
    'streams': {'stream_model': STREAM},
    'rare': {'packet_model': RARE, 'stream_model': MANY},
}
PREFIX = {'packet_model': 'ExitStreamTrafficModel', 'stream_model': 'ExitCircuitTrafficModel'}
EVENT = {'packet_model': ('PRIVCOUNT_VITERBI_PACKETS', 'ViterbiPathPackets'), 'stream_model': ('PRIVCOUNT_VITERBI_STREAMS', 'ViterbiPathStreams')}


def kind_of(state, obs):
    'how the delay before an observation is counted'
    if obs in '+-' or (obs == '$' and 'Dwell' in state):
        return 'log'
    if obs == '$' and 'Active' in state:
        return 'sum'
    return None


def labels(model):
    'the counters a model has'
    out = set()
    for part, m in model.items():
        pre = PREFIX[part]
        out.add(pre + ('StreamCount' if part == 'packet_model' else 'CircuitCount'))
        out.update(pre + x for x in ('EmissionCount', 'TransitionCount', 'DelayTime', 'LogDelayTime', 'SquaredLogDelayTime'))
        for s, e in m['emission_probability'].items():
            for o in e:
                out.add('%sEmissionCount_%s_%s' % (pre, s, o))
                k = kind_of(s, o)
                if k == 'log':
                    out.add('%sLogDelayTime_%s_%s' % (pre, s, o))
                    out.add('%sSquaredLogDelayTime_%s_%s' % (pre, s, o))
                elif k == 'sum':
                    out.add('%sDelayTime_%s_%s' % (pre, s, o))
        for s, e in m['transition_probability'].items():
            out.update('%sTransitionCount_%s_%s' % (pre, s, d) for d, p in e.items() if p > 0)
        out.update('%sTransitionCount_START_%s' % (pre, s) for s, p in m['start_probability'].items() if p > 0)
    return out


def expected(part, path):
    'what a path changes, over all counters'
    pre = PREFIX[part]
    out = {}

    def add(name, n):
        out[pre + name] = out.get(pre + name, 0) + n
    add('StreamCount' if part == 'packet_model' else 'CircuitCount', 1)
    for i, o in enumerate(path):
        if len(o) < 3:
            continue
        s, c, d = o[:3]
        add('EmissionCount', 1)
        add('EmissionCount_%s_%s' % (s, c), 1)
        k = kind_of(s, c)
        if k == 'log':
            l = int(math.floor(math.log(d) + 0.5)) if d >= 1 else 0
            for n, v in (('LogDelayTime', l), ('SquaredLogDelayTime', l * l)):
                add(n, v)
                add('%s_%s_%s' % (n, s, c), v)
        elif k == 'sum':
            add('DelayTime', d)
            add('DelayTime_%s_%s' % (s, c), d)
        if i == 0:
            add('TransitionCount_START_%s' % s, 1)
        elif len(path[i - 1]) >= 3:
            add('TransitionCount', 1)
            add('TransitionCount_%s_%s' % (path[i - 1][0], s), 1)
    return out


def encode(path):
    return json.dumps(path, separators=(';', ':'))


# ---- a collector of a model --------------------------------------------
class Round(object):
    def __init__(self, ctx, name, only=None):
        self.ctx, self.name, self.model = ctx, name, MODELS[name]
        F.reset()
        self.labels = sorted(labels(self.model))
        bins = dict((n, [[0.0, INF]]) for n in self.labels if only is None or n in only)
        if only is None:
            from privcount.traffic_model import TrafficModel
            t = TrafficModel(F.wire(self.model))
            t.register_counters()
            case = {'kind': 'labels', 'model': name}
            for what, got in (('counter labels', t.get_all_counter_labels()), ('bins', t.get_bins_init_config(None)),
                              ('bins with all noise', t.get_bins_init_config({'counters': dict((template(n, self.model), {'sensitivity': 1, 'estimated_value': 1}) for n in self.labels)}))):
                if set(got) != set(self.labels):
                    ctx.violation('labels', 'the %s of a model are not the counters of its paths: %s' % (what, sorted(set(got) ^ set(self.labels))[:4]), case)
        self.bins = bins
        try:
            self.w = F.Counting(bins, traffic_model=self.model)
        except AssertionError as e:
            ctx.violation('refused', 'a round of all counters of a traffic model was refused (%s): %s' % (e, name), {'kind': 'labels', 'model': name})
            self.w = None

    def send(self, part, text, want, case):
        ctx = self.ctx
        if self.w is None:
            return
        ctx.transition()
        ctx.trace()
        ctx.evaluation()
        code, field = EVENT[part]
        try:
            self.w.event([code, 'EventTimestamp=1500000000.5', '%s=%s' % (field, text)])
        except Exception as e:
            ctx.violation('exception', '%s raised %s: %s' % (text, type(e).__name__, e), case)
            self.w.take()
            return
        got = dict((k, v) for (k, i), v in self.w.take().items())
        want = dict((k, v) for k, v in want.items() if v and k in self.bins)
        ctx.outcome(sorted(got.items()))
        for k in sorted(set(got) | set(want)):
            if got.get(k, 0) != want.get(k, 0):
                ctx.violation('count', '%s %s changed %s by %s, not %s' % (code, text, k, got.get(k, 0), want.get(k, 0)), case)
                return

    def path(self, part, path, **kw):
        case = {'kind': 'path', 'model': self.name, 'part': part, 'path': path}
        case.update(kw)
        want = expected(part, path) if part in self.model else {}
        self.send(part, encode(path), want, case)


def template(n, model):
    'the noise template of a counter'
    for part, m in model.items():
        pre = PREFIX[part]
        if not n.startswith(pre):
            continue
        rest = n[len(pre):]
        if '_' not in rest:
            return n
        base, tail = rest.split('_', 1)
        if base == 'TransitionCount':
            return pre + base + ('_START_<STATE>' if tail.startswith('START_') else '_<SRCSTATE>_<DSTSTATE>')
        return pre + base + '_<STATE>_<OBS>'


PACKET_DELAYS = [0, 1, 2, 35432]
STREAM_DELAYS = [0, 1, 35432]
ODD = {
    'packet_model': [['m0s0', '+'], [], ['nosuch', '+', 5], ['m0s1', '+', 5], ['m0s0', 'F', 5], ['m0s0', '$', 7], ['m0sEnd', 'F', 0], ['m0s0', '+', 3, 4]],
    'stream_model': [['Active', '$'], [], ['Elsewhere', '$', 5], ['OtherDwell', '$', 5], ['OtherActive', '$', 5], ['Active', 'F', 5], ['End', 'F', 3], ['Dwell', '+', 3]],
}
MALFORMED = ['', 'x', '5', 'null', '{', '[', '[[]', '[["m0s0";"+";"x"]]', '[["m0s0";"+";1];5]', '[["m0s0";"+";1];null]', '[["m0s0";"+";null]]', '[["m0s0";"+";1];["m0s1";"-";"x"]]',
             '[["m0s0";"+";{}]]', '[["m0s0";"+";1];["m0s1";"-"', '[["Active";"$";5];["Dwell";"$";[]]]', '[["m0s0";"+";1e999]]', '[["m0s0";"+";1]]]']
# how long delays are rounded: around the half-way points of the logarithm, and both ends
DELAYS = sorted(set([0, 1, 2, 10 ** 6, 10 ** 9, 2 ** 31, 2 ** 32 + 1, 10 ** 12] + [int(math.exp(k + 0.5)) + j for k in range(0, 26) for j in (-1, 0, 1, 2)]))


def observations(model, part, delays):
    out = []
    for s, e in sorted(model[part]['emission_probability'].items()):
        for o in sorted(e):
            out += [[s, o, d] for d in (delays if kind_of(s, o) else [0])]
    return out


def run(ctx):
    n = 0
    for name in sorted(MODELS):
        model = MODELS[name]
        r = Round(ctx, name)
        for part in sorted(PREFIX):
            full = part in model
            src = model if full else MODELS['both']
            some = observations(src, part, PACKET_DELAYS if part == 'packet_model' else STREAM_DELAYS)
            few = observations(src, part, [2])
            odd = ODD[part]
            deep = 4 if ctx.thorough else 3
            long_ = 7 if ctx.thorough else 5
            sets = [(some, 0, deep if full and name != 'both' else 2), (few + [[]], 0, long_ if name == 'rare' or ctx.thorough else 4 if full else 1),
                    (few[:2] + odd, 1, 3 if full else 1)]
            for alphabet, lo, hi in sets:
                for length in range(lo, hi + 1):
                    for path in itertools.product(alphabet, repeat=length):
                        n += 1
                        if ctx.mine(n):
                            ctx.state((name, part, path))
                            r.path(part, list(path))
            for d in DELAYS:
                for o in few:
                    n += 1
                    if ctx.mine(n):
                        ctx.state((name, part, o, d))
                        r.path(part, [[o[0], o[1], d]])
                        r.path(part, [few[0], [o[0], o[1], d]])
            for text in MALFORMED:
                n += 1
                if ctx.mine(n):
                    ctx.state((name, part, text))
                    r.send(part, text, {}, {'kind': 'text', 'model': name, 'part': part, 'text': text})
                    r.path(part, [few[0], few[-1]])
    # with each counter missing, and each counter alone
    for name in ('rare', 'both'):
        for only in sorted(labels(MODELS[name])):
            n += 1
            if ctx.mine(n):
                subset(ctx, name, [only])
                subset(ctx, name, sorted(labels(MODELS[name]) - set([only])))
    ctx.sample({'malformed': len(MALFORMED), 'delays': len(DELAYS)})
    # rounds of one model after another
    for seq in itertools.product(sorted(MODELS), repeat=2):
        n += 1
        if ctx.mine(n):
            for name in seq:
                r = Round(ctx, name)
                few_paths(r)


def few_paths(r, **kw):
    for part in sorted(PREFIX):
        few = observations(r.model if part in r.model else MODELS['both'], part, [0, 35432])
        for length in (0, 1, 2):
            for path in itertools.product(few, repeat=length):
                r.path(part, list(path), **kw)


def subset(ctx, name, only):
    r = Round(ctx, name, set(only))
    ctx.state((name, only))
    few_paths(r, only=list(only))


def replay(ctx, case):
    if case['kind'] == 'labels':
        Round(ctx, case['model'])
        return
    r = Round(ctx, case['model'], set(case['only']) if case.get('only') else None)
    if case['kind'] == 'text':
        r.send(case['part'], case['text'], {}, case)
    else:
        r.path(case['part'], case['path'])
