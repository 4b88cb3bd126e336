'''
P28: every assignment of noisy tallies to the counters of small traffic models,
sequences of rounds each starting from the model the last one made, and the same
through the results a real tally server writes.
'''
import itertools
import json
import math
import os
import shutil
from copy import deepcopy

import env
import fixtures as F
import p27
from env import REACTOR, CLOCK, ENTROPY
from explore import hash_of

INF = float('inf')
hmm, PREFIX, kind_of, labels = p27.hmm, p27.PREFIX, p27.kind_of, p27.labels

SMALL_PACKETS = hmm(['s0', 's1', 's0End'], ['+', '-', 'F'], {'s0': 0.75, 's1': 0.25},
                    {'s0': {'s0': 0.25, 's1': 0.5, 's0End': 0.25}, 's1': {'s0': 0.5, 's0End': 0.5}, 's0End': {}},
                    {'s0': {'+': [0.25, 3.0, 1.0, 0.0], '-': [0.75, 1.0, 2.0, 0.0]}, 's1': {'-': [1.0, 2.0, 0.5, 0.0]}, 's0End': {'F': [1.0]}})
SMALL_STREAMS = hmm(['Active', 'Dwell', 'End'], ['$', 'F'], {'Active': 1.0},
                    {'Active': {'Active': 0.5, 'Dwell': 0.25, 'End': 0.25}, 'Dwell': {'Active': 1.0}, 'End': {}},
                    {'Active': {'$': [1.0, 0.0, 0.0, 0.5]}, 'Dwell': {'$': [1.0, 4.0, 1.0, 0.0]}, 'End': {'F': [1.0]}})
# states that may end where they are, or emit what no delay is counted for
MIXED_PACKETS = hmm(['a', 'b'], ['+', '-', 'F', '$'], {'a': 1.0, 'b': 0.0}, {'a': {'b': 1.0, 'a': 0.0}, 'b': {'b': 1.0}},
                    {'a': {'+': [0.5, 1.0, 1.0, 0.0], 'F': [0.5]}, 'b': {'-': [0.25, 1.0, 1.0, 0.0], '$': [0.75, 1.0, 1.0, 1.0]}})
MIXED_STREAMS = hmm(['Active', 'Dwell'], ['$', 'F'], {'Active': 0.5, 'Dwell': 0.5}, {'Active': {'Dwell': 1.0}, 'Dwell': {'Active': 0.5, 'Dwell': 0.5}},
                    {'Active': {'$': [0.25, 0.0, 0.0, 8.0], 'F': [0.75]}, 'Dwell': {'$': [0.5, 1.0, 1.0, 0.0], 'F': [0.5]}})
# the End state of this one lists a transition that never happens
ENDED = hmm(['a', 'aEnd'], ['+', '-', 'F'], {'a': 1.0}, {'a': {'aEnd': 1.0}, 'aEnd': {'a': 0.0}}, {'a': {'+': [0.0, 1.0, 1.0, 0.0], '-': [1.0, 1.0, 1.0, 0.0]}, 'aEnd': {'F': [1.0]}})
MODELS = {
    'both': {'packet_model': SMALL_PACKETS, 'stream_model': SMALL_STREAMS},
    'packets': {'packet_model': SMALL_PACKETS},
    'streams': {'stream_model': SMALL_STREAMS},
    'mixed': {'packet_model': MIXED_PACKETS, 'stream_model': MIXED_STREAMS},
    'ended': {'packet_model': ENDED},
}


def near(a, b):
    return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))


def number(x):
    return isinstance(x, (int, long, float)) and not isinstance(x, bool) and x == x and abs(x) != INF


def judge(old, new):
    'what is wrong with a model made from another, if anything'
    if not isinstance(new, dict) or set(new) != set(old):
        return 'has the parts %s' % (sorted(new) if isinstance(new, dict) else new)
    for part in old:
        o, n = old[part], new[part]
        if set(n) != set(o):
            return 'has the keys %s in its %s' % (sorted(n), part)
        for k in ('state_space', 'observation_space'):
            if sorted(n[k]) != sorted(o[k]):
                return 'has another %s' % k
        if set(n['start_probability']) != set(o['start_probability']):
            return 'starts in other states'
        w = wrong_sum(n['start_probability'].values())
        if w:
            return 'has start probabilities that %s' % w
        if set(n['transition_probability']) != set(o['transition_probability']):
            return 'moves from other states'
        for s, row in n['transition_probability'].items():
            if set(row) != set(o['transition_probability'][s]):
                return 'moves from %s to other states' % s
            if 'End' not in s:
                w = wrong_sum(row.values())
                if w:
                    return 'has transition probabilities from %s that %s' % (s, w)
            elif not all(number(x) and x >= 0 for x in row.values()):
                return 'has transition probabilities %s from %s' % (row, s)
        if set(n['emission_probability']) != set(o['emission_probability']):
            return 'emits in other states'
        for s, row in n['emission_probability'].items():
            if set(row) != set(o['emission_probability'][s]):
                return 'emits other things in %s' % s
            w = wrong_sum([x[0] for x in row.values()])
            if w:
                return 'has emission probabilities in %s that %s' % (s, w)
            for c, x in row.items():
                if len(x) != (1 if c == 'F' else 4):
                    return 'has parameters %s for %s in %s' % (x, c, s)
                if not all(number(y) and y >= 0 for y in x):
                    return 'has parameters %s for %s in %s' % (x, c, s)
                k = kind_of(s, c)
                if k == 'log' and not x[2] > 0:
                    return 'has no deviation of the delays of %s in %s' % (c, s)
                if k == 'sum' and not x[3] > 0:
                    return 'has the rate %s for %s in %s' % (x[3], c, s)
    return None


def wrong_sum(l):
    l = list(l)
    if not all(number(x) and -1e-12 <= x <= 1 + 1e-9 for x in l):
        return 'are %s' % l
    if abs(sum(l) - 1.0) > 1e-9:
        return 'sum to %r' % sum(l)
    return None


def mixed(old, counts, inertia):
    'old probabilities moved towards the shares of the counts'
    counts = dict((k, max(0.0, float(v or 0))) for k, v in counts.items())
    t = sum(counts.values())
    new = dict((k, inertia * old[k] + (1.0 - inertia) * (counts[k] / t if t else 0.0)) for k in old)
    t = sum(new.values())
    return dict((k, v / t if t else v) for k, v in new.items())


def differs(old, new, tally, ti=0.5, ei=0.5):
    'how a valid new model is not the one these tallies make, if it is not'
    for part in old:
        pre, o, n = PREFIX[part], old[part], new[part]
        get = lambda x: tally.get(pre + x)
        want = mixed(o['start_probability'], dict((s, get('TransitionCount_START_' + s)) for s in o['start_probability']), ti)
        for s in want:
            if not near(want[s], n['start_probability'][s]):
                return 'starts in %s with probability %r, not %r' % (s, n['start_probability'][s], want[s])
        for s, row in o['transition_probability'].items():
            if 'End' in s:
                continue
            want = mixed(row, dict((d, get('TransitionCount_%s_%s' % (s, d))) for d in row), ti)
            for d in want:
                if not near(want[d], n['transition_probability'][s][d]):
                    return 'moves from %s to %s with probability %r, not %r' % (s, d, n['transition_probability'][s][d], want[d])
        for s, row in o['emission_probability'].items():
            count = dict((c, get('EmissionCount_%s_%s' % (s, c))) for c in row)
            want = mixed(dict((c, x[0]) for c, x in row.items()), count, ei)
            for c in want:
                x = n['emission_probability'][s][c]
                if not near(want[c], x[0]):
                    return 'emits %s in %s with probability %r, not %r' % (c, s, x[0], want[c])
                k, e = kind_of(s, c), count[c] or 0
                if e <= 0:
                    continue
                if k == 'log':
                    l, q = get('LogDelayTime_%s_%s' % (s, c)) or 0, get('SquaredLogDelayTime_%s_%s' % (s, c)) or 0
                    if l <= 0:
                        continue
                    mu = float(l) / e
                    w = ei * row[c][1] + (1.0 - ei) * mu
                    if not near(w, x[1]):
                        return 'has the mean log delay %r of %s in %s, not %r' % (x[1], c, s, w)
                    var = float(q) / e - mu ** 2
                    if q > 0 and var > 0.1:
                        w = ei * row[c][2] + (1.0 - ei) * math.sqrt(var)
                        if not near(w, x[2]):
                            return 'has the deviation %r of %s in %s, not %r' % (x[2], c, s, w)
                elif k == 'sum':
                    d = get('DelayTime_%s_%s' % (s, c)) or 0
                    if d > 0 and row[c][3] > 0:
                        w = 1.0 / (ei / row[c][3] + (1.0 - ei) * float(d) / e)
                        if not near(w, x[3]):
                            return 'has the rate %r of %s in %s, not %r' % (x[3], c, s, w)
    return None


def update(model, tally, inertia=None):
    from privcount.traffic_model import TrafficModel
    t = TrafficModel(F.wire(model))
    return F.wire(t.update_from_tallies(dict(tally), **({} if inertia is None else {'trans_inertia': inertia[0], 'emit_inertia': inertia[1]})))


def once(ctx, name, model, tally, inertia=None, rounds=()):
    from privcount.traffic_model import check_traffic_model_config
    ctx.transition()
    ctx.trace()
    ctx.evaluation()
    case = {'kind': 'once', 'model': name, 'tally': tally, 'inertia': inertia}
    try:
        new = update(model, tally, inertia)
    except Exception as e:
        ctx.violation('exception', 'updating a model from %s raised %s: %s' % (brief(tally), type(e).__name__, e), case)
        return None
    ctx.outcome(hash_of(json.dumps(new, sort_keys=True)))
    w = judge(model, new)
    if w:
        ctx.violation('invalid', 'updated from %s, the model %s' % (brief(tally), w), case)
        return None
    if not check_traffic_model_config(new):
        ctx.violation('check', 'updated from %s, the model fails the check of models' % brief(tally), case)
        return None
    w = differs(model, new, tally, *(inertia or ()))
    if w:
        ctx.violation('amounts', 'updated from %s, the model %s' % (brief(tally), w), case)
        return None
    return new


def brief(tally):
    return ', '.join('%s=%s' % (k.replace('TrafficModel', '..'), v) for k, v in sorted(tally.items()) if v)[:200] or 'nothing'


# ---- assignments -------------------------------------------------------
MISSING = 'missing'
VALUES = [-1000, 0, 1, 1000]


def groups(model):
    'the counters that may bear on one another'
    out = []
    for part, m in sorted(model.items()):
        pre = PREFIX[part]
        out.append([pre + 'TransitionCount_START_' + s for s in sorted(m['start_probability'])])
        for s, row in sorted(m['transition_probability'].items()):
            out.append(['%sTransitionCount_%s_%s' % (pre, s, d) for d in sorted(row)])
        for s, row in sorted(m['emission_probability'].items()):
            g = []
            for c in sorted(row):
                g.append('%sEmissionCount_%s_%s' % (pre, s, c))
                k = kind_of(s, c)
                if k == 'log':
                    g += ['%s%s_%s_%s' % (pre, x, s, c) for x in ('LogDelayTime', 'SquaredLogDelayTime')]
                elif k == 'sum':
                    g.append('%sDelayTime_%s_%s' % (pre, s, c))
            out.append(g)
    known = labels(model)
    return [g for g in [[x for x in g if x in known] for g in out] if g]


def backgrounds(model):
    known = sorted(labels(model))
    out = [dict((k, v) for k in known) for v in (0, -7, 13)]
    out.append({})
    # a plausible round
    likely = {}
    for k in known:
        likely[k] = 640 if 'SquaredLog' in k else 240 if 'LogDelay' in k else 90000 if 'DelayTime' in k else 100
    out.append(likely)
    return out


def assign(base, names, values):
    t = dict(base)
    for k, v in zip(names, values):
        if v == MISSING:
            t.pop(k, None)
        else:
            t[k] = v
    return t


HUGE = [10 ** 15, -10 ** 15, 5 * 10 ** 17]


def all_once(ctx):
    n = 0
    for name in sorted(MODELS):
        model = MODELS[name]
        if name in ('packets', 'streams'):
            continue
        bases = backgrounds(model)
        for g in groups(model):
            values = VALUES + [MISSING]
            if len(g) > 4:
                values = VALUES if ctx.thorough else [-1000, 0, 7]
            for b, base in enumerate(bases):
                if len(g) > 3 and b not in (2, 4) and not ctx.thorough:
                    continue
                for vs in itertools.product(values, repeat=len(g)):
                    n += 1
                    if ctx.mine(n):
                        t = assign(base, g, vs)
                        ctx.state((name, sorted(t.items())))
                        once(ctx, name, model, t)
        # one or two counters out of the way, over plausible rounds
        known = sorted(labels(model))
        for k, l in itertools.combinations(known, 2):
            for vs in itertools.product(HUGE[:2] + [0, MISSING], repeat=2):
                n += 1
                if ctx.mine(n):
                    once(ctx, name, model, assign(bases[4], [k, l], vs))
        for k in known:
            for v in HUGE + [0, 1, -1, 2]:
                for base in bases:
                    for inertia in (None, [0.25, 0.75], [0.75, 0.25], [1.0, 1.0]):
                        n += 1
                        if ctx.mine(n):
                            once(ctx, name, model, assign(base, [k], [v]), inertia)


# ---- rounds one after another ------------------------------------------
_menus = {}


def menu(model):
    k = id(model)
    if k not in _menus:
        _menus[k] = make_menu(model)
    return _menus[k]


def make_menu(model):
    'the tallies of a round: uniform noise, single parts, plausible rounds'
    known = sorted(labels(model))
    out = backgrounds(model)
    for i, word in enumerate(('EmissionCount', 'TransitionCount', 'Delay', 'START', 'Active', 'Dwell', '+', '-')):
        hit = [k for k in known if (k.endswith(word) if len(word) == 1 else word in k)]
        if hit:
            out.append(dict((k, 50 if k in hit else -3) for k in known))
            out.append(dict((k, 50 if k not in hit else 0) for k in known))
    return out


def chain(ctx, name, path):
    'a sequence of rounds: the last model, or None'
    model = MODELS[name]
    for i in path:
        new = once_in_chain(ctx, name, model, i, path)
        if new is None:
            return None
        model = new
    return model


def once_in_chain(ctx, name, model, i, path):
    tally = menu(MODELS[name])[i]
    before = len(ctx.violations) if hasattr(ctx, 'violations') else 0
    probe = Probe(ctx)
    new = once(probe, name, model, tally)
    for key, msg in probe.found:
        ctx.violation('rounds/' + key, 'in round %d: %s' % (list(path).index(i) + 1, msg), {'kind': 'chain', 'model': name, 'path': list(path)})
    return new


class Probe(object):
    'collects what a check finds, to report it with the whole history'
    def __init__(self, ctx):
        self.ctx, self.found = ctx, []

    def violation(self, key, msg, case):
        self.found.append((key, msg))

    def __getattr__(self, k):
        return getattr(self.ctx, k)


def chains(ctx):
    depth = 4 if ctx.thorough else 3
    n = 0
    for name in ('both', 'mixed', 'ended'):
        size = len(menu(MODELS[name]))
        for first in range(size):
            for second in range(size):
                n += 1
                if ctx.mine(n):
                    m = chain(ctx, name, [first, second])
                    if m is None:
                        continue
                    frontier = [([first, second], m)]
                    for level in range(depth - 2):
                        nxt = []
                        for path, model in frontier:
                            for i in range(size if ctx.thorough else 7):
                                new = once_in_chain(ctx, name, model, i, path + [i])
                                if new is not None:
                                    ctx.state((name, path, i))
                                    nxt.append((path + [i], new))
                        frontier = nxt


# ---- through a tally server --------------------------------------------
class Server(object):
    def __init__(self, ctx, name, linked=False, noise=False, case=None):
        self.ctx, self.case = ctx, case
        F.reset()
        ENTROPY.gauss_hook = lambda mu, sigma: 0.0
        # the latest model is linked from the working directory
        if os.path.realpath(os.getcwd()) != os.path.realpath(F.SCRATCH):
            raise AssertionError('not in the scratch directory')
        for d in (F.results_dir(),):
            for f in os.listdir(d):
                os.remove(os.path.join(d, f))
        for f in os.listdir(F.SCRATCH):
            if 'traffic' in f:
                os.remove(os.path.join(F.SCRATCH, f))
        self.configured = MODELS[name]
        self.name = name
        F.write('model.json', json.dumps(self.configured))
        where = 'model.json'
        if linked:
            # an operator who iterates on the latest model
            os.symlink('model.json', 'traffic.model.latest.json')
            where = 'traffic.model.latest.json'
        self.linked = linked
        self.names = sorted(labels(self.configured))
        templates = sorted(set(p27.template(n, self.configured) for n in self.names))
        F.write_yaml('tnoise.yaml', {'counters': dict((t, {'sensitivity': 1.0, 'estimated_value': 10.0} if noise else {'sigma': 2.0}) for t in templates)})
        F.write_yaml('noise.yaml', {'privacy': {'epsilon': 0.3, 'delta': 0.001, 'excess_noise_ratio': 1.0}, 'counters': {'ExitStreamCount': {'sensitivity': 1.0, 'estimated_value': 100.0}}})
        self.args = dict(traffic_model=os.path.join(F.SCRATCH, where), traffic_noise=os.path.join(F.SCRATCH, 'tnoise.yaml'),
                         sigmas={'ExitStreamCount': {'sigma': 10.0}}, counter_bins={'ExitStreamCount': {'bins': [[0.0, INF]]}}, sk_threshold=1, collect_period=50)
        if noise:
            self.args['noise'] = os.path.join(F.SCRATCH, 'noise.yaml')
        self.ts = F.make_ts(**self.args)
        if self.ts.config is None:
            self.fail('refused', 'a tally server refused a valid model with noise for all of its counters')
        self.latest = self.configured

    def fail(self, key, msg):
        self.ctx.violation('server/' + key, msg, self.case)

    def read(self, start):
        got = [f for f in sorted(os.listdir(F.results_dir())) if f.startswith(start)]
        out = []
        for f in got:
            p = os.path.join(F.results_dir(), f)
            with open(p) as h:
                out.append(json.load(h))
            os.remove(p) if start == 'privcount.outcome' else None
        return out

    def round(self, tally, broken=False):
        'a whole round whose tallies are these: False if something was wrong'
        if self.ts.config is None:
            return False
        ts = self.ts
        CLOCK_STEP = 30 * F.DAY
        REACTOR.jump(CLOCK_STEP)
        model = self.latest if self.linked else self.configured
        uid = F.sk_digest(0)
        starts = F.ts_begin(ts, sks=1)
        conf = starts['dc0']
        if conf is None:
            self.fail('start', 'no round was started')
            return False
        if conf.get('traffic_model') != F.wire(model):
            self.fail('sent', 'the model sent to the collectors is not the configured one')
            return False
        missing = [n for n in self.names if n not in conf['counters']]
        if missing:
            self.fail('counters', 'a round of a model lacks its counter %s' % missing[0])
            return False
        ts.set_start_result('dc0', F.wire(dict((s, {'secret': 'x', 'dc_name': 'dc0'}) for s in conf['sharekeepers'])))
        REACTOR.jump(0.5)
        ts.set_client_status('dc0', F.dc_status('active'))
        ts.set_client_status(uid, F.sk_status(0))
        if ts.get_start_config(uid) is None:
            self.fail('keeper', 'the share keeper was not started')
            return False
        ts.set_start_result(uid, {})
        for i in range(8):
            REACTOR.jump(26)
            ts.set_client_status('dc0', F.dc_status('active'))
            ts.set_client_status(uid, F.sk_status(0, 'active'))
            if broken and i == 0:
                F.write('ts.yaml', 'tally_server: [')
            ts.refresh_loop()
            stop = ts.get_stop_config('dc0')
            if stop is not None:
                break
        else:
            self.fail('stop', 'the round did not end')
            return False
        from privcount.counter import counter_modulus
        q = counter_modulus()
        full = {}
        for k in conf['counters']:
            full[k] = {'bins': [b[:2] + [tally.get(k, 0) % q] for b in conf['counters'][k]['bins']]}
        ts.set_stop_result('dc0', F.wire({'Counts': full}))
        ts.get_stop_config(uid)
        ts.set_stop_result(uid, F.wire({'Counts': dict((k, {'bins': [b[:2] + [0] for b in v['bins']]}) for k, v in full.items())}))
        ts.set_client_status('dc0', F.dc_status())
        ts.set_client_status(uid, F.sk_status(0))
        REACTOR.jump(10)
        # a loop that ends the round may also begin the next
        ts.refresh_loop()
        outs = self.read('privcount.outcome')
        if len(outs) != 1:
            self.fail('results', '%d outcome files of a complete round' % len(outs))
            return False
        out = outs[0]
        new = out.get('UpdatedTrafficModel')
        w = judge(model, new) if new is not None else 'is missing'
        if w:
            self.fail('invalid', 'the updated model in the results of %s %s' % (brief(tally), w))
            return False
        got = dict((k, v['bins'][0][2]) for k, v in out['Tally'].items())
        w = differs(model, new, dict((k, tally.get(k, 0)) for k in self.names))
        if w:
            self.fail('amounts', 'the updated model in the results of %s %s' % (brief(tally), w))
            return False
        for where in ('model',):
            files = [f for f in sorted(os.listdir(F.results_dir())) if f.startswith('privcount.traffic.model')]
            if len(files) != 1:
                self.fail('file', '%d files of updated models after a round' % len(files))
                return False
            with open(os.path.join(F.results_dir(), files[0])) as h:
                if json.load(h) != new:
                    self.fail('file', 'the file of the updated model is not the model of the results')
                    return False
            with open('traffic.model.latest.json') as h:
                if json.load(h) != new:
                    self.fail('link', 'the latest model is not the updated one')
                    return False
            kept = os.path.join(F.SCRATCH, 'traffic.kept.json')
            shutil.copy(os.path.join(F.results_dir(), files[0]), kept)
            os.remove(os.path.join(F.results_dir(), files[0]))
            os.remove('traffic.model.latest.json')
            os.symlink(kept, 'traffic.model.latest.json')
        self.latest = new
        # the server, whose settings name the same model, still has that model
        said = out.get('Context', {}).get('TallyServer', {}).get('Config', {}).get('traffic_model')
        if isinstance(said, dict) and said != F.wire(model):
            self.fail('context', 'the results of a round name another model than the one it used')
            return False
        self.ctx.outcome(hash_of(json.dumps(new, sort_keys=True)))
        return True


def through(ctx, name, linked, tallies, broken, case):
    ctx.transition()
    ctx.trace()
    ctx.evaluation()
    ctx.state(case)
    s = Server(ctx, name, linked, case.get('noise', False), case)
    m = menu(MODELS[name])
    for j, i in enumerate(tallies):
        if not s.round(m[i], broken=broken and j == 0):
            return


def servers(ctx):
    n = 0
    for name in sorted(MODELS):
        size = len(menu(MODELS[name]))
        for linked, broken in ((False, False), (True, False), (False, True)):
            rounds = itertools.product(range(size), repeat=2) if ctx.thorough else [(i, (i * 5 + 3) % size) for i in range(size)]
            for seq in rounds:
                n += 1
                if ctx.mine(n):
                    through(ctx, name, linked, seq, broken, {'kind': 'server', 'model': name, 'linked': linked, 'broken': broken, 'seq': list(seq), 'noise': seq[0] == 4 and not broken})


def run(ctx):
    servers(ctx)
    all_once(ctx)
    chains(ctx)
    ctx.sample({'values': VALUES, 'huge': HUGE})


def replay(ctx, case):
    if case['kind'] == 'once':
        once(ctx, case['model'], MODELS[case['model']], case['tally'], case.get('inertia'))
    elif case['kind'] == 'chain':
        chain(ctx, case['model'], case['path'])
    else:
        through(ctx, case['model'], case['linked'], case['seq'], case['broken'], case)
