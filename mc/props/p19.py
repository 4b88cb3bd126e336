'''
P19: every history of edits to the files a tally server reads (settings, bins, noise,
lists, prefix maps, broken and half-written files), each followed by the server's
loop. What is in force afterwards is compared with what a freshly started server
loads from the same files, and with what the documentation says of each setting.
'''
import os
from collections import OrderedDict
from copy import deepcopy

import env
import fixtures as F
import yaml
from env import REACTOR, CLOCK, ENTROPY, HarnessExit
from explore import World, plain, search, replay_path

INF = float('inf')
ABSENT = '(absent)'
FP = F.FP_A
RESULTS = F.results_dir()
SHORT_SECRET = 'too short'


def path(name):
    return os.path.join(F.SCRATCH, name)


BINS = {'ExitStreamCount': {'bins': [[0.0, INF]]},
        'ExitStreamByteHistogram': {'bins': [[0.0, 512.0], [512.0, INF]]},
        'ExitDomainExactMatchWebInitialStreamCountList': {'bins': [[0.0, 1.0], [1.0, INF]]},
        'ExitDomainSuffixMatchWebInitialStreamCountList': {'bins': [[0.0, 1.0], [1.0, INF]]},
        'EntryConnectionCountryMatchCountList': {'bins': [[0.0, 1.0], [1.0, INF]]},
        'EntryConnectionASMatchCountList': {'bins': [[0.0, 1.0], [1.0, INF]]},
        'HSDir2StoreReasonCountList': {'bins': [[0.0, 1.0], [1.0, INF]]},
        'HSDir2FetchReasonCountList': {'bins': [[0.0, 1.0], [1.0, INF]]},
        'HSDir2StoreOnionAddressCountList': {'bins': [[0.0, 1.0], [1.0, INF]]},
        'OriginFailureCircuitReasonCountList': {'bins': [[0.0, 1.0], [1.0, INF]]}}
SIGMAS = dict((k, {'sigma': 10.0}) for k in BINS)
NOISE = {'privacy': {'epsilon': 0.3, 'delta': 0.001, 'excess_noise_ratio': 1.0}, 'counters': dict((k, {'sensitivity': 1.0, 'estimated_value': 100.0}) for k in BINS)}


def but(d, **kw):
    d = deepcopy(d)
    for k, v in kw.items():
        if v is ABSENT:
            del d[k]
        else:
            d[k] = v
    return d


def lots(d, keys):
    return dict((k, d[k]) for k in keys)


# settings: {name: ([valid values, the first is where we start], [invalid values])}
FIELDS = OrderedDict([
    ('continue', ([True, False, 0, 3, ABSENT], [-1, 'abc', [1], None, 1.5])),
    ('listen_port', ([20001, 20002], [0, -1, ABSENT, 'http'])),
    ('sk_threshold', ([1, 2], [0, -1, ABSENT, 'two', 1.5, None])),
    ('dc_threshold', ([1, 2], [0, -1, ABSENT, 'two', 1.5, 10 ** 6 + 1, None])),
    ('noise_weight', ([{'*': 1.0}, {FP: 1.0, F.FP_B: 0.5}], [{}, {'*': -1.0}, ABSENT, {FP: 2.0 ** 70}])),
    ('collect_period', ([100, 40], [0, -1, ABSENT, 'long', None])),
    ('event_period', ([10, 60, ABSENT], [0, -5, 'often'])),
    ('checkin_period', ([10, 60, ABSENT], [0, -5, 'often'])),
    ('delay_period', ([300, 0, -1, ABSENT], ['long', None])),
    ('always_delay', ([ABSENT, False, True], [1, 'yes', None])),
    ('sigma_decrease_tolerance', ([ABSENT, 1.0], [0.0, -1.0, 'high'])),
    ('start_after', ([ABSENT, '2017-08-01T00:00:00Z', '2037-01-01T00:00:00Z'], ['tomorrow', 5, '2018-13-01T00:00:00Z'])),
    ('circuit_sample_rate', ([ABSENT, 0.5, 0.0, 1.0], [-0.1, 1.1, 'x', None, INF])),
    ('max_cell_events_per_circuit', ([ABSENT, 25, -1], ['x', None])),
    ('results', ([RESULTS], [path('none')])),
    ('allocation', ([ABSENT, path('alloc.yaml')], [path('none/alloc.yaml')])),
    ('counter_name_accept', ([ABSENT, '', 'ExitStream'], ['('])),
    ('counter_name_reject', ([ABSENT, 'Byte', ''], ['('])),
    ('counters', ([path('bins.yaml')], [path('none.yaml'), ABSENT])),
    ('secret_handshake', ([path('secret.yaml')], [path('short.yaml')])),
    # a noise file takes precedence over sigmas
    ('noise', ([ABSENT, path('noise.yaml')], [path('none.yaml')])),
    ('sigmas', ([path('sigmas.yaml')], [path('none.yaml')])),
    ('reject_overlapping_lists', ([ABSENT, True, False], [1, 'no'])),
    # lists
    ('domain_files', ([['d0'], ['d0', 'd1'], ['d1', 'd0'], ['d1'], ABSENT, []], [['none.txt'], ['d0', 'none.txt']])),
    ('country_files', ([ABSENT, ['c0'], ['c0', 'c1']], [['d0']])),
    ('hsdir_store_files', ([ABSENT, ['r0'], ['r0', 'r1']], [['bad']])),
    ('hsdir_fetch_files', ([ABSENT, ['r0'], ['r1', 'r0']], [['bad']])),
    ('circuit_failure_files', ([ABSENT, ['r1', 'r0']], [['bad']])),
    ('onion_address_files', ([ABSENT, ['o0'], ['o0', 'o1']], [['r0']])),
    ('as', (['none', 'both', 'other'], ['lists only', 'maps only', 'one map', 'bad map', 'bad list'])),
])

# what stands in the other files, the same way; text or YAML
FILES = OrderedDict([
    ('bins.yaml', ([{'counters': BINS}, {'counters': but(BINS, ExitStreamByteHistogram={'bins': [[0.0, 1.0], [1.0, 2.0], [2.0, INF]]})}],
                   ['', '{', 'counters', {'counter': BINS}, {'counters': but(BINS, ExitStreamCounts={'bins': [[0.0, INF]]})},
                    {'counters': but(BINS, ExitStreamCount={'bins': [[0.0, 1.0], [1.0, 2.0]]})},
                    {'counters': but(BINS, ExitStreamByteHistogram={'bins': [[0.0, 2.0], [1.0, INF]]})}, {'counters': but(BINS, ExitStreamCount=ABSENT)}])),
    ('sigmas.yaml', ([{'counters': SIGMAS}, {'counters': but(SIGMAS, ExitStreamCount={'sigma': 5.0})}],
                     ['', '[', {'counters': but(SIGMAS, ExitStreamCount=ABSENT)}, {'counters': but(SIGMAS, ExitStreamCount={'sigma': -5.0})}, {'counters': but(SIGMAS, ExitStreamCount={})}])),
    ('noise.yaml', ([NOISE, but(NOISE, privacy={'epsilon': 0.6, 'delta': 0.001, 'excess_noise_ratio': 1.0})],
                    [{'counters': NOISE['counters']}, {'privacy': NOISE['privacy']}, but(NOISE, privacy={'epsilon': -1.0, 'delta': 0.001, 'excess_noise_ratio': 1.0}), ''])),
    ('d0', (['a.com\nb.org\n', 'b.org\na.com\n', ' A.com.\n# c\n', 'x.a.com\n\nb.org'], ['', '\n', 'a b\n'])),
    ('d1', (['c.net\n', 'd.net'], ['', '!\n'])),
    ('r0', (['success\n', 'ok\n'], [''])),
    ('c0', (['us\n'], ['usa\n'])),
    # the whole settings file
    ('ts.yaml', (['(settings)'], ['(none)', '', '{', 'text', 'null', '[]', '{other: {}}', '{tally_server: null}', '{tally_server: []}', '{tally_server: {}}', 'tally_server: {a: b', '\x00'])),
])
TEXTS = {'secret.yaml': F.SECRET, 'short.yaml': SHORT_SECRET, 'c1': 'de\nfr\n', 'r1': 'timeout\nnone\n', 'bad': 'a b\n',
         'o0': 'facebookcorewwwi\n', 'o1': 'abcdefghijklmnop\n', 'as0': '1234\n', 'as1': '1234\n99\n', 'as-bad': '12x\n', 'p4': '192.0.2.0\t24\t1234\n', 'p4b': '192.0.2.0\t24\t99\n', 'p6': '2001:db8::\t32\t1234\n', 'p-bad': '# nothing\n'}
AS = {'none': {}, 'both': {'as_files': ['as0'], 'as_prefix_files': {4: 'p4', 6: 'p6'}}, 'other': {'as_files': ['as0', 'as2'], 'as_prefix_files': {4: 'p4b', 6: 'p6'}},
      'lists only': {'as_files': ['as0']}, 'maps only': {'as_prefix_files': {4: 'p4', 6: 'p6'}}, 'one map': {'as_files': ['as0'], 'as_prefix_files': {4: 'p4'}},
      'bad map': {'as_files': ['as0'], 'as_prefix_files': {4: 'p-bad', 6: 'p6'}}, 'bad list': {'as_files': ['as-bad'], 'as_prefix_files': {4: 'p4', 6: 'p6'}}}
TEXTS['as2'] = '99\n'


def slots():
    for k, (good, bad) in list(FIELDS.items()) + list(FILES.items()):
        yield k, len(good), len(good) + len(bad)


def value(slot, i):
    good, bad = FIELDS.get(slot) or FILES[slot]
    return (good + bad)[i]


def is_good(slot, i):
    return i < len((FIELDS.get(slot) or FILES[slot])[0])


def settings(at):
    'the tally server section that the chosen values amount to'
    conf = {'key': F.sk_key(0), 'cert': F.sk_key(0)}
    for k in FIELDS:
        v = value(k, at[k])
        if k == 'as':
            v = AS[v]
            conf.update((f, dict((n, path(x)) for n, x in names.items()) if isinstance(names, dict) else [path(x) for x in names]) for f, names in v.items())
        elif v is ABSENT:
            pass
        elif k.endswith('_files'):
            conf[k] = [path(x) for x in v]
        else:
            conf[k] = v
    return conf


def write_all(at):
    for k, text in TEXTS.items():
        F.write(k, text)
    for k in FILES:
        write_file(k, at)


def write_file(k, at):
    v = value(k, at[k])
    if k == 'ts.yaml' and v == '(settings)':
        F.write_yaml('ts.yaml', {'tally_server': settings(at)})
    elif v == '(none)':
        os.remove(path(k))
        F._files.pop(path(k), None)
    elif isinstance(v, str):
        F.write(k, v)
    else:
        F.write_yaml(k, v)


def active(at):
    'the slots that matter'
    out = set(FIELDS)
    out.add('ts.yaml')
    if value('ts.yaml', at['ts.yaml']) != '(settings)':
        return set(['ts.yaml'])
    out.add('bins.yaml')
    if value('noise', at['noise']) is ABSENT:
        out.add('sigmas.yaml')
    else:
        out.discard('sigmas')
        out.add('noise.yaml')
    for k in FIELDS:
        if k.endswith('_files') and isinstance(value(k, at[k]), list):
            out.update(f for f in value(k, at[k]) if f in FILES)
    return out


def verdict(at):
    'True: valid. False: invalid. None: not predicted'
    on = active(at)
    accept, reject = value('counter_name_accept', at['counter_name_accept']), value('counter_name_reject', at['counter_name_reject'])
    filtered = accept not in (ABSENT, '') or reject not in (ABSENT, '')
    # one bad setting is enough, whatever the others. A filter may leave out the counter that is wrong
    for k in on:
        if not is_good(k, at[k]) and not (filtered and k in ('bins.yaml', 'sigmas.yaml', 'noise.yaml')):
            return False
    if filtered and at['bins.yaml'] or not all(is_good(k, at[k]) for k in on):
        return None
    if value('noise', at['noise']) is not ABSENT and value('circuit_sample_rate', at['circuit_sample_rate']) == 0.0:
        # no noise can be calculated for counters of which nothing is sampled
        return None
    w = value('noise_weight', at['noise_weight'])
    if '*' not in w and len(w) < value('dc_threshold', at['dc_threshold']):
        return False
    tolerance = value('sigma_decrease_tolerance', at['sigma_decrease_tolerance'])
    if value('noise', at['noise']) is not ABSENT and tolerance is not ABSENT and tolerance < 1e-6:
        return False
    return True


def expected(at):
    'what the documentation promises of the settings in force'
    want = {}
    get = lambda k: value(k, at[k])
    or_default = lambda k, d: d if get(k) is ABSENT else get(k)
    for k in ('listen_port', 'sk_threshold', 'dc_threshold', 'noise_weight', 'collect_period', 'results'):
        want[k] = get(k)
    want['continue'] = or_default('continue', False)
    half = get('collect_period') / 2
    want['event_period'] = min(or_default('event_period', 600), half)
    want['checkin_period'] = min(or_default('checkin_period', 600), half)
    d = or_default('delay_period', F.DAY)
    want['delay_period'] = F.DAY if d < 0 else d
    want['always_delay'] = or_default('always_delay', False)
    want['sigma_decrease_tolerance'] = or_default('sigma_decrease_tolerance', 1e-6)
    want['circuit_sample_rate'] = or_default('circuit_sample_rate', 1.0)
    want['max_cell_events_per_circuit'] = or_default('max_cell_events_per_circuit', -1)
    want['start_after_time'] = {ABSENT: 0, '2017-08-01T00:00:00Z': 1501545600, '2037-01-01T00:00:00Z': 2114380800}[get('start_after')]
    return want


def lists_expected(at):
    'the raw lists, and the number of bins of the counters that use them'
    get = lambda k: value(k, at[k])
    def entries(name, strip='', numbers=False):
        text = value(name, at[name]) if name in FILES else TEXTS[name]
        rows = [l.strip().lower() for l in text.splitlines() if l.strip() and not l.strip().startswith('#')]
        return [int(r) if numbers else r.strip(strip) if strip else r for r in rows]
    out = {}
    for files, lists, strip, counters in (('domain_files', 'domain_lists', '.', ('ExitDomainExactMatchWebInitialStreamCountList', 'ExitDomainSuffixMatchWebInitialStreamCountList')),
                                          ('country_files', 'country_lists', '', ('EntryConnectionCountryMatchCountList',)),
                                          ('hsdir_store_files', 'hsdir_store_lists', '', ('HSDir2StoreReasonCountList',)),
                                          ('hsdir_fetch_files', 'hsdir_fetch_lists', '', ('HSDir2FetchReasonCountList',)),
                                          ('circuit_failure_files', 'circuit_failure_lists', '', ('OriginFailureCircuitReasonCountList',)),
                                          ('onion_address_files', 'onion_address_lists', '', ('HSDir2StoreOnionAddressCountList',))):
        names = get(files)
        names = [] if names is ABSENT else names
        out[lists] = ([entries(n, strip) for n in names], counters)
    out['as'] = ([entries(n, numbers=True) for n in AS[get('as')].get('as_files', [])], ('EntryConnectionASMatchCountList',))
    return out


def fresh_load():
    'what a newly started server loads, or None'
    import privcount.counter as pc
    from privcount.tally_server import TallyServer
    table = getattr(pc, 'PRIVCOUNT_COUNTER_EVENTS', None)
    added = {}
    if table is not None:
        # another process does not know the counters of our traffic models
        added = dict((k, table.pop(k)) for k in set(table) - PRISTINE)
    try:
        ts = TallyServer(path('ts.yaml'))
        ts.refresh_config()
        return ts.config
    except Exception:
        return None
    finally:
        if table is not None:
            for k in set(table) - PRISTINE:
                del table[k]
            table.update(added)


def pristine():
    import privcount.counter as pc
    return set(getattr(pc, 'PRIVCOUNT_COUNTER_EVENTS', ()))

PRISTINE = pristine()
_fresh = {}


class Config(World):
    group = None            # the slots that are edited
    running = False
    frugal = False
    edits = 0
    begin = ()

    def __init__(self):
        World.__init__(self)
        F.reset()
        F.remember_counter_names()
        ENTROPY.gauss_hook = lambda mu, sigma: 0.0
        self.at = dict((k, 0) for k, _, _ in slots())
        for k, i in self.begin:
            self.at[k] = i
        write_all(self.at)
        from privcount.tally_server import TallyServer
        self.ts = TallyServer(path('ts.yaml'))
        self.ts.refresh_config()
        if self.ts.config is None:
            raise AssertionError('the first configuration was not accepted')
        self.accepted = dict(self.at)
        self.last = None
        if self.running:
            self.ts.set_client_status('dc0', F.dc_status())
            self.ts.set_client_status('dc1', F.dc_status())
            self.ts.set_client_status(F.sk_digest(0), F.sk_status(0))
            self.ts.refresh_loop()
            self.began = CLOCK.now
            self.offer = F.wire(self.ts.get_start_config('dc1'))
            if self.offer is None:
                raise AssertionError('no round')

    def ops(self):
        o = []
        for k, good, n in slots():
            if self.group is None or k in self.group:
                o += [[k, i] for i in range(n) if i != self.at[k]]
        if self.frugal:
            # two mistakes at once, and the other ways to make the same mistake in a changed
            # configuration, are left to the thorough tier
            good = dict((k, g) for k, g, _ in slots())
            wrong = [k for k in good if self.at[k] >= good[k]]
            if any(self.at[k] > good[k] for k in wrong):
                o = [[k, i] for k, i in o if k in wrong]
            elif self.edits:
                o = [[k, i] for k, i in o if k in wrong or i < good[k] + (not wrong)]
        return o

    def apply(self, op):
        REACTOR.jump(1.0)
        self.edits += 1
        self.edit(op)
        before = deepcopy(self.ts.config) if self.final else None
        try:
            self.ts.refresh_loop()
        except HarnessExit as e:
            self.fail('exit', 'the tally server stopped: %r' % e)
        except Exception as e:
            # an exception in the loop ends the process
            self.fail('exit', 'the tally server would end with %s: %s' % (type(e).__name__, e))
        if self.final:
            self.judge(op, before)

    def edit(self, op):
        self.at[op[0]] = op[1]
        if op[0] in FIELDS:
            if value('ts.yaml', self.at['ts.yaml']) == '(settings)':
                write_file('ts.yaml', self.at)
        else:
            write_file(op[0], self.at)

    def judge(self, op, before):
        now = self.ts.config
        # keyed on the text of the files: what a fresh start makes of them does not change
        key = tuple(sorted(self.at.items()))
        if key not in _fresh:
            if len(_fresh) > 5000:
                _fresh.clear()
            _fresh[key] = fresh_load()
        fresh = _fresh[key]
        ok = verdict(self.at)
        if ok is True and fresh is None:
            self.fail('valid-rejected-' + op[0], 'a fresh tally server rejects a valid configuration (%s = %r)' % (op[0], value(*op)))
        if ok is False and fresh is not None:
            self.fail('invalid-accepted-' + op[0], 'a fresh tally server accepts an invalid configuration: %r' % (
                [(k, value(k, i)) for k, i in sorted(self.at.items()) if not is_good(k, i)] or 'combination'))
        if fresh is None:
            if now != before:
                self.fail('partly-applied', 'a rejected edit of %s changed %r' % (op[0], differing(now, before)))
            self.last = 'rejected'
        else:
            if now != fresh:
                if now == before:
                    self.fail('not-applied', 'a valid configuration (%s = %r) did not come into force, a fresh start loads it' % (op[0], value(*op)))
                else:
                    self.fail('differs', 'in force differs from what a fresh start loads in %r' % differing(now, fresh))
            self.last = 'accepted'
        if ok and fresh is not None:
            self.contents(now)
        if self.running:
            self.judge_round()

    def contents(self, now):
        for k, v in sorted(expected(self.at).items()):
            if now.get(k, ABSENT) != v:
                self.fail('value-' + k, '%s in force is %r, configured is %r' % (k, now.get(k, ABSENT), v))
        get = lambda k: value(k, self.at[k])
        names = set(get('bins.yaml')['counters'])
        accept, reject = get('counter_name_accept'), get('counter_name_reject')
        if accept not in (ABSENT, ''):
            names = set(n for n in names if accept in n)
        if reject not in (ABSENT, ''):
            names = set(n for n in names if reject not in n)
        names.add('ZeroCount')
        if set(now['counters']) != names or set(now['noise']['counters']) != names:
            self.fail('counters', 'the counters in force are %r and %r, configured are %r' % (sorted(now['counters']), sorted(now['noise']['counters']), sorted(names)))
            return
        sized = {}
        for lists, (want, counters) in sorted(lists_expected(self.at).items()):
            got = now['as_data']['lists'] if lists == 'as' else now[lists]
            if lists == 'as':
                got, want = [sorted(l) for l in got], [sorted(l) for l in want]
            if got != want:
                self.fail('lists-' + lists, '%s in force are %r, the files say %r' % (lists, got, want))
            for c in counters:
                if want:
                    sized[c] = len(want) + 1
        for c in names - set(['ZeroCount']):
            bins = now['counters'][c]['bins']
            if c in sized:
                n = sized[c]
                if bins != [[float(i), float(i + 1)] for i in range(n - 1)] + [[float(n - 1), INF]]:
                    self.fail('list-bins', '%s has bins %r for %d lists' % (c, bins, n - 1))
            elif bins != get('bins.yaml')['counters'][c]['bins']:
                self.fail('bins', '%s has bins %r, configured are %r' % (c, bins, get('bins.yaml')['counters'][c]['bins']))
            if get('noise') is ABSENT:
                if now['noise']['counters'][c]['sigma'] != get('sigmas.yaml')['counters'][c]['sigma']:
                    self.fail('sigma', '%s has sigma %r, configured is %r' % (c, now['noise']['counters'][c], get('sigmas.yaml')['counters'][c]))
            elif now['noise']['privacy']['epsilon'] != get('noise.yaml')['privacy']['epsilon'] or not now['noise']['counters'][c]['sigma'] > 0:
                self.fail('noise', 'the noise in force is %r' % now['noise'])

    def judge_round(self):
        if self.ts.get_status()['state'] != 'active':
            self.fail('round', 'the round ended after an edit')
            return
        offer = F.wire(self.ts.get_start_config('dc1'))
        if offer != self.offer:
            self.fail('round', 'the running round changed in %r' % (differing(offer, self.offer) if offer else 'everything'))

    def finish(self):
        if not self.running:
            return
        REACTOR.jump(self.began + 99.5 - CLOCK.now)
        try:
            self.ts.refresh_loop()
            if self.ts.get_stop_config('dc1') is not None:
                self.fail('round-length', 'the running round ended before its 100 seconds')
            REACTOR.jump(1.0)
            self.ts.refresh_loop()
            if self.ts.get_stop_config('dc1') is None:
                self.fail('round-length', 'the running round did not end after its 100 seconds')
        except Exception as e:
            self.fail('exit', 'the tally server would end with %s: %s' % (type(e).__name__, e))

    def canon(self):
        return (sorted(self.at.items()), repr(sorted(self.ts.config.items())) if self.ts.config else None, self.running)

    def outcome(self):
        return self.last


def differing(a, b):
    if not isinstance(a, dict) or not isinstance(b, dict):
        return (a, b)
    return [(k, a.get(k, ABSENT), b.get(k, ABSENT)) for k in sorted(set(a) | set(b)) if a.get(k, ABSENT) != b.get(k, ABSENT)][:3]


LISTS = ('domain_files', 'd0', 'd1', 'reject_overlapping_lists', 'as')
WORLDS = {
    'all': {},
    'round': {'running': True},
    'lists': {'group': LISTS, 'begin': (('domain_files', 1),)},
}


def world(name):
    class W(Config):
        pass
    for k, v in WORLDS[name].items():
        setattr(W, k, v)
    return W


# ---- half-written files -------------------------------------------------------------
TORN = {
    'ts.yaml': (1, {'collect_period': 40, 'continue': 3, 'always_delay': True}, None),
    'sigmas.yaml': 1, 'bins.yaml': 1, 'd0': 0, 'p4': None,
}


def torn_texts():
    'what an editor was about to write, in the block style people use'
    at = dict((k, 0) for k, _, _ in slots())
    at['collect_period'], at['continue'], at['always_delay'], at['as'] = 1, 3, 2, 1
    block = lambda x: yaml.dump(x, default_flow_style=False)
    # a cut path is a path too, and missing keys and secrets are created: only relative
    # paths, so that every prefix of them stays in the scratch directory
    def relative(x):
        if isinstance(x, dict):
            return dict((k, relative(v)) for k, v in x.items())
        if isinstance(x, list):
            return [relative(v) for v in x]
        return x[len(F.SCRATCH):].lstrip('/') if isinstance(x, str) and x.startswith(F.SCRATCH) else x
    conf = relative(settings(at))
    conf['key'], conf['cert'] = 'torn-key.pem', 'torn-cert.pem'
    if not os.path.samefile(os.getcwd(), F.SCRATCH) or any('/' in v for v in conf.values() if isinstance(v, str)):
        raise AssertionError('paths outside the scratch directory')
    with open(F.sk_key(0)) as f:
        text = f.read()
    for name in ('torn-key.pem', 'torn-cert.pem'):
        with open(path(name), 'w') as f:
            f.write(text)
    small = ('ExitStreamCount', 'ExitStreamByteHistogram')
    return [('ts.yaml', block({'tally_server': conf})),
            ('bins.yaml', block({'counters': but(lots(BINS, small), ExitStreamByteHistogram={'bins': [[0.0, 1.0], [1.0, 2.0], [2.0, INF]]})})),
            ('sigmas.yaml', block({'counters': dict((k, {'sigma': 25.5}) for k in small)})),
            ('d0', 'one.com\ntwo.org\n# none\nthree.net\n'), ('p4', '192.0.2.0\t24\t1234\n198.51.100.0\t24\t99\n')]


def torn(ctx, case=None):
    'every length at which a write may have stopped, followed by the complete file'
    for name, text in torn_texts():
        step = 1 if ctx.thorough or not name.endswith('.yaml') else 4
        for n in range(0, len(text) + 1, step):
            c = {'torn': name, 'length': n}
            if case is not None and c != case or case is None and not ctx.mine():
                continue
            w = Config.__new__(Config)
            w.begin = (('as', 1),) if name == 'p4' else ()
            w.__init__()
            if name in ('bins.yaml', 'sigmas.yaml'):
                F.write_yaml('bins.yaml', {'counters': lots(BINS, ('ExitStreamCount', 'ExitStreamByteHistogram'))})
                F.write_yaml('sigmas.yaml', {'counters': lots(SIGMAS, ('ExitStreamCount', 'ExitStreamByteHistogram'))})
                w.ts.refresh_config()
            for piece in (text[:n], text):
                F.write(name, piece)
                before = deepcopy(w.ts.config)
                REACTOR.jump(1.0)
                try:
                    w.ts.refresh_loop()
                except Exception as e:
                    ctx.violation('exit-torn', 'the tally server would end with %s when %s is cut after %d bytes' % (type(e).__name__, name, n), c)
                    break
                fresh = fresh_load()
                want = before if fresh is None else fresh
                if w.ts.config != want:
                    ctx.violation('torn', '%s cut after %d bytes: in force differs in %r' % (name, n, differing(w.ts.config, want)), c)
                ctx.evaluation()
                ctx.outcome((name, fresh is not None))
            if fresh is None:
                ctx.violation('torn-complete', 'the complete %s was rejected' % name, c)


def run(ctx):
    ctx.counts['slots'] = len(list(slots())) if ctx.part == 0 else 0
    for name in WORLDS:
        WORLDS[name]['frugal'] = not ctx.thorough
    search(ctx, world('round'), 2 if ctx.thorough else 1, 'round', {'world': 'round'})
    search(ctx, world('lists'), 4 if ctx.thorough else 3, 'lists', {'world': 'lists'}, max_states=100000)
    search(ctx, world('all'), 3 if ctx.thorough else 2, 'all', {'world': 'all'}, max_states=400000)
    torn(ctx)


def replay(ctx, case):
    if 'torn' in case:
        return torn(ctx, plain(case))
    replay_path(ctx, world(case['world']), case)
