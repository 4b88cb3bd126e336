'''
A real tally server with modelled clients: what the clients do is the harness's
choice, what the server knows of them is modelled from their reports alone.
'''
import datetime

import env
import fixtures as F
from env import ENTROPY, REACTOR, CLOCK
from explore import World

# the server puts its own bins and sigma on ZeroCount
NAME = 'ExitStreamCount'
ZERO = {NAME: {'bins': [[0.0, F.INF, 0]]}, 'ZeroCount': {'bins': [[float('-inf'), F.INF, 0]]}}
VERSION = '2.0.1'
REFUSED = ('1.0.0', '1.0.1', '1.0.1 0123456789abcdef', '1.0.0 (dirty)')


class Server(World):
    dcs, sks = ('dc0', 'dc1'), 2
    noise = {'base': {NAME: {'sigma': 10.0}}, 'other': {NAME: {'sigma': 5.0}}}
    config = {}
    checkin = 10.0

    def __init__(self):
        World.__init__(self)
        F.reset()
        F.remember_counter_names()
        ENTROPY.gauss_hook = lambda mu, sigma: 0.0
        self.conf = {'sk_threshold': 1, 'dc_threshold': 1, 'continue': True, 'delay_period': 300, 'collect_period': 50,
                     'event_period': 10, 'checkin_period': 10, 'noise_name': 'base'}
        self.conf.update(self.config)
        self.keepers = dict(('sk%d' % i, i) for i in range(self.sks))
        self.uids = dict((d, d) for d in self.dcs)
        self.uids.update((k, F.sk_digest(i)) for k, i in self.keepers.items())
        self.names = sorted(self.uids)
        self.truth = dict((n, 'idle') for n in self.names)      # what the client really does
        self.version = dict((n, VERSION) for n in self.names)
        self.rtt = dict((n, 0.5) for n in self.names)
        self.heard = {}         # {name: what the server last heard: {'state', 'alive', 'rtt'}}
        self.round = None
        self.completed = 0
        self.ts = F.make_ts(**self.ts_args())

    # -- configuration ---------------------------------------------------
    def ts_args(self):
        kw = dict(self.conf)
        kw['sigmas'] = self.noise[kw.pop('noise_name')]
        kw['counter_bins'] = {NAME: {'bins': [[0.0, F.INF]]}}
        after = kw.pop('after', None)
        args = {'sigmas': kw.pop('sigmas'), 'counter_bins': kw.pop('counter_bins')}
        args.update(kw)
        if after is not None:
            args['start_after'] = datetime.datetime.utcfromtimestamp(after).strftime('%Y-%m-%dT%H:%M:%SZ')
        return args

    def rewrite(self, **kw):
        self.conf.update(kw)
        F.write_yaml('ts.yaml', F.ts_config('ts', **self.ts_args()))

    # -- clients -----------------------------------------------------------
    def is_dc(self, name):
        return name in self.dcs

    def report(self, name):
        'a status, as the protocol hands it over'
        uid = self.uids[name]
        kw = {'privcount_version': self.version[name], 'rtt': self.rtt[name], 'name': uid}
        if self.is_dc(name):
            status = F.dc_status(self.truth[name], **kw)
        else:
            status = F.sk_status(self.keepers[name], self.truth[name], **kw)
        self.ts.set_client_status(uid, F.wire(status))
        if self.is_dc(name) and self.version[name] in REFUSED:
            self.heard.pop(name, None)
        else:
            self.heard[name] = {'state': self.truth[name], 'alive': CLOCK.now, 'rtt': self.rtt[name]}

    def visit(self, name, refuse=False, counts=True):
        'a client checks in and obeys until there is nothing to do: [what it was told]'
        uid = self.uids[name]
        told = []
        for i in range(4):
            self.report(name)
            stop = self.ts.get_stop_config(uid)
            if stop is not None:
                stop = F.wire(stop)
                told.append('stop')
                self.on_stop(name, stop)
                wanted = stop['send_counters'] and self.truth[name] == 'active' and counts
                self.truth[name] = 'idle'
                self.returned(name, wanted)
                self.ts.set_stop_result(uid, F.wire({'Counts': ZERO} if wanted else {}))
                continue
            start = self.ts.get_start_config(uid)
            if start is None:
                return told
            start = F.wire(start)
            told.append('start')
            self.on_start(name, start)
            if refuse:
                self.ts.set_start_result(uid, None)
                return told
            self.truth[name] = 'active'
            if self.is_dc(name):
                self.ts.set_start_result(uid, F.wire(dict((s, {'secret': 'x', 'dc_name': name}) for s in start['sharekeepers'])))
            else:
                self.ts.set_start_result(uid, {})
        return told

    def on_start(self, name, conf):
        pass

    def on_stop(self, name, conf):
        pass

    def returned(self, name, counts):
        pass

    # -- the server's loop ---------------------------------------------------
    def patience(self, name):
        return 7 * self.checkin + self.heard[name]['rtt'] + 1.0

    def refresh(self):
        now = CLOCK.now
        before = self.ts.get_status()['state']
        self.ts.refresh_loop()
        for name in list(self.heard):
            if now - self.heard[name]['alive'] > self.patience(name):
                del self.heard[name]
        after = self.ts.get_status()['state']
        if before == 'active' and after == 'idle':
            self.completed += 1
            self.ended(now)
            self.round = None
        elif before == 'idle':
            self.judge_start(now, after == 'active')

    def ended(self, now):
        pass

    def known(self, kind, state):
        return [n for n in self.names if self.is_dc(n) == (kind == 'dc') and n in self.heard and self.heard[n]['state'] == state]

    def enough(self):
        return len(self.known('dc', 'idle')) >= self.conf['dc_threshold'] and len(self.known('sk', 'idle')) >= self.conf['sk_threshold']

    def judge_start(self, now, started):
        raise NotImplementedError

    def hidden(self):
        cp = self.ts.collection_phase
        return (F.shallow(self.ts, ('config', 'collection_phase', 'clients', 'config_filepath')), cp and F.shallow(cp, ('tally_server_config', 'tally_server_status', 'client_status')))

    def ages(self):
        return tuple((n, h['state'], round(min(CLOCK.now - h['alive'], 80), 2), h['rtt']) for n, h in sorted(self.heard.items()))
