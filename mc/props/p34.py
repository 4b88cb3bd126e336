'''
P34: every history of client reports, silences, visits, version changes, threshold
edits and timer ticks on a real tally server with modelled clients. What the server
knows is modelled from the reports alone; when a round starts, who takes part in it
and what the status shows are judged against that.
'''
import env
import fixtures as F
from env import REACTOR, CLOCK
from explore import plain, search, replay_path
from server import Server, REFUSED


class Clients(Server):
    dcs, sks = ('dc0', 'dc1'), 1
    config = {'dc_threshold': 2, 'sk_threshold': 1}
    begin = ()

    def __init__(self):
        Server.__init__(self)
        self.last = None
        for op in self.begin:
            self.apply(list(op))

    def ops(self):
        o = []
        for n in self.names:
            o += [['report', n], ['visit', n], ['flip', n]]
            if self.is_dc(n):
                o += [['version', n, '1.0.1']]
        o += [['rtt', 'dc0'], ['tick', 1], ['tick', 60], ['tick', 71.4], ['tick', 71.6]]
        o += [['threshold', 'dc', d] for d in (1, 2) if d != self.conf['dc_threshold']]
        o += [['threshold', 'sk', d] for d in (1, 2) if d != self.conf['sk_threshold'] and self.sks > 1]
        return o

    def apply(self, op):
        REACTOR.jump(0.01)
        k = op[0]
        self.last = k
        if k == 'report':
            self.report(op[1])
        elif k == 'visit':
            self.last = (k, tuple(self.visit(op[1])))
        elif k == 'flip':
            # the client restarted, or runs a round this server knows nothing of
            self.truth[op[1]] = 'active' if self.truth[op[1]] == 'idle' else 'idle'
            self.report(op[1])
        elif k == 'version':
            self.version[op[1]] = op[2] if self.version[op[1]] != op[2] else '2.0.1'
            self.report(op[1])
        elif k == 'rtt':
            self.rtt[op[1]] = 5.0 if self.rtt[op[1]] == 0.5 else 0.5
            self.report(op[1])
        elif k == 'tick':
            REACTOR.jump(op[1] - 0.01)
            self.refresh()
        elif k == 'threshold':
            self.rewrite(**{op[1] + '_threshold': op[2]})
            REACTOR.jump(1.0)
            self.refresh()
        self.judge_status()

    def judge_start(self, now, started):
        dcs, sks = self.known('dc', 'idle'), self.known('sk', 'idle')
        want = self.enough()
        if started and not want:
            self.fail('started', 'a round started with idle collectors %r (%d required) and idle keepers %r (%d required)' % (
                dcs, self.conf['dc_threshold'], sks, self.conf['sk_threshold']))
        elif want and not started:
            self.fail('not-started', 'no round started with idle collectors %r and idle keepers %r' % (dcs, sks))
        if started:
            self.round = {'dcs': dcs, 'sks': sks, 'waiting': set(dcs)}
            offered = [n for n in self.names if self.ts.get_start_config(self.uids[n]) is not None]
            if offered != dcs:
                self.fail('offered', 'the round was offered to %r, the idle collectors are %r' % (offered, dcs))

    def on_start(self, name, conf):
        r = self.round
        if r is None or name not in r['dcs'] + r['sks']:
            self.fail('outsider', '%s was given a round it is no part of' % name)
        elif self.is_dc(name) and self.version[name] in REFUSED:
            self.fail('old-collector', '%s was given a round although it runs version %s' % (name, self.version[name]))
        elif self.is_dc(name):
            want = sorted(self.uids[k] for k in r['sks'])
            if sorted(conf['sharekeepers']) != want:
                self.fail('keepers', 'the collectors were told of keepers %r, the idle keepers are %r' % (sorted(conf['sharekeepers']), want))
            if conf['dc_threshold'] > len(r['dcs']):
                self.fail('threshold', 'a round of %d collectors has threshold %d' % (len(r['dcs']), conf['dc_threshold']))
            r['waiting'].discard(name)
        elif r['waiting']:
            self.fail('keeper-early', '%s was started before %r' % (name, sorted(r['waiting'])))

    def judge_status(self):
        s = self.ts.get_status()
        count = lambda kind, state: len(self.known(kind, state))
        want = {'dcs_idle': count('dc', 'idle'), 'dcs_active': count('dc', 'active'), 'sks_idle': count('sk', 'idle'), 'sks_active': count('sk', 'active')}
        want['dcs_total'] = want['dcs_idle'] + want['dcs_active']
        want['sks_total'] = want['sks_idle'] + want['sks_active']
        want['dcs_required'], want['sks_required'] = self.conf['dc_threshold'], self.conf['sk_threshold']
        for k in sorted(want):
            if s[k] != want[k]:
                self.fail('status-' + k, 'the server reports %s = %r, the reports amount to %r' % (k, s[k], want[k]))
        # a collector busy with a round the server does not know is told to stop, without counts
        if s['state'] == 'idle':
            for n in self.names:
                told = self.ts.get_stop_config(self.uids[n])
                busy = n in self.heard and self.heard[n]['state'] == 'active'
                if (told is not None) != busy or (told is not None and told['send_counters']):
                    self.fail('stale', '%s (last heard %r) was told %r outside any round' % (n, self.heard.get(n), told))

    def canon(self):
        return (self.ages(), sorted(self.truth.items()), sorted(self.version.items()), sorted(self.rtt.items()), sorted(self.conf.items()),
                self.round and (self.round['dcs'], self.round['sks'], sorted(self.round['waiting'])), self.hidden())

    def outcome(self):
        return (self.last, len(self.heard), self.round is not None)


ALL = (('report', 'dc0'), ('report', 'dc1'), ('report', 'sk0'))
WORLDS = {
    'none': {},
    'nearly': {'begin': ALL[1:]},
    'running': {'begin': ALL + (('tick', 1), ('visit', 'dc0'), ('visit', 'dc1'), ('visit', 'sk0'))},
    'started': {'begin': ALL + (('tick', 1),)},
    'keepers': {'dcs': ('dc0',), 'sks': 2, 'config': {'dc_threshold': 1, 'sk_threshold': 2}, 'begin': (('report', 'dc0'), ('report', 'sk0'))},
    'ending': {'begin': ALL + (('tick', 1), ('visit', 'dc0'), ('visit', 'dc1'), ('visit', 'sk0'), ('tick', 60), ('visit', 'dc0'))},
}


def world(name):
    class W(Clients):
        pass
    for k, v in WORLDS[name].items():
        setattr(W, k, v)
    return W


OK_VERSIONS = ('1.0.2', '1.0.10', '1.1.0', '2.0.1', '2.0.1 0123456789abcdef', '1.0.11', '11.0.1', '21.0.0')


def versions(ctx, case=None):
    'every version, for a new client and for one known before, of either kind'
    for n in ('dc0', 'sk0'):
        for v in REFUSED + OK_VERSIONS:
            for before in ('new', 'idle', 'active'):
                c = {'version': [n, v, before]}
                if case is not None and c != case or case is None and not ctx.mine():
                    continue
                w = world('keepers' if n == 'dc0' else 'none')()
                path = [['report', 'dc1'], ['report', 'sk1']]
                path = [p for p in path if p[1] in w.names]
                path += [] if before == 'new' else [['report', n]] if before == 'idle' else [['flip', n], ['flip', n]]
                for op in path + [['version', n, v], ['tick', 1], ['visit', n]]:
                    w.apply(op)
                ctx.evaluation()
                for key, message in w.failures:
                    ctx.violation(key, '%s (version %s of %s, known as %s)' % (message, v, n, before), c)


def run(ctx):
    versions(ctx)
    for name in sorted(WORLDS):
        search(ctx, world(name), 5 if ctx.thorough else 3, name, {'world': name}, max_states=60000)


def replay(ctx, case):
    if 'version' in case:
        return versions(ctx, plain(case))
    replay_path(ctx, world(case['world']), case)
