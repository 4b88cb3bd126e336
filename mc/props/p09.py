'''
P09: every history of START and STOP commands given to a real share keeper.

The shares are made by real collectors' counters, encrypted for the keeper. The
oracle knows the plain shares: what the keeper returns has to be their exact
negated sum modulo q, for the round last accepted, once.
'''
import json
from copy import deepcopy

import env
import fixtures as F
from env import ENTROPY, REACTOR, HarnessExit
from explore import World, search, replay_path
from privcount.counter import SecureCounters, counter_modulus, combine_counters
from privcount.crypto import encrypt, load_public_key_string

Q = counter_modulus()
OTHER_BINS = {'ZeroCount': {'bins': [[0.0, F.INF]]},
              'ExitStreamByteHistogram': {'bins': [[0.0, 1.0], [1.0, 2.0], [2.0, F.INF]]}}
OTHER_SIGMAS = {'ZeroCount': {'sigma': 5.0}, 'ExitStreamByteHistogram': {'sigma': 20.0}}
ROUNDS = {'A': (F.BINS, F.SIGMAS, 2), 'B': (OTHER_BINS, OTHER_SIGMAS, 1), 'C': (F.BINS, F.SIGMAS, 1)}


def make_shares(name, key=0, bins=None):
    'plain and encrypted shares of the data collectors of a round'
    b, s, n = ROUNDS[name]
    b = bins or b
    out, plain = [], []
    for i in range(n):
        ENTROPY.reset(1000 + 10 * ord(name) + i + (5 if bins else 0))
        counters = SecureCounters(combine_counters(b, s), Q)
        counters.generate_blinding_shares([F.sk_digest(0)])
        share = F.wire(counters.detach_blinding_shares()[F.sk_digest(0)])
        plain.append(dict((k, [long(x[2]) for x in v['bins']]) for k, v in share['secret'].items()))
        share['secret'] = encrypt(load_public_key_string(F.sk_pub(key)), share['secret'])
        share['dc_name'] = 'dc%d' % i
        out.append(F.wire(share))
    return out, plain

GOOD = dict((k, make_shares(k)) for k in ROUNDS)
WRONGKEY = make_shares('A', key=1)[0]
WRONGBINS = make_shares('A', bins=OTHER_BINS)[0]


def start(name, shares, n):
    b, s, _ = ROUNDS[name]
    c = F.start_config(counters=deepcopy(b), noise={'counters': deepcopy(s)}, collect_period=100 + n)
    del c['sharekeepers']
    c['shares'] = deepcopy(shares)
    return F.wire(c)


def tampered(share):
    'one character of the longest ciphertext changed'
    t = deepcopy(share)
    field = max(t['secret'], key=lambda k: len(t['secret'][k]))
    v = t['secret'][field]
    i = len(v) // 2
    t['secret'][field] = v[:i] + ('A' if v[i] != 'A' else 'B') + v[i + 1:]
    return t


class Keeper(World):
    def __init__(self):
        World.__init__(self)
        F.reset()
        self.sk = F.make_sk(0)
        self.current = None     # (round, plain shares, accepted at)
        self.n = 0
        self.last = None
        self.rounds = 0

    OPS = ['start-A', 'start-B', 'start-C', 'start-wrongkey', 'start-wrongkey2', 'start-wrongbins', 'start-wrongbins2', 'start-tampered2',
           'start-noshares', 'start-missing', 'start-badbins', 'start-badweights', 'start-badsigma', 'start-emptylist',
           'stop', 'stop-unwanted', 'stop-default', 'checkin', 'status']

    def ops(self):
        return self.OPS

    def config(self, v):
        n = self.n
        a = GOOD['A'][0]
        if v in ROUNDS:
            return start(v, GOOD[v][0], n), v
        if v == 'wrongkey':
            return start('A', WRONGKEY, n), None
        if v == 'wrongkey2':
            return start('A', [a[0], WRONGKEY[1]], n), None
        if v == 'wrongbins':
            return start('A', WRONGBINS, n), None
        if v == 'wrongbins2':
            return start('A', [a[0], WRONGBINS[1]], n), None
        if v == 'tampered2':
            return start('A', [a[0], tampered(a[1])], n), None
        if v == 'emptylist':
            return start('A', [], n), 'empty'
        c = start('A', a, n)
        if v == 'noshares':
            del c['shares']
        elif v == 'missing':
            del c['collect_period']
        elif v == 'badbins':
            c['counters']['ExitStreamByteHistogram']['bins'] = [[0.0, 1024.0], [512.0, float('inf')]]
        elif v == 'badweights':
            c['noise_weight'] = {'*': -1.0}
        elif v == 'badsigma':
            c['noise']['counters']['ZeroCount']['sigma'] = -5.0
        return c, None

    def apply(self, op):
        REACTOR.jump(0.25)
        self.n += 1
        if op.startswith('start-'):
            config, valid = self.config(op[6:])
            sent = deepcopy(config)
            died = False
            try:
                r = self.sk.do_start(config)
            except HarnessExit:
                died, r = True, None
            except Exception:
                # the protocol ends the process when a command raises
                died, r = True, None
            if valid == 'empty' and r is not None:
                self.current = ('empty', [], env.CLOCK.now)
            elif valid in ROUNDS:
                if r is None:
                    self.fail('valid-refused', 'a proper START was refused')
                    return
                self.current = (valid, GOOD[valid][1], env.CLOCK.now)
                self.rounds += 1
            elif r is not None:
                self.fail('invalid-accepted', 'START %s was accepted' % op[6:])
                return
            if r is not None:
                self.no_secrets(r, 'START')
            self.last = (op, r is not None, died)
            if died:
                # whatever the process remembered is gone; but nothing may have changed before
                self.check_state(op)
                self.sk = F.make_sk(0)
                self.current = None
        elif op.startswith('stop'):
            want = op == 'stop'
            r = self.sk.do_stop({'send_counters': want} if op != 'stop-default' else {})
            r = F.wire(r)
            counts = r.get('Counts')
            cur, self.current = self.current, None
            self.last = (op, counts is not None)
            if counts is not None and not want:
                self.fail('unwanted-counts', 'counts were returned although they were not wanted')
            elif counts is not None and cur is None:
                self.fail('counts-without-round', 'counts were returned without an accepted round')
            elif cur is not None and want:
                if counts is None:
                    self.fail('counts-missing', 'no counts were returned for round %s' % cur[0])
                else:
                    self.check_counts(counts, cur)
                    t = r['Config'].get('Time', {})
                    if t.get('Start') != cur[2] or t.get('Stop') != env.CLOCK.now:
                        self.fail('round-times', 'the round took from %r to %r, reported: %r' % (cur[2], env.CLOCK.now, t))
            self.no_secrets(r, 'STOP', cur)
        elif op == 'checkin':
            self.sk.do_checkin()
            self.last = (op,)
        elif op == 'status':
            self.no_secrets(self.sk.get_status(), 'STATUS')
            self.last = (op,)
        self.check_state(op)

    def check_state(self, op):
        state = self.sk.get_status()['state']
        want = 'active' if self.current is not None else 'idle'
        if state != want:
            self.fail('wrong-state', 'the share keeper says it is %s, expected %s' % (state, want))

    def check_counts(self, counts, cur):
        b, _, _ = ROUNDS.get(cur[0], ROUNDS['A'])
        want = {}
        for k in b:
            want[k] = [(-sum(s[k][j] for s in cur[1])) % Q for j in range(len(b[k]['bins']))]
        got = dict((k, [long(x[2]) % Q for x in v['bins']]) for k, v in counts.items())
        if got != want:
            self.fail('wrong-sum', 'round %s: returned %r, the negated sum of its shares is %r' % (cur[0], got, want))

    def no_secrets(self, reply, what, cur=None):
        # the wanted sum of a single share is its negated value: look everywhere else
        text = json.dumps(dict((k, v) for k, v in reply.items() if k != 'Counts'))
        sums = json.dumps(reply.get('Counts'))
        for name, (_, plain) in GOOD.items():
            for s in plain:
                for row in s.values():
                    for v in row:
                        if str(v) in text or str((Q - v) % Q) in text or str(v) in sums:
                            self.fail('secret-revealed', 'the reply to %s contains a plain blinding value' % what)
                            return

    def canon(self):
        k = self.sk.keystore if hasattr(self.sk, 'keystore') else None
        content = None
        if k is not None and getattr(k, 'counters', None):
            content = sorted((n, [x[2] for x in v['bins']]) for n, v in k.counters.items())
        return (F.shallow(self.sk, ('config', 'start_config', 'collect_period')), self.current and self.current[0], content, self.rounds > 0)

    def outcome(self):
        return self.last


def run(ctx):
    search(ctx, Keeper, 6 if ctx.thorough else 3, 'keeper', {'kind': 'history'})


def replay(ctx, case):
    replay_path(ctx, Keeper, case)
