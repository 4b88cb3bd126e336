'''
A network of real privcount nodes: a tally server, data collectors and share
keepers, whose connections deliver one line at a time, when the harness says so.
'''
import json
import os

import env
import fixtures as F
from env import ENTROPY, REACTOR, CLOCK, EXITS, HarnessExit, Transport, Addr


def clear_results():
    d = F.results_dir()
    for f in os.listdir(d):
        os.remove(os.path.join(d, f))


def stream_event():
    now = CLOCK.now
    return 'PRIVCOUNT_STREAM_ENDED 1 2 3 80 10 20 {} {} 198.51.100.1 0 0'.format(now - 1, now).split()


class Wire(object):
    'one connection from a client to the tally server; the handshake is done at once'
    def __init__(self, net, name):
        self.net, self.name = net, name
        self.open = True
        self.s = net.ts.buildProtocol(Addr('127.0.0.1', 40001))
        self.c = net.clients[name].buildProtocol(Addr('127.0.0.1', 20001))
        self.ts, self.tc = Transport(), Transport()
        self.to_c, self.to_s = [], []
        self.c.makeConnection(self.tc)
        self.s.makeConnection(self.ts)
        self.collect()
        while self.to_c and self.to_c[0].startswith('HANDSHAKE') or self.to_s and self.to_s[0].startswith('HANDSHAKE'):
            self.deliver()

    def collect(self):
        # what was written before closing still arrives
        self.to_c += self.ts.take()
        self.to_s += self.tc.take()

    def pending(self):
        'the next line in flight'
        return ('c', self.to_c[0]) if self.to_c else ('s', self.to_s[0]) if self.to_s else None

    def deliver(self):
        'returns what was delivered'
        side, line = self.pending()
        if side == 'c':
            self.to_c.pop(0)
            self.c.dataReceived(line + '\r\n')
        else:
            self.to_s.pop(0)
            self.s.dataReceived(line + '\r\n')
        self.collect()
        if (self.ts.closed or self.tc.closed) and self.pending() is None:
            self.lose()
        return side, line

    def lose(self):
        if self.open:
            self.open = False
            self.to_c, self.to_s = [], []
            from twisted.internet import error
            from twisted.python import failure
            for p in (self.s, self.c):
                p.connectionLost(failure.Failure(error.ConnectionDone()))


class Net(object):
    '''
    ts: the tally server; clients: {name: node}; wires: {name: open connection}
    Hooks for the harness: sent(name, line) for what the server puts on the wire,
    delivered(name, side, line).
    '''
    TICK = 10

    def __init__(self, dcs, sks, cheap=False, **kw):
        from cryptography.hazmat.primitives.asymmetric import rsa
        rsa.CHEAP = cheap
        F.reset()
        clear_results()
        self.dcs = ['dc%d' % i for i in range(dcs)]
        self.sks = [F.sk_digest(i) for i in range(sks)]
        self.names = self.dcs + self.sks
        self.kw = dict(event_period=10, checkin_period=10, collect_period=50, dc_threshold=dcs, sk_threshold=sks)
        self.kw.update(kw)
        self.n_sks = sks
        self.clients = {}
        self.wires = {}
        self.make_server()
        for n in self.names:
            self.make_client(n)

    def make_server(self):
        self.ts = F.make_ts('net', **self.kw)

    def make_client(self, name):
        self.clients[name] = F.make_dc(name, sks=self.n_sks) if name in self.dcs else F.make_sk(self.sks.index(name))

    # what the harness may do
    def connect(self, name):
        w = self.wires[name] = Wire(self, name)
        if w.to_c:
            self.sent(name, w.to_c[0])

    def step(self, name):
        'open a connection, or deliver the next line; returns what was delivered'
        REACTOR.advance(0.01)
        if name not in self.wires:
            self.connect(name)
            return None
        w = self.wires[name]
        before = len(w.to_c)
        r = w.deliver()
        if r[0] == 's':
            for line in w.to_c[before:]:
                self.sent(name, line)
        if r[0] == 'c' and r[1].startswith('CHECKIN'):
            # the harness decides when clients check in
            t = self.clients[name].get_checkin_task()
            if t is not None and t.running:
                t.stop()
        if not w.open:
            del self.wires[name]
        self.delivered(name, *r)
        return r

    def visit(self, name, most=20):
        'let a client check in, until neither side has anything more to say (or for so many lines)'
        self.step(name)
        while most and name in self.wires and self.wires[name].pending():
            most -= 1
            self.step(name)

    def lose(self, name):
        w = self.wires.pop(name, None)
        if w is not None:
            w.lose()

    def crash(self, name):
        self.lose(name)
        self.make_client(name)

    def crash_server(self):
        for n in sorted(self.wires):
            self.lose(n)
        self.make_server()

    def tick(self, seconds=None):
        REACTOR.advance(self.TICK if seconds is None else seconds)
        self.ts.refresh_loop()

    def results(self):
        'what was published since the last time: {file name: content}'
        d = F.results_dir()
        out = {}
        for f in sorted(os.listdir(d)):
            with open(os.path.join(d, f)) as h:
                out[f] = json.load(h)
            os.remove(os.path.join(d, f))
        return out

    # hooks
    def sent(self, name, line):
        pass

    def delivered(self, name, side, line):
        pass


_memo = {}

def remember_keys():
    'reading the same key files again and again dominates: keep what the real functions returned'
    import sys
    import privcount.crypto as crypto
    import privcount.data_collector, privcount.share_keeper, privcount.tally_server
    for name in ('get_public_digest', 'get_serialized_public_key', 'get_public_digest_string', 'load_public_key_string', 'load_private_key_file'):
        real = getattr(crypto, name, None)
        if real is None or name in _memo:
            continue
        known = _memo[name] = {}

        # the name and the function are bound per iteration
        def make(real=real, known=known):
            def remembering(*a, **k):
                key = (a, tuple(sorted(k.items())))
                if key not in known:
                    known[key] = real(*a, **k)
                return known[key]
            return remembering
        f = make()
        for n, m in list(sys.modules.items()):
            if n.startswith('privcount') and n != 'privcount.crypto' and getattr(m, name, None) is real:
                setattr(m, name, f)
