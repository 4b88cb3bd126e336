'''
The tor side of a control connection: what a relay would answer, and what it
was asked to do.
'''
import hmac
import hashlib
import json
from binascii import hexlify, unhexlify

import fixtures as F
from env import REACTOR, Transport, Addr

SERVER_KEY = 'Tor safe cookie authentication server-to-controller hash'
CLIENT_KEY = 'Tor safe cookie authentication controller-to-server hash'
PORT = 20003


def offered():
    'live control connections the collector asked for'
    return [c for c in REACTOR.connects if c.where[-1] == PORT]


class Tor(object):
    '''
    One control connection between a collector's aggregator and a relay that
    behaves as control-spec.txt says. Lines from the collector wait in inbox
    until the relay answers them.
    '''
    def __init__(self, agg, methods=('NULL',), password=None, cookie=None, cookie_file=None, fingerprint=F.FP_A, version='0.3.0.9', flags='Fast Running'):
        self.agg = agg
        self.methods, self.password, self.cookie, self.cookie_file = methods, password, cookie, cookie_file
        self.fingerprint, self.version, self.flags = fingerprint, version, flags
        self.inbox = []
        self.log = []           # every command received
        self.early = []         # commands before authentication, other than the ones that are allowed
        self.authenticated = False
        self.subscribed = []
        self.model = None
        self.options = {}
        self.left = False       # QUIT received
        self.nonce = chr(7) * 32
        self.protocol = agg.buildProtocol(Addr('127.0.0.1', PORT))
        self.transport = Transport()
        self.protocol.makeConnection(self.transport)
        self.collect()

    @property
    def open(self):
        return not self.transport.closed

    def collect(self):
        'take what the collector wrote'
        new = self.transport.take()
        self.log += new
        self.inbox += new
        return new

    def say(self, line):
        'send a line to the collector; what it wrote in return'
        self.protocol.dataReceived(line + '\r\n')
        return self.collect()

    def reply(self, command):
        'the lines a relay answers to a command'
        word, _, rest = command.partition(' ')
        if not self.authenticated and word not in ('PROTOCOLINFO', 'AUTHCHALLENGE', 'AUTHENTICATE', 'QUIT'):
            self.early.append(command)
            return ['514 Authentication required.']
        if word == 'PROTOCOLINFO':
            auth = '250-AUTH METHODS=' + ','.join(self.methods)
            if self.cookie_file is not None:
                auth += ' COOKIEFILE="%s"' % self.cookie_file.replace('\\', '\\\\').replace('"', '\\"')
            return ['250-PROTOCOLINFO 1', auth, '250-VERSION Tor="%s"' % self.version, '250 OK']
        if word == 'AUTHCHALLENGE':
            client = unhexlify(rest.split(' ')[1])
            h = hmac.new(SERVER_KEY, self.cookie + client + self.nonce, hashlib.sha256).digest()
            self.expect = hmac.new(CLIENT_KEY, self.cookie + client + self.nonce, hashlib.sha256).digest()
            return ['250 AUTHCHALLENGE SERVERHASH=%s SERVERNONCE=%s' % (hexlify(h).upper(), hexlify(self.nonce).upper())]
        if word == 'AUTHENTICATE':
            given = unhexlify(rest) if rest else ''
            if 'NULL' in self.methods or (self.password is not None and given == self.password) or \
               (self.cookie is not None and given in (self.cookie, getattr(self, 'expect', None))):
                self.authenticated = True
                return ['250 OK']
            return ['515 Authentication failed']
        if word == 'SETEVENTS':
            self.subscribed = rest.split()
            return ['250 OK']
        if word == 'SETCONF':
            k, _, v = rest.partition('=')
            self.options[k] = v
            return ['250 OK']
        if word == 'GETCONF':
            v = {'Nickname': 'relay', 'ORPort': '9001', 'DirPort': '9030', 'GeoIPFile': '/g', 'GeoIPv6File': '/g6',
                 'EnablePrivCount': self.options.get('EnablePrivCount', '0')}.get(rest)
            return ['250 %s=%s' % (rest, v)]
        if word == 'GETINFO':
            if rest.startswith('ns/id/'):
                return ['250+%s=' % rest, 'r relay A B', 's ' + self.flags, 'w Bandwidth=1', '.', '250 OK']
            v = {'version': self.version, 'address': '192.0.2.200', 'privcount-version': '2.0.1', 'fingerprint': self.fingerprint}[rest]
            return ['250-%s=%s' % (rest, v), '250 OK']
        if word == 'SET_TMODEL':
            flag, _, text = rest.partition(' ')
            self.model = text if flag == 'TRUE' else None
            return ['250 OK']
        if word == 'QUIT':
            self.left = True
            self.subscribed = []
            return ['250 closing connection']
        return ['510 Unrecognized command "%s"' % word]

    def answer(self):
        'answer the oldest command'
        for line in self.reply(self.inbox.pop(0)):
            if self.open:
                self.say(line)

    def settle(self):
        'answer everything'
        n = 0
        while self.inbox:
            n += 1
            if n > 1000:
                raise AssertionError('the control connection does not settle')
            self.answer()

    def event(self, words):
        'an event happens on the relay: delivered if the collector asked for it'
        if self.open and words[0] in self.subscribed:
            self.say('650 ' + ' '.join(words))
            self.settle()
            return True
        return False

    def lose(self):
        'the connection breaks'
        from twisted.internet.error import ConnectionLost
        from twisted.python.failure import Failure
        self.transport.closed = True
        self.protocol.connectionLost(Failure(ConnectionLost()))
        self.subscribed = []
