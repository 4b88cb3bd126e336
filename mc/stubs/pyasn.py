'''
A stand-in for pyasn (a C extension): longest-prefix lookup over lines of
"prefix<whitespace>asn". The same constructor and lookup() contract.
'''
import ipaddress

class pyasn(object):
    def __init__(self, ipasndb_file, as_names_file=None, ipasn_string=None):
        self._tables = {4: {}, 6: {}}
        if ipasndb_file is not None:
            with open(ipasndb_file) as f:
                text = f.read()
        else:
            text = ipasn_string
        self.records = 0
        for line in text.splitlines():
            line = line.strip()
            if not line or line[0] in ';#':
                continue
            parts = line.split()
            net = ipaddress.ip_network(unicode(parts[0]), strict=False)
            self._tables[net.version].setdefault(net.prefixlen, {})[int(net.network_address)] = (int(parts[1]), parts[0])
            self.records += 1

    def lookup(self, ip_address):
        ip = ipaddress.ip_address(unicode(ip_address))
        value, bits = int(ip), ip.max_prefixlen
        for plen in sorted(self._tables[ip.version], reverse=True):
            key = (value >> (bits - plen)) << (bits - plen)
            hit = self._tables[ip.version][plen].get(key)
            if hit is not None:
                return hit
        return (None, None)

    def __len__(self):
        return self.records
