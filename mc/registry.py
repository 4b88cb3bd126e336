'''The properties that have checks.'''

COMMON_ASSUMPTIONS = [
    'Python 2 semantics as implemented by Jython 2.7.3',
    'cryptography, pyasn and TLS are stand-ins (mc/stubs, mc/lib/env.py); Twisted 16.4.1, PyYAML and privcount are the real code',
]

CHECKS = {}

def check(prop, module=None, **spec):
    spec['module'] = module or prop.lower()
    CHECKS[prop] = spec

check('P01', jobs=4, level='model_checking', technique='exhaustive enumeration of random draws, histories and report orders on the real counters',
      bounds={'quick': 'small moduli with every blinding draw; the real modulus with boundary draws'},
      note='')
check('P02', jobs=4, level='model_checking', technique='exhaustive enumeration of the random source: exact view distributions compared',
      bounds={'quick': 'moduli 1-33 and 63-65'}, note='')
check('P03', jobs=8, level='model_checking', technique='explicit-state search over collector histories plus exhaustive noise draws',
      bounds={'quick': 'histories to depth 5'}, note='')
NOT_APPLICABLE = {}
check('P05', jobs=8, level='model_checking', technique='explicit-state search of a network attacker against the real protocol objects',
      bounds={'quick': 'attacker moves to depth 5 over two server and two client connections'}, note='')
check('P09', jobs=4, level='model_checking', technique='explicit-state search of command histories on the real share keeper',
      bounds={'quick': 'all histories of 19 commands to depth 3'}, note='')
check('P10', jobs=8, level='model_checking', technique='explicit-state search of command, timer and connection histories on the real data collector',
      bounds={'quick': 'histories to depth 3 from four starting points (up to 8 operations)'}, note='')
check('P13', jobs=4, level='model_checking', technique='exhaustive enumeration of bin layouts, boundary values and increment sequences on the real counters',
      bounds={'quick': 'up to 4 bins over 6 edges, values on and beside every edge, 11 increments; sequences of 2 over three counters'}, note='')
check('P08', jobs=8, level='model_checking', technique='explicit-state search of round histories on the real delay tracker, share keeper and data collector',
      bounds={'quick': 'delay tracker: histories of 3 operations over ten noise allocations and every setting; nodes: histories of 3 operations, and of 4 after a first round'}, note='')
check('P12', jobs=4, level='model_checking', technique='exhaustive enumeration of small configurations against the documented rules, on the real checks and nodes',
      bounds={'quick': 'up to 3 bins over 5 edges, 3 weights of 9 values with 7 thresholds, all pairs of changes to a start command'}, note='')
check('P15', jobs=4, level='model_checking', technique='exhaustive enumeration of data structures, single-byte changes and swaps through the real encryption',
      bounds={'quick': 'structures to depth 2 over 18 leaves, every byte of a message replaced (3 ways), dropped, cut or flipped, every swap of two messages under three keys'},
      assumptions=['RSA-OAEP and AES are the JDK\'s; the Fernet construction is re-implemented in mc/stubs'], note='')
check('P16', jobs=8, level='model_checking', technique='exhaustive enumeration of small list collections and files, from the matching functions to a real collector\'s counters',
      bounds={'quick': 'up to 3 lists of up to 2 entries, every file of up to 2 lines, six kinds of list from configuration to counter'}, note='')
check('P17', jobs=8, level='model_checking', technique='exhaustive enumeration of small domain list collections and probes, from the suffix tree to a real collector\'s counters',
      bounds={'quick': 'up to 2 lists of up to 2 of 8 entries, and 3 lists of one, against 27 domains; configuration to counter with 13 lists in pairs and triples'}, note='')
check('P21', jobs=8, level='model_checking', technique='exhaustive enumeration of stream events and of stream and circuit-end sequences on a real collector holding every exit stream counter',
      bounds={'quick': 'every port below 1024 and near a class boundary (thorough: every port); every combination of field classes; every pair of 7 amounts each way; sequences of 3 of 24 operations over three circuits'}, note='')
check('P24', jobs=8, level='model_checking', technique='exhaustive enumeration of store and fetch events on a real collector holding every HSDir store and fetch counter',
      bounds={'quick': 'every combination of classes with up to 4 values per amount, every combination of amounts, every single invalid field'}, note='')
check('P23', jobs=8, level='model_checking', technique='exhaustive enumeration of connection events, and of entry circuit and rotation sequences, on a real collector',
      bounds={'quick': 'every combination of classes, every pair of 5 amounts each way, every single invalid field; sequences of 4 of 11 circuit ends and rotations over three clients'}, note='')
check('P22', jobs=8, level='model_checking', technique='exhaustive enumeration of circuit-close events on a real collector holding every circuit counter',
      bounds={'quick': 'every combination of position, purpose, role, version, outcome and activity; every pair of 9 cell counts; every reason and lifetime; every single invalid field'}, note='')
check('P20', jobs=8, level='model_checking', technique='exhaustive enumeration of single and paired field mutations and of malformed word runs for every event type, on a real collector holding every counter',
      bounds={'quick': 'every field of every event x 70 hostile values, all pairs of mandatory fields x 5 values, every run of up to 2 extra words', 'thorough': 'all pairs of fields, runs of 3'}, note='')
check('P26', jobs=8, level='model_checking', technique='exhaustive enumeration of counters, counter family combinations, start-up paths and event sequences on real collectors with a modelled relay',
      bounds={'quick': 'every counter alone; combinations of 9 families over 7 start-up paths (a sixth of the middle sizes); every class of event on a collector of all counters; sequences of 3 of 13 events', 'thorough': 'every combination and path; sequences of 4'}, note='')
check('P06', jobs=8, level='model_checking', technique='explicit-state search of relay replies and client commands against the real control protocols, with exhaustive enumeration of offers, secret files and strings',
      bounds={'quick': 'replies of 38 kinds to depth 4 (3 with an invalid or no password); every set of methods x 8 cookie files x 8 passwords with an honest relay; client commands to depth 4; strings to length 4 over 8 characters'}, note='')
check('P07', jobs=8, level='model_checking', technique='explicit-state search of round, connection, relay answer, event and loss histories on the real data collector with a modelled relay',
      bounds={'quick': 'histories to depth 3 of up to 34 operations from 11 starting points (up to 12 operations)', 'thorough': 'depth 5'}, note='')
check('P11', jobs=8, level='model_checking', technique='deviation-bounded exploration of message, crash, loss and timing schedules over real tally server, collectors and keepers',
      bounds={'quick': 'every single deviation at every message of an undisturbed round', 'thorough': 'every pair of deviations'}, note='')
check('P34', jobs=8, level='model_checking', technique='explicit-state search of client report, silence, version, threshold and timer histories on a real tally server with modelled clients',
      bounds={'quick': 'histories to depth 3 of about 20 operations from 6 starting points (up to 8 operations)', 'thorough': 'depth 5'}, note='')
check('P33', jobs=8, level='model_checking', technique='explicit-state search of round, outcome, absence and configuration histories on a real tally server with modelled clients',
      bounds={'quick': 'histories to depth 3 of about 17 operations from 5 starting points (up to 4 operations); every continue setting to 7 with 0-9 completed rounds', 'thorough': 'depth 5'}, note='')
check('P19', jobs=8, level='model_checking', technique='explicit-state search of configuration edit histories, and exhaustive enumeration of half-written files, on a real tally server against a fresh one',
      bounds={'quick': 'every edit of 38 settings and files (58 valid and 114 invalid values) and every pair of edits except pairs of mistakes (one mistake per setting as the second edit), triples of list edits, every edit during a round, every byte (YAML files: every fourth) at which a write may stop', 'thorough': 'all triples of edits, list edits to depth 4, every pair during a round, every byte'}, note='')
check('P40', jobs=8, level='model_checking', technique='explicit-state search of configuration edit histories on real data collectors and share keepers against fresh ones; exhaustive enumeration of connection settings',
      bounds={'quick': 'all pairs of edits of every setting of both kinds of client (about 40 valid and 60 invalid values); all 1408 connection items over an alphabet, and pairs of items', 'thorough': 'all triples of edits, all pairs of items'}, note='')
check('P41', jobs=8, level='model_checking', technique='exhaustive enumeration of the lines, line sequences and short byte strings an unauthenticated peer can send at each step of a round of real nodes',
      bounds={'quick': '787 lines, every pair of them that leaves the connection open, all strings of up to 3 of 6 bytes cut everywhere; on the tally server, the collector and the keeper, at each of 18 steps of a round', 'thorough': '2041 lines, sequences of three, strings of 4 bytes'}, note='')
check('P42', jobs=8, level='model_checking', technique='exhaustive enumeration of sequences of rounds of real nodes and of the crash points of writing their results',
      bounds={'quick': '1-2 collectors and keepers, 6 ways to end each of two rounds, 6 kinds of match lists; every file operation (torn writes in thirds) of a second model round, 5 models, with and without moving the results', 'thorough': 'every kind of list with everything, all pairs of tallies'}, note='')
check('P29', jobs=8, level='model_checking', technique='exhaustive enumeration of noise configurations on a grid, judged by an independent computation of the privacy bound',
      bounds={'quick': '2880 single-counter, 7680 two-counter and several hundred larger or re-read configurations', 'thorough': 'all two-counter configurations of the grid, up to 5 counters'}, note='')
check('P27', jobs=8, level='model_checking', technique='exhaustive enumeration of state/observation/delay paths over small traffic models on a real collector, against a direct count',
      bounds={'quick': '4 models: every path to length 3 over up to 17 observations with their delays, to length 5 over one delay and incomplete observations, to length 3 with foreign states; every delay around the rounding points; 17 malformed paths; every counter alone and left out', 'thorough': 'length 4 over all delays, 7 over one'}, note='')
check('P28', jobs=8, level='model_checking', technique='exhaustive enumeration of tallies over small traffic models, of sequences of rounds, and of rounds of a real tally server',
      bounds={'quick': '5 models: all assignments of 5 values to the counters of each state (3 values to 6 counters) over plausible and uniform rounds, every pair of extreme counters, sequences of 3 of about 17 rounds, two rounds of a tally server for each', 'thorough': '4 values to 6 counters, sequences of 4, all pairs of server rounds'}, note='')
check('P37', jobs=8, level='model_checking', technique='exhaustive enumeration of small event logs, windows and gaps, and explicit-state search of client command and timer histories, on the real injector',
      bounds={'quick': 'every event type, pair of types x 4 gaps, sequences of 3-4 x 4 gaps x 7 windows, blank lines, with and without pauses; client histories to depth 6 over 10 operations; the shipped log', 'thorough': 'sequences of 5, client histories to depth 9'}, note='')
check('P43', jobs=8, level='model_checking', technique='explicit-state search of the histories of a real client\'s connections to a real tally server, with recovery from every state reached',
      bounds={'quick': 'collector and keeper, from 4 starting points (fresh, known, collecting, after an outage): histories to depth 3-4 over accept, refuse, deliver, lose, drop, timers, waiting, server restart (with the same or another check-in period) and the other client; then up to 3660 s of recovery and 5 check-in periods', 'thorough': 'one operation deeper'}, note='')
check('P44', jobs=8, level='model_checking', technique='explicit-state search of the histories of a real collector\'s control connections under twisted\'s reconnection, with recovery or quiet checked from every state reached',
      bounds={'quick': '5 pairs of endpoint configurations and an invalid one, from 4 starting points (idle, collecting, tor away, a second round): histories to depth 3-4; then up to 3610 s of recovery, or 7200 s of quiet', 'thorough': 'one operation deeper'}, note='')
check('P45', jobs=8, level='model_checking', technique='explicit-state search of the histories of starts, reloads, removals and crashes at every file operation (torn writes) of real nodes that create their own keys',
      bounds={'quick': 'server and keeper, with named and default files, stopped or running at first, and clients: histories to depth 3-4 with a crash at each of up to 22 file operations, torn writes in thirds; two undisturbed starts and an authentication from every state', 'thorough': 'one operation deeper'}, note='')
