#!/usr/bin/env python3
'''The properties; writes /verif/properties.jsonl'''
import json
import os

P = []

def prop(id, title, statement, over, text, why, files, mechanism, observe, state=()):
    P.append({'id': id, 'title': title, 'statement': ' '.join(statement.split()),
              'quantifier': {'over': over, 'text': ' '.join(text.split())},
              'why_tests_cant': ' '.join(why.split()),
              'anchors': {'files': files,
                          'mechanism': [{'name': n, 'where': w} for n, w in mechanism],
                          'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in state],
                          'observe_at': observe, 'hook_needed': None}})

prop('P01', 'The published tally equals the collectors\' counts plus their noise',
     '''For every set of data collectors and share keepers, every layout of counters and bins, every sequence of
     increments and every choice of blinding and noise values, the value the tally server computes for each bin is
     exactly the sum of that bin's increments and noise over all collectors, as a signed number, in whatever order the
     reports are combined, as long as its magnitude is below half the modulus. The signed representation inverts
     reduction by the modulus for every value, and a report or share whose counters or bins do not match is refused
     rather than added.''',
     ['inputs', 'histories'],
     'all blinding draws for small moduli, boundary draws for the real one; 1-3 collectors x 1-3 keepers; all report orders; all small layouts',
     '''test_counter.py runs a handful of random rounds with 1-2 collectors; no test enumerates blinding values,
     report orders or layouts together.''',
     ['privcount/counter.py'],
     [('blind / unblind / tally', 'counter.py SecureCounters'), ('adjust_count_signed', 'counter.py')],
     ['SecureCounters.tally_counters + detach_counts'])

prop('P02', 'A collector\'s report is independent of its counts unless all keepers collude',
     '''For every pair of true count vectors, the joint distribution of what a data collector publishes together with the
     shares of all but one share keeper is identical, and the joint view of the tally server with all keepers but one
     depends only on the total over collectors. Each blinding value is sampled uniformly from the whole modulus range
     using fresh system randomness for every collector, keeper, counter, bin and round.''',
     ['inputs', 'schedules'],
     'every sequence of random-source answers for small moduli, all pairs of count vectors, 1-2 collectors, 1-4 keepers, each choice of the honest keeper',
     'A distribution over all random outcomes cannot be observed by tests that sample a few runs; test_random.py is statistical only.',
     ['privcount/counter.py'],
     [('rejection sampling', 'counter.py sample()'), ('per-bin blinding factors', 'counter.py SecureCounters.generate_blinding_shares')],
     ['published counts and shares under an enumerated random source'])

prop('P03', 'No counts leave a collector without exactly one noise value per bin',
     '''In every history of start, timer, fingerprint, event, reconnect and stop operations, a data collector returns counts
     only if the counts are wanted and every bin contains exactly one independent draw from a zero-mean Gaussian with
     standard deviation sigma times this relay's noise weight (its own weight, or else the default weight). If the tally
     server gave it no weight it returns no counts at all, and counts cannot be taken before noise was added.''',
     ['histories', 'inputs'],
     'all operation histories to a depth over start/tick/fingerprints/events/reconnect/stop for five noise-weight maps; all combinations of draws from a value set for small layouts',
     'test_counter.py only calls generate_noise once per round; no test drives the data collector life cycle.',
     ['privcount/counter.py', 'privcount/data_collector.py'],
     [('noise pending flag', 'counter.py SecureCounters.detach_counts'), ('generate_noise on first fingerprint, or at stop', 'data_collector.py Aggregator')],
     ['DataCollector.do_stop reply, with blinding removed using the keepers\' keys'])

prop('P05', 'Only peers that prove knowledge of the shared secret get past the handshake',
     '''The tally server treats a connection as authenticated only after the peer sent, on that connection, a handshake answer
     whose HMAC covers this connection's server cookie under the shared secret, followed by the success message; a client
     does so only after the server proved knowledge of the secret for this connection's cookies. Before that no command or
     status is acted upon or revealed, over-long lines and any wrong, out-of-order, replayed, reflected or wrong-role message
     close the connection, and honest peers with the same secret always complete.''',
     ['schedules', 'inputs', 'histories'],
     'all message sequences to a depth from an attacker that can replay, relay, reflect and recombine every token seen on concurrent honest sessions',
     'No stable test touches the handshake.',
     ['privcount/protocol.py', 'privcount/crypto.py'],
     [('handshake 1-4', 'protocol.py PrivCountProtocol'), ('line length limit before authentication', 'protocol.py MAX_LENGTH')],
     ['lines sent, factory calls made, connection closed'])

prop('P06', 'Tor control port authentication never reveals or misuses a secret',
     '''A data collector's control connection issues commands that follow authentication, apart from switching events off as it leaves, only after tor accepted an
     authentication method it actually offered; with cookie authentication it proves itself only to a tor whose server hash
     shows knowledge of the same 32-byte cookie for this exchange's nonces, uses only a cookie or password of valid length, and
     never sends the raw cookie; the event injector likewise serves a client only after the client proved the password or cookie. String and nonce encodings round-trip for every value, and invalid encodings or lengths are
     rejected.''',
     ['inputs', 'histories'],
     'all server replies from a menu of correct, wrong, malformed and out-of-order lines at every step of authentication; all auth method combinations; all short strings over an alphabet with quotes and backslashes',
     'test_tor_ctl_event.py needs a live tor; no stable test runs the control protocol.',
     ['privcount/protocol.py'],
     [('SAFECOOKIE / HASHEDPASSWORD / NULL', 'protocol.py TorControlClientProtocol'), ('string encoding', 'protocol.py TorControlProtocol')],
     ['commands written to the control connection'])

prop('P07', 'Tor events are requested and counted only while a round is being collected',
     '''Over every history of connecting, discovery replies, collection start, collection stop, errors and reconnects, a data
     collector subscribes to exactly the events its counters need and counts an event only while authenticated, fully set up and
     collecting; unknown or asynchronous replies never advance the set-up out of order. When collection stops or the connection
     is left, event delivery is turned off and later events change nothing.''',
     ['histories', 'schedules'],
     'all interleavings to a depth of control replies (valid, failed, unexpected), collection start and stop, and connection loss',
     'No stable test runs the control protocol state machine.',
     ['privcount/protocol.py', 'privcount/data_collector.py'],
     [('connection state machine', 'protocol.py TorControlClientProtocol')],
     ['SETEVENTS/SETCONF lines written; events delivered to the aggregator'])

prop('P08', 'A round starts only after the enforced delay since the last different round',
     '''For every history of rounds, successful or not, with any noise allocations, delay periods and tolerances, a round with a
     different noise allocation (added or removed counters, or a standard deviation decreased beyond the tolerance, relative to the allocation that the current series of rounds started with) is permitted only
     after the delay period since the last successful round ended; without such a change it is permitted at once unless
     always-delay is set. A chain of small changes cannot escape the delay, failed rounds do not extend or reset it, and a
     permitted start time is never later than required.''',
     ['histories', 'configurations'],
     'all sequences of rounds to a depth over an alphabet of allocations, times and outcomes, against a reference model',
     'test_counter.py samples a few transitions of the delay logic; creep needs specific multi-round histories.',
     ['privcount/counter.py', 'privcount/node.py'],
     [('CollectionDelay', 'counter.py')],
     ['CollectionDelay.round_start_permitted / get_next_round_start_time'])

prop('P09', 'A share keeper answers each round with exactly the sum of that round\'s shares',
     '''Over every history of start and stop commands (valid, malformed, undecryptable, mismatched, repeated, delayed), what a share
     keeper returns at stop is the exact inverse sum of the shares of the round it last accepted, once, and only if counts are
     wanted; a refused start leaves no counts behind and never mixes shares of different rounds. Plain-text secrets are never part
     of any reply.''',
     ['histories', 'fault_sequences'],
     'all command histories to a depth over valid and faulty START/STOP variants',
     'No stable test instantiates a share keeper.',
     ['privcount/share_keeper.py', 'privcount/node.py'],
     [('do_start / do_stop', 'share_keeper.py')],
     ['replies to START and STOP, status'])

prop('P10', 'A data collector only serves rounds for its configured share keepers',
     '''A data collector accepts a start command only if it is complete and valid, names exactly the configured share keeper keys, and
     no round is running; otherwise it refuses gracefully and keeps the running round unchanged. An accepted start encrypts each
     keeper's shares so that only that keeper can read them, counting begins no earlier than the commanded delay and never for a
     round already stopped, and each round's counts are sent at most once with the true start and stop times.''',
     ['histories', 'configurations', 'fault_sequences'],
     'all command histories to a depth over valid and faulty START/STOP variants, timers, check-ins and control events',
     'No stable test instantiates a data collector.',
     ['privcount/data_collector.py', 'privcount/node.py', 'privcount/crypto.py'],
     [('do_start / do_stop / deferred start', 'data_collector.py DataCollector')],
     ['replies to START and STOP, shares decrypted with each key'])

prop('P11', 'A round publishes results exactly when every participant\'s counts are in',
     '''In every interleaving of check-ins, message deliveries, losses, reconnects, duplicate messages, refusals and timeouts between a
     tally server, its data collectors and share keepers (each client using one connection at a time), a tally is published only if every data collector and share keeper that
     took part returned its counts for that same round, and then equals the sum over exactly those collectors. Any failed or
     missing participant yields no tally for that round, participants are never mixed across rounds, and the number of
     collectors is never below the threshold.''',
     ['schedules', 'fault_sequences', 'histories'],
     'all interleavings to a bounded depth of one tally server, 1-2 data collectors and 1-2 share keepers with message faults',
     'The integration test needs live processes and real time and runs one schedule; it is not among the stable tests.',
     ['privcount/tally_server.py', 'privcount/data_collector.py', 'privcount/share_keeper.py', 'privcount/protocol.py'],
     [('CollectionPhase state machine', 'tally_server.py'), ('client state', 'tally_server.py TallyServer')],
     ['the files written by the tally server, the messages on the wire'])

prop('P12', 'Invalid round configurations are always rejected',
     '''Every bins, sigmas, noise-weight and threshold configuration that violates the documented rules (unknown or missing counters,
     overlapping, empty or inverted bins, bins that do not match the counter type, non-positive or oversized thresholds, negative
     sigmas, negative or excessive weights, too few weights for the threshold) is rejected by the nodes' checks, and every valid
     one is accepted.''',
     ['configurations', 'inputs'],
     'all configurations over a small alphabet of bin edges, sigmas, weights, thresholds and counter names, against a reference validator',
     'test_counter.py covers a few dozen hand-picked configurations.',
     ['privcount/counter.py', 'privcount/node.py', 'doc/CounterChecks.markdown'],
     [('check_bins_config, check_sigmas_config, check_noise_weight_config', 'counter.py')],
     ['return values of the check functions and of START handling'])

prop('P13', 'Every counted value lands in exactly the right bin',
     '''Incrementing a counter adds the whole increment to exactly the one bin whose range contains the value (lower edge inclusive,
     upper edge exclusive, infinity in the last bin), to no bin if none contains it, and never to another counter; unknown
     counters are ignored. Fractional increments and misuse of single-bin counters are refused rather than miscounted.''',
     ['inputs', 'configurations'],
     'all values on, just below and just above every edge for all small bin layouts, all increment sizes in a set, all sequences of two increments',
     'test_counter.py increments a few fixed values.',
     ['privcount/counter.py'],
     [('SecureCounters.increment / is_in_bin', 'counter.py')],
     ['counts after blinding is removed'])

prop('P15', 'Encrypted shares round-trip, and tampered or misdirected ones are rejected',
     '''Every data structure a node sends survives encryption, transport and decryption by the intended private key unchanged. Any
     single-byte change, truncation, swap of ciphertext parts between messages or use of another key makes decryption fail
     rather than return other data; encoded lengths always match the base64 length formula.''',
     ['inputs', 'fault_sequences'],
     'a set of structures x every byte position flipped x every truncation x every key/part swap',
     'test_encryption.py is not among the stable tests and tries round trips only.',
     ['privcount/crypto.py'],
     [('encrypt / decrypt', 'crypto.py')],
     ['decrypt results'])

prop('P16', 'Exact-match lists classify every item into the first list that contains it',
     '''For every collection of match lists, a searched item is reported in the bin of the one list that contains it and as unmatched
     otherwise, regardless of case and of white space around list entries; overlapping entries are either rejected or kept only in the
     earliest list, as configured.''',
     ['inputs', 'configurations'],
     'all collections of up to three lists of up to two entries over a small alphabet and all search strings to a length, against set membership',
     'test_counter_match.sh is a benchmark outside the stable tests.',
     ['privcount/match.py'],
     [('exact_match', 'match.py')],
     ['bin returned by the match functions'])

prop('P17', 'Domain suffix matching finds a list entry exactly when one is a parent domain',
     '''For every collection of domain lists, a domain matches the list holding its (shortest kept) suffix if and only if it equals or is a subdomain
     of an entry, matching whole labels only and ignoring case; overlapping suffixes across lists are rejected or resolved
     deterministically in favour of the shorter suffix or the earlier list.''',
     ['inputs', 'configurations'],
     'all collections of up to three lists of up to two domains of up to three labels over a small label set, and all searched domains, against a label-wise reference',
     'No stable test exercises suffix matching.',
     ['privcount/match.py'],
     [('suffix_match', 'match.py')],
     ['bin returned by suffix_match'])

prop('P19', 'The tally server only ever runs a complete valid configuration',
     '''After every history of configuration file edits and refreshes, the configuration in force equals what a freshly started tally server
     would load from the last valid files; an invalid or incomplete change is rejected as a whole and leaves the previous
     configuration and the running round untouched.''',
     ['histories', 'configurations'],
     'all edit/refresh sequences to a depth over valid and invalid variants of each configuration file, differential against a fresh server',
     'No stable test refreshes a configuration.',
     ['privcount/tally_server.py', 'privcount/statistics_noise.py', 'privcount/match.py'],
     [('refresh_config', 'tally_server.py')],
     ['TallyServer.config after refresh'])

prop('P20', 'Malformed tor events are ignored and never corrupt counters',
     '''For every event line, well-formed or not, the data collector either counts it fully, ignores it, or rejects it (which ends the control connection): no
     exception, no counter changed by a malformed event, and duplicate, missing, out-of-range or mistyped fields are treated as malformed.
     Well-formed fields (64-bit integers, finite times) parse to exactly their value.''',
     ['inputs'],
     'every event type with every field removed, duplicated, emptied or replaced by each value of a hostile value set, and all pairs for required fields',
     'test_event_match.sh only checks that events exist; no test sends malformed events.',
     ['privcount/tagged_event.py', 'privcount/data_collector.py'],
     [('parse_tagged_event, is_*_valid, get_*_value', 'tagged_event.py')],
     ['counter values before and after the event'])

prop('P21', 'Exit stream counters account for every stream consistently',
     '''Each valid stream-end event is counted exactly once in the all-streams counters and in exactly one class of each partition (port class,
     initial or subsequent, active or not, address or hostname, matched or unmatched domain list), with byte counts, ratios,
     lifetimes and circuit gaps in the bins of their true values; streams that carried no data are not counted.''',
     ['inputs', 'histories'],
     'all combinations of port class, flags, hosts, byte counts, times and match-list shapes, and event sequences on shared circuits, against a name-driven reference',
     'No stable test feeds stream events to the collector.',
     ['privcount/data_collector.py'],
     [('_handle_stream_event', 'data_collector.py')],
     ['increments made by each event'])

prop('P22', 'Circuit-close counters account for every circuit consistently',
     '''Each valid circuit-close event increments exactly the counters whose name describes it: one position (origin, entry, mid, end, ...),
     one purpose and service class, active or inactive by its cell counts, succeeded or failed, with cell counts, ratio and
     lifetime in their true bins; an exit flag on a circuit with another purpose is disregarded.''',
     ['inputs'],
     'all combinations of position, purpose, cell count, failure and client fields from small domains, against a name-driven reference',
     'No stable test feeds circuit events to the collector.',
     ['privcount/data_collector.py'],
     [('_handle_circuit_close_event', 'data_collector.py')],
     ['increments made by each event'])

prop('P23', 'Connection-close and client address counters account consistently',
     '''Each valid connection-close event is counted once in the totals and in exactly one class of each partition (by relay count, country
     match, AS match), with bytes, circuits, lifetime and overlap in their true bins. Each client address of an entry circuit is counted once per
     rotation window in the client address counters, with its circuits.''',
     ['inputs'],
     'all combinations of field values from small domains and match list shapes, against a name-driven reference',
     'No stable test feeds connection events to the collector.',
     ['privcount/data_collector.py'],
     [('_handle_connection_close_event', 'data_collector.py')],
     ['increments made by each event'])

prop('P24', 'HSDir store and fetch counters account for every request consistently',
     '''Each valid onion service directory store or fetch event is counted once in the totals for its protocol version and in exactly one
     class of each partition the counters describe (accepted or rejected, found or not, client authentication, cached, address and
     reason lists), with descriptor sizes, introduction points and ages in their true bins.''',
     ['inputs'],
     'all combinations of field values from small domains and match list shapes, against a name-driven reference',
     'No stable test feeds HSDir events to the collector.',
     ['privcount/data_collector.py'],
     [('_handle_hsdir_store_event, _handle_hsdir_fetch_event', 'data_collector.py')],
     ['increments made by each event'])

prop('P26', 'A collector always subscribes to the events its counters need',
     '''For every set of counters, the events a data collector subscribes to are exactly those whose handling can change one of those
     counters, on every control connection of the round.''',
     ['configurations', 'inputs'],
     'every known counter alone and every event of the enumerated event spaces: the counters an event changes all list it',
     'test_event_match.sh compares name lists in the source, not which events change which counters.',
     ['privcount/counter.py', 'privcount/data_collector.py', 'privcount/protocol.py'],
     [('PRIVCOUNT_COUNTERS table, get_events_for_counters', 'counter.py')],
     ['SETEVENTS lists against observed increments'])

prop('P27', 'Traffic model counters count each observed path exactly',
     '''For every traffic model and every path of states, observations and delays a tor relay reports, the collector's counters change exactly as the path says: one more stream
     (packet paths) or circuit (stream paths), one start in the first state, each emission and each transition counted once in the total and in its own counter, and each delay added to the
     total and own counters its observation has (its rounded natural logarithm and the square of that for packets and dwelling streams, the delay itself for active streams). Counters not
     in the round, and states not in the model, change no other counter; a malformed path changes nothing. A model's counters are exactly those its paths can change, and a round can collect all of them.''',
     ['inputs'],
     'all paths to a length over small models, against a direct count',
     'test_traffic_model.py runs one fixed model on a sample.',
     ['privcount/traffic_model.py'],
     [('increment_packets / increment_streams counters', 'traffic_model.py')],
     ['increments made on the counters'])

prop('P28', 'An updated traffic model is always a valid model',
     '''For every valid traffic model, every set of tallied counts (zero, negative, huge or missing ones included) and every sequence of rounds, updating the model
     yields a model of the same shape that passes the model validity checks: non-negative probabilities that sum to one, and usable delay parameters. Each probability and delay
     parameter with positive tallies moves from its old value towards the tallied one by the inertia. A tally server writes that model with
     the results, links the latest model to it, and keeps using the model it was configured with.''',
     ['inputs', 'histories'],
     'all count assignments from {missing, negative, zero, small, large} to the counters of small models, sequences of updates, and rounds of a tally server',
     'test_traffic_model.py updates one model from one tally.',
     ['privcount/traffic_model.py', 'privcount/tally_server.py'],
     [('update_from_tallies', 'traffic_model.py'), ('get_updated_traffic_model, write_results', 'tally_server.py')],
     ['the updated model'])

prop('P29', 'The noise allocation always satisfies the configured privacy budget',
     '''For every valid noise configuration, the allocated standard deviations give every counter a positive share of epsilon, the shares sum to at
     most the configured epsilon (within tolerance), each counter satisfies the differential privacy bound for its sensitivity and
     share, and the expected noise ratio is equalised as documented.''',
     ['configurations'],
     'all configurations over grids of epsilon, delta, sensitivities, estimates, excess noise ratio and counter subsets',
     'compute_noise.py is run once on one configuration.',
     ['privcount/statistics_noise.py'],
     [('get_noise_allocation', 'statistics_noise.py')],
     ['allocation returned'])

prop('P33', 'Exactly the configured number of rounds is collected',
     '''For every continue setting, round outcome history and configuration change, the tally server starts a new round if and only if fewer rounds
     than configured have completed, enough clients are idle and the enforced delay has passed; the reported remaining and total
     rounds agree with what it does.''',
     ['histories', 'configurations'],
     'all values of the setting, completed counts and states; all histories of outcomes to a depth',
     'test_counter.py does not cover round counting in the server.',
     ['privcount/node.py', 'privcount/tally_server.py'],
     [('continue_collecting', 'node.py'), ('refresh_loop', 'tally_server.py')],
     ['rounds started by the server'])

prop('P34', 'A round starts only with enough live, compatible, idle clients',
     '''Over every history of client status reports, silences, duplicates, version mismatches and timer ticks, the tally server starts a round only
     when it has at least the required number of idle, recently seen, correctly versioned collectors and at least the required
     number of idle, recently seen share keepers, involves exactly those, never counts one client twice, and drops clients that
     stopped reporting.''',
     ['histories', 'schedules'],
     'all status/tick histories to a depth over a small set of clients',
     'No stable test instantiates a tally server.',
     ['privcount/tally_server.py'],
     [('set_client_status, clear_dead_clients, get_idle/active', 'tally_server.py')],
     ['start configs handed out'])

prop('P37', 'Replayed events keep their order and relative timing',
     '''For every recorded event log, the injector sends each event whose time lies in the chosen window exactly once and in order, and only to a client
     that has subscribed to events and has not unsubscribed, quit or disconnected. Each sent event ends now and keeps its recorded duration and other fields, and with simulated
     pauses consecutive events are sent as far apart as they were recorded. After the last event the injector closes the connection and stops.''',
     ['inputs', 'histories'],
     'all small logs over event types, time gaps and windows; all short histories of client commands and timers',
     'The injector is only run in the integration test.',
     ['privcount/inject.py', 'privcount/protocol.py'],
     [('PrivCountDataInjector', 'inject.py')],
     ['lines sent to the control connection'])

prop('P40', 'A client\'s configuration is replaced only by a complete valid one',
     '''After every history of configuration file edits and refreshes, a data collector's or share keeper's configuration equals what a freshly started
     client would load from the last valid file; an invalid file changes nothing, and connection settings that are unsafe or
     malformed are rejected.''',
     ['histories', 'configurations'],
     'all edit/refresh sequences to a depth over valid and invalid variants; all connection settings over a small alphabet',
     'No stable test refreshes a client configuration.',
     ['privcount/data_collector.py', 'privcount/share_keeper.py', 'privcount/connection.py', 'privcount/config.py'],
     [('refresh_config', 'data_collector.py, share_keeper.py'), ('validate_connection_config', 'connection.py')],
     ['config after refresh'])

prop('P41', 'An unauthenticated peer can only ever lose its own connection',
     '''Whatever bytes a peer that has not authenticated sends to a tally server, data collector or share keeper, on any number of
     connections and at any stage of a round, no node stops or changes its state, other connections are unaffected, and the round
     still publishes its tally: at most that peer's own connection is dropped.''',
     ['inputs', 'schedules'],
     'all lines over an alphabet of stages, roles, versions, tokens and junk, in sequences to a depth, and all short byte strings, at every step of a round of real nodes',
     'No stable test sends a node anything malformed.',
     ['privcount/protocol.py', 'privcount/log.py'],
     [('PrivCountProtocol.process_event', 'protocol.py'), ('handle_handshake_event', 'protocol.py'), ('handshake_cookie_verify', 'protocol.py')],
     ['whether the node exits', 'get_status() of every node', 'published outcome'])

prop('P42', 'Result files describe their round truthfully and hold no secrets',
     '''For every round, however it ends, the tally server writes exactly one outcome file, named for and holding the round's times, every client's
     status and the configuration it reported, the server's own settings and noise, and a tally (also in the tallies file) if and only
     if the round succeeded. No result file holds a key, the handshake secret, their paths, an encrypted share, a blinded count or the
     inside of a match list. A server that stops at any point of writing leaves the latest traffic model complete and valid, and
     does not keep later rounds from being published.''',
     ['histories', 'crash_points', 'configurations'],
     'sequences of rounds of real nodes over sizes, kinds of match lists and ways to end; every file operation of writing the results of a model round as a crash point',
     'No test writes results.',
     ['privcount/tally_server.py', 'privcount/node.py', 'privcount/counter.py'],
     [('CollectionPhase.write_results', 'tally_server.py'), ('get_result_context', 'tally_server.py'), ('summarise_config_lists', 'node.py')],
     ['privcount.outcome, privcount.tallies and privcount.traffic.model files', 'traffic.model.latest.json'])

prop('P43', 'A client always returns to its tally server, without piling up connections',
     '''Whatever happens to the connections of a data collector or share keeper (refused, lost or closed at any line, a server that
     restarts or is away, rounds that start and stop meanwhile), the client never stops itself and never falls silent: once the network
     works it checks in again within the longest back-off plus a check-in period. From then on it checks in once per period, and keeps
     no other connection or attempt open.''',
     ['histories', 'schedules'],
     'all histories to a depth of connection attempts, outcomes, single lines, losses, timers, server restarts and rounds, each followed by recovery',
     'No test connects a client to a server; the integration test has no failing connections.',
     ['privcount/data_collector.py', 'privcount/share_keeper.py', 'privcount/protocol.py', 'privcount/node.py'],
     [('do_checkin', 'data_collector.py and share_keeper.py'), ('handle_checkin_event', 'protocol.py PrivCountClientProtocol'), ('protocol_succeeded', 'protocol.py PrivCountClientProtocol')],
     ['connection attempts and check-ins over time', 'whether the client exits'])

prop('P44', 'Control connections to tor follow the round and its configuration exactly',
     '''While a round is being collected, a data collector connects to exactly the tor control ports that its valid configuration named
     when the round started, at most once to each at a time, and after any failures or losses it comes back and asks for the round's
     events again. Before the round begins, once it ends, and once the relay proves not to be the one the round is for, no control
     connection or attempt remains and none is made, however late a timer fires.''',
     ['histories', 'schedules'],
     'all histories to a depth of rounds, configuration changes, connection attempts and losses, and timers, each followed by recovery or by two hours of quiet',
     'Tests connect once, to one port, without failures or changes of configuration.',
     ['privcount/connection.py', 'privcount/data_collector.py', 'privcount/protocol.py'],
     [('Aggregator', 'data_collector.py'), ('connect', 'connection.py'), ('validate_connection_config', 'connection.py')],
     ['connection attempts to tor control ports over time', 'what tor is asked for'])

prop('P45', 'Keys, certificates and secrets are created whole, once, and kept for good',
     '''A tally server or share keeper creates the key, certificate or handshake secret that it lacks when it reads its configuration,
     and from then on, through any number of starts, reloads and crashes at any point, it keeps those that are in order unchanged; the
     certificate always certifies the key. If it stops part way through creating them, its next undisturbed start succeeds and leaves
     them whole, a share keeper goes by its key, and every client with a copy of the secret can authenticate itself. A data collector
     or share keeper never makes up a handshake secret: one without a copy cannot authenticate, and nothing is written in its place.''',
     ['histories', 'crash_points'],
     'all histories to a depth of starts, reloads and removals with a crash at every file operation, each followed by two undisturbed starts',
     'Tests use keys and secrets that exist already, and stop nowhere.',
     ['privcount/crypto.py', 'privcount/tally_server.py', 'privcount/share_keeper.py', 'privcount/protocol.py'],
     [('generate_keypair', 'crypto.py'), ('generate_cert', 'crypto.py'), ('handshake_secret_load', 'protocol.py')],
     ['key, certificate and secret files', 'whether nodes start and authenticate'])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['id']
            assert p['statement'].count('. ') <= 2, p['id']
            f.write(json.dumps(p) + '\n')
