#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run it to regenerate the file)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files,
                          mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe or [], hook_needed=None))
    if state:
        d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    assert len(title) <= 80, title
    P.append(d)
S = 'src/'

# ---------------------------------------------------------------- clock
prop('P01', 'Timepoints form a wrap-around timeline with exact arithmetic',
 'Advancing a timepoint by durations is exact and additive over the whole 64-bit range, including across wrap-around of the counter and for negative durations: the result depends only on the sum of the durations, and equal sums give equal timepoints. The difference of two timepoints is the signed duration that leads from the second to the first whenever they are less than half of the range apart. Exactly one of "before", "after" and "equal" holds for such a pair, "before" and "after" mirror each other, and they agree with the sign of the difference.',
 ['inputs'], 'every pair/sequence of timepoints and durations (any sign, any std::chrono unit that is a multiple of the tick), excluding only pairs exactly half of the range apart',
 'The unit tests compare a handful of small offsets and two boundary values; additivity and the order relation must hold for every 64-bit counter value and every unit.',
 [S+'clock/clock_timepoint.hpp'], [('advance / operator- / is_after / is_before modular arithmetic', S+'clock/clock_timepoint.hpp')],
 [('m_value', 'microseconds modulo 2^64', S+'clock/clock_timepoint.hpp')], ['Timepoint public API'])
prop('P02', 'Conversion of durations to clock ticks never loses or invents time',
 'Consuming a duration into a timepoint advances it by the whole number of microseconds contained in the duration (truncated toward zero) and leaves in the duration exactly the part that was not consumed, which is shorter than one microsecond and has the sign of the original. Consequently any sequence of consume operations that feeds the remainder back conserves the total time exactly. This holds for positive, zero and negative durations in any tick unit, finer or coarser than a microsecond. A duration in a unit of whole microseconds is converted exactly, consumed or advanced by, whatever integer type holds its count.',
 ['inputs', 'histories'], 'every duration in every unit whose length fits the signed 64-bit microsecond range, and every sequence of such steps',
 'Tests use a few positive values and whole multiples; negative and sub-tick remainders and long accumulations are not sampled.',
 [S+'clock/clock_timepoint.hpp'], [('advance_from', S+'clock/clock_timepoint.hpp')], None, ['Timepoint::advance_from', 'Timepoint::advance'])
prop('P03', 'Clock adapter follows the wrapped clock without drift or reordering',
 'A timepoint obtained from the std::chrono clock adapter differs from the exact reading of the wrapped clock by less than one microsecond, no matter how many readings were taken before, whatever the tick unit of the wrapped clock is and even if the wrapped clock steps backward. Readings of a clock that does not go back never go back. The readily available steady-clock source has the same guarantees on every thread.',
 ['histories', 'inputs', 'schedules'], 'every sequence of wrapped clock readings (tiny, huge, zero and negative steps; units finer and coarser than a microsecond) and any number of threads',
 'No test touches the adapter; drift only shows after many readings whose steps are not whole microseconds.',
 [S+'clock/clock_std.hpp', S+'clock/clock_timepoint.hpp'], [('remainder carried between readings', S+'clock/clock_std.hpp')],
 [('m_reminder', 'time read from the wrapped clock and not yet consumed', S+'clock/clock_std.hpp')], ['ChronoClockConverter::now', 'steady_clock_now'])

# ---------------------------------------------------------------- STUN codec
prop('P04', 'STUN message type codec is a bijection onto 14-bit message types',
 'For each of the 4 classes and each 12-bit method the encoded message type decodes back to the same class and the same method, each of the 2^14 message types decodes to a class and method that encode back to it, and class and method never share a bit of the encoding. Classes and methods compare equal exactly when they are the same, and the named classes and the binding method have the code points assigned by the STUN RFCs. Attribute types keep their 16-bit value, are equal iff the values are equal (with equal hashes), and are comprehension-required exactly when below 0x8000.',
 ['inputs'], 'all 2^14 message types, all 4x4096 class/method pairs, all 2^16 attribute types and pairs of them',
 'Tests only ever parse Binding messages, i.e. 4 of 16384 message types.',
 [S+'stun/stun_class.hpp', S+'stun/stun_method.hpp', S+'stun/stun_method.cpp', S+'stun/stun_attribute_type.hpp', S+'stun/details/stun_method_registry.hpp'],
 [('bit interleaving of class and method', S+'stun/stun_method.hpp, '+S+'stun/stun_class.hpp')], None, ['Class/Method from_msg_type, to_msg_type'])
prop('P05', 'Parsing hostile STUN bytes is memory safe and always terminates',
 'Parsing any byte string as a STUN message, and then using everything the parser returned (attribute getters, integrity validation, server and client processing, rebuilding of the message), never reads or writes outside of the given bytes or of live objects, never executes undefined behaviour, never leaks and terminates in time that grows in proportion to the length of the packet. Parsed messages own their data: they remain valid and unchanged after the packet buffer is overwritten and released.',
 ['inputs'], 'every byte string of every length up to a maximal UDP datagram, at every alignment, in an exactly sized buffer',
 'Tests feed a dozen well-formed vectors from well aligned containers without sanitizers; the safety claim is about every byte string a remote peer may send.',
 [S+'stun/stun_message.cpp', S+'stun/stun_attribute.cpp', S+'stun/stun_attribute_set.cpp', S+'stun/stun_address.cpp', S+'stun/stun_header.cpp', S+'stun/stun_server_stateless.cpp', S+'stun/stun_client_udp.cpp'],
 [('bounds checked views', S+'stun/stun_message.cpp'), ('attribute value copies', S+'stun/stun_attribute.cpp')], None, ['stun::Message::parse under ASan/UBSan'])
prop('P06', 'STUN parser accepts exactly well-formed messages and reports what is in them',
 'A byte string is accepted exactly if it has a complete header with two zero leading bits, a length field that is a multiple of 4 and equals the number of bytes after the header, the magic cookie (not needed in requests, which are then RFC 3489 ones with a 128-bit transaction id), attributes that exactly fit into the message, correctly sized known attributes, and, if there is a fingerprint, it is last and correct. The accepted message exposes class, method, transaction id and, for every known attribute, the first value on the wire; unknown attributes are kept in wire order; anything that follows the first message integrity except the fingerprint is ignored. Rejections report the reason that corresponds to the first violated rule. (Whether attributes of fixed size that are longer than needed are accepted is not specified.)',
 ['inputs'], 'every byte string; decided by an independent reference decoder written from RFC 5389/8489/5769',
 'Tests compare about twenty fixed packets; accept/reject boundaries (duplicate attributes, attributes after integrity, odd paddings, RFC 3489 requests) are a combinatorial space.',
 [S+'stun/stun_message.cpp', S+'stun/stun_attribute.cpp', S+'stun/stun_attribute_set.cpp', S+'stun/stun_attribute_set.hpp', S+'stun/details/stun_constants.hpp', S+'stun/details/stun_attr_registry.hpp'],
 [('header checks', S+'stun/stun_message.cpp'), ('attribute loop', S+'stun/stun_message.cpp'), ('per attribute parse', S+'stun/stun_attribute.cpp')], None, ['stun::Message::parse'])
prop('P07', 'Built STUN messages are well formed and parse back to the same content',
 'Any message that can be built is encoded as a valid STUN packet: correct header and length, 4-byte aligned zero-padded attributes, message integrity after all other attributes and fingerprint last, numbers in network order and code points of the RFCs. Parsing the packet (of a message with a 96-bit transaction id, or of a request with a 128-bit one) gives back the same class, method, transaction id and attribute values. A message whose length does not fit the 16-bit length fields is refused with an error and is never encoded incorrectly.',
 ['inputs', 'configurations'], 'every set of known and unknown attributes with any values and sizes, with and without fingerprint and message integrity, all classes and methods, RFC 3489 and RFC 5389 transaction ids',
 'Tests build a few messages with one or two attributes; every combination of attributes and value sizes (padding, extreme lengths) must survive the round trip.',
 [S+'stun/stun_attribute_set.cpp', S+'stun/stun_attribute.cpp', S+'stun/stun_header.cpp', S+'stun/stun_message.cpp'],
 [('AttributeSet::build', S+'stun/stun_attribute_set.cpp'), ('Header::build', S+'stun/stun_header.cpp')], None, ['stun::Message::build / parse'])
prop('P08', 'Message integrity authenticates every protected byte of a STUN message',
 'The message integrity of a built message is the HMAC-SHA1 of the message up to the attribute preceding it, with the length field adjusted as the RFC requires, keyed by the password. Validation of a received message says "valid" exactly if its digest equals that HMAC for the given password: it holds for the right password of any length whether or not a fingerprint follows, and fails for any other password and for any change of a protected byte or of the digest. A message without message integrity is reported as not signed, never as valid.',
 ['inputs'], 'every message, every password (lengths 0 to far beyond the hash block), every single-byte or multi-byte modification',
 'Tests check the three RFC 5769 vectors and one wrong password; authenticity is a claim about every modification an attacker can make.',
 [S+'stun/stun_message.cpp', S+'stun/stun_attribute_set.cpp', S+'stun/stun_password.cpp', S+'crypto/crypto_hmac.hpp'],
 [('Message::is_valid', S+'stun/stun_message.cpp'), ('add_integrity', S+'stun/stun_attribute_set.cpp')], None, ['Message::is_valid, Message::build'])
prop('P09', 'Keyed hash equals HMAC as standardised, for any key and message',
 'The keyed hash of a message equals RFC 2104 HMAC over the concatenation of the message parts for every key length, including keys longer than the hash block, every message length and every way to split the message into parts (empty parts included). The underlying hash functions equal MD5 and SHA-1 of the concatenated parts. A failure of any step of the hash function is reported as the error of that step, whatever errors were left behind by others, and never yields a digest.',
 ['inputs', 'fault_sequences'], 'keys and messages of every length, every chunking, and a hash function that fails at any of its invocations',
 'Tests use the RFC 2202 vectors split in one way, and never a failing hash function.',
 [S+'crypto/crypto_hmac.hpp', S+'crypto/crypto_hash.hpp', S+'crypto/openssl/openssl_hash.cpp'],
 [('PadKey::from_key', S+'crypto/crypto_hmac.hpp'), ('digest', S+'crypto/crypto_hmac.hpp')], None, ['crypto::hmac::digest compared with OpenSSL HMAC()'])
prop('P10', 'Fingerprint is CRC-32 of the message and reveals corruption',
 'The fingerprint of a built message is the CRC-32 of everything before it XORed with 0x5354554e, and the CRC does not depend on how the data is split into parts. A message with a fingerprint is accepted only if the fingerprint is correct and last: a packet corrupted within a window of 32 bits, in any position, is never accepted as a message that has a fingerprint.',
 ['inputs', 'fault_sequences'], 'every message and every burst error of at most 32 bits at every position (also one that turns the fingerprint into another attribute), every chunking of every byte string',
 'Tests contain one packet with a wrong fingerprint.',
 [S+'stun/details/stun_fingerprint.cpp', S+'stun/details/stun_fingerprint.hpp', S+'stun/stun_message.cpp', S+'stun/stun_attribute_set.cpp', S+'stun/stun_attribute.cpp'],
 [('crc32', S+'stun/details/stun_fingerprint.cpp'), ('fingerprint check', S+'stun/stun_message.cpp')], None, ['Message::build, Message::parse, crc32'])
prop('P11', 'XOR-mapped address encoding is an involution with the standard wire value',
 'Encoding an IPv4 or IPv6 address for a transaction and decoding the result with the same transaction id gives back the address, for every address and transaction id. The encoded bytes are the address XORed with the magic cookie followed (IPv6) by the transaction id, the family is preserved, and decoding an IPv6 address with another transaction id does not give the original address. Encoded addresses are equal exactly when their bytes are equal.',
 ['inputs'], 'every IPv4/IPv6 address, every 96-bit and 128-bit transaction id, any object alignment',
 'Tests check the two addresses of RFC 5769.',
 [S+'stun/stun_address.cpp', S+'stun/stun_address.hpp', S+'stun/stun_transaction_id.hpp'], [('XoredAddress', S+'stun/stun_address.cpp')], None, ['XoredAddress'])
prop('P12', 'Parse statistics account for every packet exactly once',
 'After any sequence of packets the number of successes plus the number of errors equals the number of packets parsed, a success is counted exactly when the packet was accepted, and each rejected packet increments exactly one reason counter, the one that corresponds to the reported error. This holds for the STUN and the RTP parsers.',
 ['histories', 'inputs'], 'every sequence of packets of every kind',
 'Tests look at one or two counters after one packet; conservation over arbitrary histories is not sampled.',
 [S+'stun/stun_parse_stat.hpp', S+'stun/stun_message.cpp', S+'stun/stun_attribute.cpp', S+'rtp/rtp_packet.cpp', S+'stat/stat_counter.hpp'],
 [('counter increments next to each return', S+'stun/stun_message.cpp, '+S+'rtp/rtp_packet.cpp')], None, ['ParseStat'])

# ---------------------------------------------------------------- STUN server
prop('P13', 'STUN server never grants success to an unauthenticated credentialed request',
 'For a request that carries credentials the server gives a success response only if the user is known and the message integrity is valid for that user\'s password; an unknown user or a wrong digest gets 401, a request with only one of username and message integrity gets 400, a request with unknown comprehension-required attributes gets 420 that lists exactly these attributes. These error responses are not signed. Everything that is not a well-formed binding request (indications, responses, other methods, malformed packets) produces no response at all.',
 ['inputs', 'histories', 'configurations'], 'every request packet, every set of users, every history of earlier packets',
 'Tests exercise one request per rule from a fixed user; combinations of rules, tampered packets and histories are not covered.',
 [S+'stun/stun_server_stateless.cpp', S+'stun/stun_server_stateless.hpp', S+'stun/stun_message.cpp'],
 [('process_request decision sequence', S+'stun/stun_server_stateless.cpp')], [('m_users', 'known users', S+'stun/stun_server_stateless.hpp')], ['server::Stateless::process'])
prop('P14', 'STUN server responses answer exactly the request they respond to',
 'Each response carries the transaction id and method of its request and class success or error, and builds into a well-formed packet. A success response contains exactly the transport address the request came from, XOR-encoded for RFC 5389 requests and plain for RFC 3489 requests, and a fingerprint as configured; it is to be signed exactly if the request was authenticated, with that user\'s password. The outcome does not depend on earlier packets.',
 ['inputs', 'histories', 'configurations'], 'every source address/port/protocol, request and history of earlier requests',
 'Tests use fixed endpoints and one packet per server instance.',
 [S+'stun/stun_server_stateless.cpp'], [('response construction', S+'stun/stun_server_stateless.cpp')], None, ['server::Stateless::process'])

# ---------------------------------------------------------------- STUN client
prop('P15', 'Each client transaction ends exactly once and is silent afterwards',
 'For every transaction started by the STUN client exactly one final outcome (success or failure) is eventually reported when the client is driven over time, whatever responses arrive - duplicated, reordered, delayed, conflicting, forged or none. After the outcome is reported nothing more is sent for the transaction, and from the moment it is determined further responses to it are refused as unknown. No outcome is reported for a transaction that was not started.',
 ['schedules', 'histories', 'fault_sequences'], 'every interleaving of transaction creation, time steps of any size, polling, and any sequence of responses to any number of parallel transactions',
 'Tests follow a few straight scenarios with a single response each; the claim is about every interleaving of duplicates, late responses, timers and polling.',
 [S+'stun/stun_client_udp.cpp', S+'stun/stun_client_udp.hpp', S+'stun/stun_client_udp_effects.hpp'],
 [('completed flag and effect queue', S+'stun/stun_client_udp.cpp')],
 [('m_tmap', 'live transactions', S+'stun/stun_client_udp.hpp'), ('m_effects', 'effects not yet returned', S+'stun/stun_client_udp.hpp')], ['ClientUDP::next effects'])
prop('P16', 'Client accepts only authenticated responses when credentials are used',
 'A transaction with credentials is completed only by a response whose message integrity is valid for these credentials; unsigned, wrongly signed or modified responses are refused with an error and leave the transaction, its schedule and its eventual outcome untouched. The only exception is an unsigned "try alternate" error response when the application explicitly allowed it. Transactions without credentials accept unsigned responses.',
 ['inputs', 'histories', 'fault_sequences'], 'every forged or modified response at any moment of any transaction, both settings of the exception',
 'Tests send one valid signed response; resistance to every forgery at every moment is not tested.',
 [S+'stun/stun_client_udp.cpp', S+'stun/stun_message.cpp'], [('check_response_auth', S+'stun/stun_client_udp.cpp')], None, ['ClientUDP::response'])
prop('P17', 'Client retransmits on the RFC schedule and gives up on time',
 'Without responses a transaction is sent exactly as many times as configured, first at once, then with intervals that start at the retransmission timeout of the path and double each time, and after the last request it fails with a timeout after the configured multiple of the initial timeout. When a maximal interval is configured no interval exceeds it. If the application polls late, each send is made at that poll and the next interval is counted from it.',
 ['configurations', 'schedules'], 'every setting of request count, multiplier, initial timeout and interval limit, every polling pattern (exact, early, late), any number of parallel transactions',
 'Tests check the default schedule and exact polling of a single transaction.',
 [S+'stun/stun_client_udp.cpp', S+'stun/stun_client_udp_settings.hpp'], [('retransmit algorithm', S+'stun/stun_client_udp.cpp')], None, ['times of send effects'])
prop('P18', 'Retransmission timeout adapts per network path as Karn/RFC 6298 prescribe',
 'The initial timeout of a new transaction is the configured one for a path without history; after round-trip measurements on the same source/target pair it is the smoothed round-trip time plus max(clock granularity, 4 x variation) updated with gains 1/8 and 1/4; after a success that needed retransmissions it is the last backed-off interval until a new unambiguous measurement arrives. Round-trip time is reported and used only for transactions that were not retransmitted. Paths do not influence each other, and history older than the configured duration is dropped when any path is updated. Times are kept in whole microseconds.',
 ['histories', 'inputs'], 'every sequence of transactions, outcomes and times over any number of IPv4/IPv6 paths',
 'Tests perform at most two transactions per path; the estimator is a function of the whole history.',
 [S+'stun/details/stun_client_udp_rto.cpp', S+'stun/details/stun_client_udp_rto.hpp', S+'stun/stun_client_udp.cpp', S+'net/net_path_hash.hpp', S+'util/util_intrusive_list.hpp'],
 [('RTO calculator', S+'stun/details/stun_client_udp_rto.cpp')], [('m_by_path', 'history per path', S+'stun/details/stun_client_udp_rto.hpp')], ['first retransmission time, TransactionOk::round_trip'])
prop('P19', 'Client classifies every authentic response into the right outcome',
 'A success response yields the reflexive transport address it carries (XOR-mapped preferred over mapped); one without an address or with unknown comprehension-required attributes fails with exactly that reason and lists the attributes in order. Error responses map to: alternate server with its address for 300 with the attribute, reported unknown attributes for 420, the error code with its phrase for other 3xx/4xx/5xx codes, and specific failures when required attributes are missing. Responses with other codes or classes change nothing.',
 ['inputs'], 'every authentic response (class, error code 0-799, every combination of attributes)',
 'Tests cover four responses; the decision table spans all error codes and attribute combinations.',
 [S+'stun/stun_client_udp.cpp', S+'stun/stun_attribute_set.cpp'], [('handle_success_response / handle_error_response', S+'stun/stun_client_udp.cpp')], None, ['final effects of ClientUDP::next'])
prop('P20', 'Server errors (5xx) lead to bounded, delayed retries',
 'If retries after server errors are configured, each 5xx response to a live transaction reschedules the next transmission to exactly the configured delay after the response, nothing is sent for the transaction in between (except a transmission that was due at the time of the response and already waiting to be handed out), and after the configured number of such retries the next 5xx response fails the transaction with its error code. If they are not configured the first 5xx response fails the transaction. The total number of transmissions never exceeds the configured request count plus the number of granted retries.',
 ['schedules', 'histories', 'configurations'], 'every placement of any number of 5xx responses relative to retransmissions, delays shorter and longer than the pending interval',
 'No test configures retries after server errors.',
 [S+'stun/stun_client_udp.cpp'], [('process_5xx', S+'stun/stun_client_udp.cpp')], None, ['times of send effects'])
prop('P21', 'Data handed out for sending stays valid and identical until the final outcome',
 'The bytes that the client asks to send are readable and unchanged from the moment they are handed out until the final outcome of the same transaction is returned, whatever happens to other transactions meanwhile. All transmissions of a transaction are byte-identical. They are a well-formed binding request with the requested attributes, and are signed, carry the username and carry a fingerprint exactly as configured.',
 ['histories', 'schedules'], 'every interleaving of many transactions being created, retransmitted, completed and expired',
 'Tests read the data immediately; lifetime under table growth and completion of other transactions needs instrumented memory.',
 [S+'stun/stun_client_udp.cpp', S+'stun/stun_client_udp_effects.hpp'], [('transaction keeps the message until its outcome is returned', S+'stun/stun_client_udp.cpp')], None, ['SendData view under ASan'])
prop('P22', 'Client polling never oversleeps an event and never changes the schedule',
 'When the client says to sleep, the sleep is positive, no pending action becomes due before it ends, and so it ends no later than the earliest retransmission or timeout of a live transaction. It says it is idle only when no transaction is live. Driving the client by its own sleeps always terminates, and polling more often, at any times, never changes what is sent or reported nor when.',
 ['schedules', 'histories'], 'every set of parallel transactions, every polling pattern',
 'Tests always poll by the returned sleep with one or two transactions.',
 [S+'stun/stun_client_udp.cpp'], [('timeline priority queue', S+'stun/stun_client_udp.cpp')], [('m_tid_timeline', 'pending deadlines', S+'stun/stun_client_udp.hpp')], ['Sleep/Idle effects'])
prop('P23', 'Transactions are uniquely identified and responses reach only their own',
 'Live transactions of a client have pairwise distinct handles and distinct transaction ids even if the random source repeats itself, and the ids are the bytes delivered by that source. A response affects exactly the transaction whose id it carries and completes it with its own content; a response with any other id is refused as unknown and changes nothing. This holds for every hash function of ids, including one that maps all ids to one value.',
 ['histories', 'inputs', 'configurations'], 'any number of parallel transactions, weak random sources, degenerate hash functions, any order of responses',
 'Tests run two parallel transactions with a good random source.',
 [S+'stun/stun_client_udp.cpp', S+'stun/stun_client_udp.hpp', S+'stun/stun_transaction_id.hpp', S+'stun/stun_transaction_id_hash.hpp', S+'util/util_hash_dynamic.hpp'],
 [('handle and id allocation', S+'stun/stun_client_udp.cpp')], None, ['ClientUDP::create, response'])
prop('P24', 'Client and server agree over a lossy, duplicating, reordering network',
 'When clients talk to the server over a network that loses, duplicates, delays and reorders packets, every transaction of which at least one request and its response come through in time ends successfully with the address the server saw, and every other one ends with a timeout. Packets corrupted in the header or in attribute values never change any outcome when fingerprints are used.',
 ['fault_sequences', 'schedules', 'histories'], 'every loss/duplication/delay/corruption pattern over many simultaneous transactions, IPv4 and IPv6, with and without credentials',
 'No test connects the client with the server.',
 [S+'stun/stun_client_udp.cpp', S+'stun/stun_server_stateless.cpp', S+'stun/stun_message.cpp'], [('whole STUN stack', S+'stun')], None, ['simulated network'])

# ---------------------------------------------------------------- RTP
prop('P25', 'RTP parser accepts exactly well-formed packets and delimits them correctly',
 'A byte string is accepted as RTP exactly if it has version 2, a payload type with a known clock, and its CSRC list, header extension and padding fit into the packet. The parsed header fields, contributing sources in order, extension profile and bounds, and the payload bounds equal those defined by RFC 3550: header, extension, payload and padding (of at least one byte when announced) partition the packet. Rejections report the first violated rule.',
 ['inputs', 'configurations'], 'every byte string and payload map; decided by an independent reference decoder',
 'Tests parse a dozen packets; interactions of CSRC count, extension length and padding count with the packet size are a large space.',
 [S+'rtp/rtp_packet.cpp', S+'rtp/rtp_payload_map.hpp', S+'rtp/details/rtp_header_details.hpp'], [('Packet::parse', S+'rtp/rtp_packet.cpp')], None, ['rtp::Packet::parse'])
prop('P26', 'Parsing hostile RTP bytes is memory safe',
 'Parsing any byte string as RTP and reading everything the returned packet delimits never touches memory outside of the packet and never executes undefined behaviour. Every interval returned lies inside of the packet.',
 ['inputs'], 'every byte string of every length at every alignment in an exactly sized buffer',
 'Tests use well-formed buffers without sanitizers.',
 [S+'rtp/rtp_packet.cpp'], [('bounds checked reads', S+'rtp/rtp_packet.cpp')], None, ['rtp::Packet::parse under ASan/UBSan'])
prop('P27', 'RTP value types and payload map keep their values exactly',
 'Sequence numbers, synchronization sources, timestamps, clock rates, payload types and marker bits return exactly the value they were made of over their full range; payload types exist exactly for 0-127; equality means equal values and equal values have equal hashes. A payload map returns exactly the clock rate registered for a payload type and nothing for an unregistered one.',
 ['inputs', 'configurations'], 'all 8- and 16-bit values, all boundary and random 32-bit values, every payload map',
 'One test reads back one timestamp.',
 [S+'rtp/rtp_sequence.hpp', S+'rtp/rtp_ssrc.hpp', S+'rtp/rtp_timestamp.hpp', S+'rtp/rtp_clock_rate.hpp', S+'rtp/rtp_marker.hpp', S+'rtp/rtp_payload_type.hpp', S+'rtp/rtp_payload_map.hpp', S+'rtp/rtp_payload_map.cpp', S+'util/util_typed_bool.hpp'],
 [('value wrappers', S+'rtp')], None, ['value()/count()'])

# ---------------------------------------------------------------- ICE
prop('P28', 'ICE candidate lines are parsed into exactly the fields they contain',
 'A candidate attribute that follows the grammar is parsed into exactly its foundation, component, transport, priority, address, port, type, related address and port, and extension pairs in order. Candidates with an unknown type, unknown transport or unusable address are reported as unsupported rather than failed, a malformed line is refused with the error of the first malformed field, and text that is not a candidate attribute is always refused.',
 ['inputs'], 'every candidate line generated from the grammar, every mutation of it and arbitrary text; decided by an independent reference parser',
 'Tests parse six lines.',
 [S+'ice/candidate/ice_candidate_sdp.cpp', S+'ice/candidate/ice_candidate_foundation.cpp', S+'ice/candidate/ice_candidate_address.cpp', S+'ice/candidate/ice_candidate_type.cpp', S+'ice/candidate/ice_candidate_transport_type.cpp', S+'util/util_token_stream.hpp'],
 [('parse_sdp_attr', S+'ice/candidate/ice_candidate_sdp.cpp')], None, ['ice::candidate::parse_sdp_attr'])
prop('P29', 'ICE candidate values stay in range and priorities follow the formula',
 'Foundations (1-32 ICE characters), component ids (1-256, as text 1-3 digits denoting at most 256), priorities (any 32-bit value but zero, as text 1-10 digits), type (0-126), local (0-65535) and component (0-255) preferences, candidate types and transports (case-insensitive names) are constructible exactly from what is listed, keep the value and compare equal exactly when the values are equal. The priority computed from preferences is 2^24 x type + 2^8 x local + component preference, so it orders candidates by type, then local, then component preference, and equal priorities imply equal preferences. Recommended preferences are those of the RFC.',
 ['inputs'], 'all type and component preferences, all 16-bit local preferences, all digit strings up to the maximal length and arbitrary strings',
 'Tests check a few values at the boundaries.',
 [S+'ice/candidate/ice_candidate_preference.cpp', S+'ice/candidate/ice_candidate_priority.cpp', S+'ice/candidate/ice_candidate_component_id.cpp', S+'ice/candidate/ice_candidate_foundation.cpp', S+'ice/candidate/ice_candidate_type.cpp', S+'ice/candidate/ice_candidate_transport_type.cpp'],
 [('range checks', S+'ice/candidate')], None, ['from_string/from_unsigned, Preference::to_priority'])

# ---------------------------------------------------------------- net
prop('P30', 'Network addresses and ports convert to and from text faithfully',
 'A string is accepted as an IP address exactly if it is a valid textual IPv4 or IPv6 address as a whole, with the bytes it denotes; printing an address and parsing the text gives back an equal address, and the raw bytes round-trip. A string is accepted as a port exactly if it consists of 1 to 5 digits and denotes at most 65535, with that value. Endpoints return the protocol, address and port they were made of.',
 ['inputs'], 'every string and every address; decided by an independent text parser',
 'Tests parse about ten strings.',
 [S+'net/ip/ip_address.cpp', S+'net/ip/details/ip_address_tpl.hpp', S+'net/net_port.cpp', S+'net/net_endpoint.hpp'], [('inet_pton adapter', S+'net/ip/ip_address.cpp'), ('Port::from_string', S+'net/net_port.cpp')], None, ['Address::from_string/to_string, Port::from_string'])
prop('P31', 'Domain names are recognised exactly by their grammar',
 'Parsing a domain name consumes exactly the longest prefix of the text made of labels separated by single dots, with an optional trailing dot, where a label starts with a letter, digit or underscore, contains these and hyphens and does not end with a hyphen; the consumed part and the rest together are the input. The whole-string form succeeds exactly if nothing is left. The name is stored unchanged.',
 ['inputs'], 'all short strings over the relevant alphabet and random longer ones',
 'Tests contain about twenty strings.',
 [S+'net/net_fqdn.cpp', S+'net/net_fqdn.hpp'], [('parse_label / parse_subdomain', S+'net/net_fqdn.cpp')], None, ['Fqdn::parse, Fqdn::from_string'])
prop('P32', 'Hash functions agree with equality and depend only on the value',
 'Equal addresses, network paths, transaction ids, user names, attribute types, payload types and handles have equal hashes, whatever the alignment, location or history of the objects, on repeated calls and for each seed. The byte hash is exactly the 64-bit Murmur function of the bytes and the seed, and hashing a sequence of parts chains the seed. Values that differ are not equal, and distinct realistic values do not systematically collide.',
 ['inputs'], 'every value of each hashed type at every alignment, every seed',
 'No test calls a hash function; hash containers silently lose entries when the law is broken only for some values.',
 [S+'util/util_hash_murmur.cpp', S+'util/util_hash_murmur.hpp', S+'util/util_hash_dynamic.hpp', S+'net/ip/ip_address_hash.cpp', S+'net/net_path_hash.hpp', S+'stun/stun_transaction_id_hash.hpp', S+'precis/precis_opaque_string_hash.hpp', S+'stun/stun_client_udp_handle.hpp'],
 [('murmur64', S+'util/util_hash_murmur.cpp')], None, ['hash functors'])

# ---------------------------------------------------------------- util
prop('P33', 'Intrusive list behaves as a sequence under any operations',
 'Under any sequence of insertions at both ends, removals from the ends and of any element, re-insertions, moves of elements and of whole lists, clearing and destruction of elements and lists in any order, the list contains exactly the elements that the abstract sequence contains, in the same order from both ends. Elements know whether they are in a list. No operation touches destroyed elements or lists.',
 ['histories'], 'every sequence of operations over several lists and elements',
 'Tests run about fifteen fixed short sequences without instrumented memory.',
 [S+'util/util_intrusive_list.hpp'], [('link surgery', S+'util/util_intrusive_list.hpp')], [('m_next/m_prev', 'neighbours', S+'util/util_intrusive_list.hpp')], ['front/back/pop/in_list under ASan'])
prop('P34', 'Tokens are neither lost, duplicated nor reordered by the text utilities',
 'Splitting a text by a separator and joining the parts gives back the text except for one trailing separator, no part contains the separator, and the parts lie inside of the text. A token stream returns each token once in order, reports a missing required token or a mismatch as an error of its own category and never reads beyond its end, and copies of a stream are independent of each other. Flattening concatenates in order.',
 ['inputs', 'histories'], 'every text, separator and sequence of stream operations',
 'Tests run a few fixed sequences.',
 [S+'util/util_string_view.hpp', S+'util/util_token_stream.hpp', S+'util/util_token_stream.cpp', S+'util/util_flat.hpp'], [('split_all / TokenStream', S+'util')], None, ['split, split_all, join, TokenStream, flat_vec'])
prop('P35', 'Vocabulary types are transparent wrappers of their values',
 'Tagged values and typed booleans keep exactly the value they were made of through copies, moves and assignment, and tagged values compare equal exactly when the values do. Event counters count each event once up to wrap-around. A pluggable hash returns exactly what its algorithm computes for the value and all instances of one algorithm share one state; transaction handles are ordered, compared and hashed by their number. A chain of operations written with > calls each operation at most once with the value, passes an error on unchanged without calling anything, copies nothing that can be moved and leaves named results as they were.',
 ['inputs', 'histories'], 'every value and every sequence of copies, moves and assignments',
 'There are no tests of these types.',
 [S+'util/util_tagged_type.hpp', S+'util/util_typed_bool.hpp', S+'stat/stat_counter.hpp', S+'util/util_hash_dynamic.hpp', S+'stun/stun_client_udp_handle.hpp', S+'util/util_variant_overloaded.hpp', S+'util/util_result_sugar.hpp'], [('wrappers', S+'util')], None, ['public API'])
prop('P36', 'Errors are unambiguous: distinct codes, stable categories, distinct messages',
 'Within each error family every code has its own non-empty message, different from the messages of the other codes and from the message of unknown codes, which is produced for any other integer. Error codes compare equal only to the same code of the same family, the zero code of a family is falsy and all others are truthy, and each family has exactly one category object for the whole program, on every thread, with a name of its own that printed codes carry. OpenSSL failures keep their OpenSSL number and its textual reason.',
 ['inputs', 'schedules'], 'all codes and random integers of every family, calls from any thread',
 'No test looks at error codes or messages.',
 [S+'stun/stun_error.cpp', S+'stun/stun_error.hpp', S+'net/net_error.cpp', S+'rtp/rtp_error.cpp', S+'ice/candidate/ice_candidate_error.cpp', S+'crypto/openssl/openssl_error.cpp', S+'util/util_error_code.cpp', S+'util/util_token_stream.cpp', 'node/node_stun/node_stun_error.cpp', 'node/openssl/node_openssl_error.cpp'], [('error categories', S+'stun/stun_error.cpp')], None, ['make_error_code, message()'])
prop('P37', 'Character classes and case-insensitive comparison follow the ABNF',
 'Letters, digits and ICE characters are recognised exactly for the characters the grammar names, among all possible byte values. Case-insensitive comparison is true exactly if the strings have equal length and are equal after mapping ASCII letters to one case; it is reflexive, symmetric and transitive, and well defined for all byte values.',
 ['inputs'], 'all byte values, all pairs of byte values, random strings',
 'There is no test of these functions.',
 [S+'abnf/abnf.hpp', S+'ice/ice_abnf.hpp'], [('character classes', S+'abnf/abnf.hpp')], None, ['abnf functions'])

# ---------------------------------------------------------------- cross-cutting
prop('P38', 'Independent objects can be used on different threads',
 'Using different client, server, clock, list and parser objects on different threads at the same time, each object being used by one thread at a time, is free of data races and gives on each thread exactly the results of the same calls made alone. This includes the first use of any lazily created shared state.',
 ['schedules'], 'every interleaving of threads each working with its own objects',
 'All tests are single threaded.',
 [S+'stun/stun_transaction_id_hash.hpp', S+'util/util_hash_dynamic.hpp', S+'clock/clock_std.hpp', S+'stun/stun_error.cpp', S+'stun/details/stun_fingerprint.cpp', S+'stun/stun_address.cpp'], [('function-local statics, thread_local clock', S+'util/util_hash_dynamic.hpp')], None, ['ThreadSanitizer over multi-threaded workload'])
prop('P39', 'Results never depend on uninitialised memory, addresses or previous use',
 'No output of the library - built packets, parsed values, errors, hashes, effects, statistics - depends on uninitialised memory, and repeating the same calls in a fresh object gives the same results.',
 ['inputs', 'histories'], 'every sequence of calls across all modules',
 'Unit tests cannot see a read of uninitialised memory that happens to give the expected value.',
 [S+'stun/stun_attribute_set.cpp', S+'crypto/crypto_hmac.hpp', S+'stun/stun_address.cpp', S+'net/ip/details/ip_address_tpl.hpp', S+'crypto/openssl/openssl_hash.cpp'], [('value initialisation', S+'stun')], None, ['Valgrind memcheck, replays compared'])
prop('P40', 'Parsing hostile text is memory safe and terminates',
 'Parsing any string as a candidate line, domain name, IP address, port, foundation, priority, component id, type or transport never touches memory outside of the string, which need not be terminated by a zero character, never executes undefined behaviour and always terminates in time proportional to its length. Results own their text and stay valid after the input is released.',
 ['inputs'], 'every byte string, including embedded zeros, non-ASCII characters, missing terminators and megabyte inputs',
 'Tests pass string literals, which are always terminated.',
 [S+'ice/candidate/ice_candidate_sdp.cpp', S+'net/net_fqdn.cpp', S+'net/ip/ip_address.cpp', S+'net/net_port.cpp', S+'util/util_string_view.hpp'], [('string views', S+'ice/candidate')], None, ['parsers under ASan/UBSan with exact-size buffers'])
prop('P41', 'The Node.js functions report exactly what the library parses',
 'The functions exported to JavaScript for parsing a STUN message and an ICE candidate line succeed exactly when the library parses the bytes or the text (a message must have the binding method, the only one with a name), fail with the error of the library otherwise, and give objects with exactly the contents: class, transaction id, kind of protocol and the value of each attribute that is present, respectively address, port, type, transport, foundation, component, related address and port if present and all extensions in order; a candidate that is not supported is given with its text. Attributes that are absent are absent in the object. A missing argument or one of another kind is an error. What is returned does not refer to the memory of the arguments.',
 ['inputs'], 'every byte string, every text and every JavaScript value as an argument',
 'The bindings have no tests.',
 ['node/node_stun/node_stun_message.cpp', 'node/node_stun/node_stun_header.cpp', 'node/node_ice/node_ice_candidate.cpp'], [('stun_attributes', 'node/node_stun/node_stun_message.cpp'), ('ice_candidate_to_object', 'node/node_ice/node_ice_candidate.cpp')], None, ['message_parse, ice_candidate_parse'])
prop('P42', 'The Node.js server and client objects behave as the library objects',
 'Under the same calls at the same times of the steady clock the JavaScript objects for the STUN server and the STUN client do exactly what the C++ objects do: the server answers with the same bytes or ignores the same packets and knows the same users; the client hands out the same data in the same order, reports the same outcomes with address, port, response, round-trip time or reason, has the same handles, a new transaction id for each request, and sleeps of at least the time of the library, in whole milliseconds and less than one millisecond longer. Calls with arguments that are missing, of another kind, malformed addresses or port numbers outside of 0-65535 fail and have no effect, as do calls on other objects. The hash functions of the bindings are SHA-1 and MD5 of the joined parts, and a failing step is an error, never a digest.',
 ['histories', 'inputs', 'fault_sequences'], 'every sequence of calls with any arguments, on any number of objects, at any times',
 'The bindings have no tests.',
 ['node/node_stun/node_stun_server_stateless.cpp', 'node/node_stun/node_stun_client_udp.cpp', 'node/node_stun/node_stun_client_udp_effects.cpp', 'node/node_stun/node_stun_client_udp_auth.cpp', 'node/node_stun/node_stun_client_udp_settings.cpp', 'node/node_stun/node_stun_client_udp_handle.hpp', 'node/openssl/node_openssl_hash.cpp'],
 [('process_message, add_user', 'node/node_stun/node_stun_server_stateless.cpp'), ('create, next, response', 'node/node_stun/node_stun_client_udp.cpp'), ('MessageDigest', 'node/openssl/node_openssl_hash.cpp')], None, ['StatelessServer, ClientUDP classes'])

prop('P43', 'Long-lived objects do not accumulate memory and give everything back',
 'The memory a client needs depends on the transactions that are live, on those whose timers are still running and on the paths measured within the history, never on how many transactions, paths, responses, retransmissions or refused requests there were before: an idle client needs what it needed after the same amount of earlier work. A server needs memory for its users only; packets leave none behind, whatever they contain. Parsing, building, hashing and refusing something leaves nothing allocated once the results are gone, and what is needed meanwhile is in proportion to the size of the input. An object that is destroyed releases everything, also in the middle of transactions.',
 ['histories', 'inputs'], 'every history of calls, of any length, every input, every moment of destruction',
 'Tests run a handful of transactions; a block lost per transaction, path or packet shows only after thousands.',
 [S+'stun/stun_client_udp.cpp', S+'stun/details/stun_client_udp_rto.cpp', S+'stun/stun_server_stateless.cpp', S+'stun/stun_message.cpp', S+'crypto/openssl/openssl_hash.cpp', S+'util/util_intrusive_list.hpp'], [('cleanup', S+'stun/stun_client_udp.cpp'), ('clear_outdated', S+'stun/details/stun_client_udp_rto.cpp')], None, ['operator new/delete and the OpenSSL allocator counted'])
prop('P44', 'Values stay what they are when copied, moved, kept or assigned',
 'Messages, attributes, attribute sets, transaction ids, passwords, addresses, names, paths, endpoints, candidates, RTP packets, payload maps, errors, settings, effects, token streams, digests, hash objects and timepoints are values: a copy says in every respect what the original says and so does the target of an assignment or a move, whatever it was before; afterwards neither a change nor the end of one shows in the other. Self-assignment changes nothing, what was moved from can be assigned to and destroyed. Copied servers know the same users and learn new ones independently; clients made from the same settings share nothing, and changing the settings afterwards does not change a client. Results of the parsers stay as they are when the buffer they were parsed from is used again.',
 ['inputs', 'histories'], 'every value of each type, every sequence of copies, moves, assignments and destructions',
 'Tests keep values where they were made.',
 [S+'stun/stun_message.hpp', S+'stun/stun_attribute_set.hpp', S+'stun/stun_attribute.hpp', S+'stun/stun_transaction_id.hpp', S+'stun/stun_password.hpp', S+'crypto/crypto_hmac.hpp', S+'crypto/crypto_hash.hpp', S+'net/net_endpoint.hpp', S+'net/net_fqdn.hpp', S+'ice/candidate/ice_candidate_address.hpp', S+'rtp/rtp_packet.hpp', S+'util/util_token_stream.hpp'], [('copy and move operations', S+'stun/stun_attribute_set.hpp')], None, ['copies examined under AddressSanitizer'])
prop('P45', 'The cost of an operation does not grow with the number of others',
 'Creating a transaction, processing a response (expected or not), polling, retransmitting and taking a measurement cost a client the same, up to a logarithmic factor, whether it has few or very many other live or completed transactions and measured paths; processing a packet and adding a user cost a server the same with few or many users; pushing, popping, removing, moving, looking at the ends of a list do not depend on its length, nor does reading a token on the number of tokens. Many transactions that live at once all get their outcome in time proportional to their number.',
 ['histories'], 'every number of other transactions, paths, users, elements and tokens',
 'Tests have one or two transactions, users and paths.',
 [S+'stun/stun_client_udp.cpp', S+'stun/details/stun_client_udp_rto.cpp', S+'stun/stun_server_stateless.cpp', S+'net/net_path_hash.hpp', S+'precis/precis_opaque_string_hash.hpp', S+'stun/stun_transaction_id_hash.hpp', S+'util/util_intrusive_list.hpp', S+'util/util_token_stream.hpp'], [('m_tid_to_handle, m_tmap, m_tid_timeline', S+'stun/stun_client_udp.hpp'), ('O(1) operations', S+'util/util_intrusive_list.hpp')], None, ['CPU time of operations among few and many'])
prop('P46', 'Values are equal exactly if they denote the same',
 'Two transaction ids, digests, opaque strings, passwords, padded keys, addresses, paths, xored addresses, domain names, foundations, component ids, priorities, candidate and transport types, ports, attribute types, message classes and methods, payload types, sources and handles are equal exactly if every byte, letter and number in them is the same; passwords and keys exactly if they are the same HMAC key; error code attributes exactly if their codes are, whatever the phrase. Equality is symmetric, != is its negation, and neither the way a value was made (constructed, parsed, copied, moved, assigned) nor the memory it lies in changes it. Addresses of different families are never equal. The named error codes are those of the RFC.',
 ['inputs'], 'every pair of values of each type',
 'Tests compare a handful of values, most of them equal; a comparison that leaves something out shows only for values that differ just there.',
 [S+'stun/stun_transaction_id.hpp', S+'stun/stun_attribute.cpp', S+'stun/stun_attribute.hpp', S+'stun/stun_address.hpp', S+'stun/stun_password.hpp', S+'crypto/crypto_hash.hpp', S+'crypto/crypto_hmac.hpp', S+'net/net_path.hpp', S+'net/net_fqdn.hpp', S+'net/ip/ip_address.hpp', S+'ice/candidate/ice_candidate_foundation.hpp', S+'rtp/rtp_ssrc.hpp', S+'rtp/rtp_payload_type.hpp', S+'util/util_tagged_type.hpp'], [('operator==', S+'stun/stun_attribute.cpp'), ('operator==', S+'crypto/crypto_hash.hpp')], None, ['comparisons of values made in dirty memory'])
prop('P47', 'Results depend on arguments only; nothing ambient is read or changed',
 'Apart from the clock adapters, which read their clock, no operation reads a clock, the environment, a file or a source of randomness of its own, writes anything anywhere, makes a system call other than for memory, starts a thread, or changes the locale, the handling of signals, the floating-point environment, errno-independent process state or the state of a stream beyond what is written to it. What an operation gives is the same in every C and C++ locale, with every rounding mode, every environment, time zone and working directory, with every stack and heap contents, on every thread and in a child process.',
 ['inputs', 'histories', 'fault_sequences'], 'every sequence of calls of all modules in every state of the process',
 'Tests run in the C locale with the default state of the process and cannot notice a call that reads or writes on the side.',
 [S+'stun/stun_client_udp.cpp', S+'stun/stun_server_stateless.cpp', S+'abnf/abnf.hpp', S+'net/net_fqdn.cpp', S+'net/ip/ip_address.cpp', S+'ice/candidate/ice_candidate_sdp.cpp', S+'clock/clock_std.hpp', S+'rtp/rtp_packet.cpp', S+'precis/precis_opaque_string.cpp'], [('eq_string', S+'abnf/abnf.hpp'), ('random generators passed in', S+'stun/stun_client_udp.cpp')], None, ['all modules in filtered child processes and changed surroundings'])
T = 'examples/echo/backend/ts/'
prop('P48', 'Echo example: descriptions are read as they are written, transports bundled',
 'The parser of session descriptions of the echo example accepts exactly the texts whose lines come in the order of the grammar of RFC 8866 that it documents, each ended by CR LF; it reports every field with the value it has on its line, writing what was read gives the same text, and every text, hostile ones included, is answered with a description or an error in a time proportional to its length. The transports reported are those of the BUNDLE groups in their order: user fragment, password, options, fingerprint and setup of their media, with the candidates of all of their media in order; media of a bundle that disagree, and names of no media, are refused. Nothing changes the description it was given.',
 ['inputs'], 'every text and every description',
 'There is no test of the example, and descriptions come from browsers and from whoever reaches the server.',
 [T+'sdp.ts', T+'webrtc_sdp.ts'], [('parseSDP', T+'sdp.ts'), ('webrtcProcessSDP', T+'webrtc_sdp.ts')], None, ['session descriptions read and written, transports'])
prop('P49', 'Echo example: every request and datagram is answered once, by its rule',
 'The HTTP server of the echo example applies to every request the first rule whose method and prefix fit, 404 if none does. JSON requests reach the handler once, with the value sent however the bytes were cut on their way; 406 for other types, 400 for what is not JSON, the code and text the handler gives, 500 if it fails. Requests to another server are passed on once, with method, target, headers and body, and answered as that server answers; 500 if it cannot be reached, and an answer that breaks off breaks off for the client as well. An offer is answered with the same media, attributes and the opposite setup role, and with one candidate per address at a new socket whose STUN server knows the two user fragments and the local password; each datagram reaches that server once with its sender, and a response goes to that sender only. No request, client or target makes the server end or leave a client without end.',
 ['inputs', 'schedules', 'fault_sequences'], 'every sequence of requests, datagrams and failures of clients and targets',
 'There is no test of the example; pieces and failures come at moments a test does not choose.',
 [T+'http.ts', T+'echo.ts', T+'echo_transport.ts'], [('doProcessJson', T+'http.ts'), ('doProxy', T+'http.ts'), ('sdpOffer', T+'echo.ts')], None, ['requests and datagrams over loopback'])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
