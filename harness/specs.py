"""What each check builds and runs, and the least it must have observed."""

# Sources that upstream does not build either.
EXCLUDE = {"util_error.cpp", "util_error_code.cpp", "util_binary_view.cpp"}

_W = "-w -std=gnu++20 -g1 -fno-omit-frame-pointer -D_GLIBCXX_ASSERTIONS"
CONFIGS = {
    "asan": {
        "cxx": "/usr/bin/clang++-18",
        "cflags": _W + " -O1 -fsanitize=address,undefined -fno-sanitize-recover=all -fsanitize-address-use-after-scope",
        "ldflags": "-fsanitize=address,undefined",
        "desc": "clang -O1, AddressSanitizer + UndefinedBehaviorSanitizer, libstdc++ assertions",
    },
    "tsan": {
        "cxx": "/usr/bin/clang++-18",
        "cflags": _W + " -O1 -fsanitize=thread",
        "ldflags": "-fsanitize=thread",
        "desc": "clang -O1, ThreadSanitizer",
    },
    "memcheck": {
        "cxx": "/usr/bin/g++",
        "cflags": _W + " -O1",
        "ldflags": "",
        "wrap": ["valgrind", "-q", "--error-exitcode=99", "--exit-on-first-error=yes", "--track-origins=no", "--undef-value-errors=yes", "--leak-check=no"],
        "desc": "gcc -O1 under Valgrind memcheck (definedness of every value)",
    },
    "fast": {
        "cxx": "/usr/bin/g++",
        "cflags": _W + " -O2",
        "ldflags": "",
        "desc": "gcc -O2, no sanitizer (the code generation users get)",
    },
    "node": {
        "node": True,
        "wrap": ["node"],
        "desc": "TypeScript bundled by esbuild, run by Node.js",
    },
}

SPECS = {}


def spec(pid, harness, dirs, rule, require=None, config="asan", shards=8, assumptions=None, more=None, **kw):
    part = dict(harness=harness, config=config, dirs=dirs, shards={"any": shards}, **kw)
    SPECS[pid] = dict(parts=[part] + (more or []), rule=rule, require=require or {}, assumptions=assumptions or [])


spec("P01", "clock", [], "a case is a timepoint (counter value of any magnitude) with durations in several units; non-trivial: at least one advance crosses the wrap-around, is negative or joins several units",
     {"wrapped": 1000, "pairs": 10000, "after": 1000, "before": 1000, "equal": 100})
spec("P02", "clock", [], "a case is a tick unit and a sequence of durations consumed into a timepoint; non-trivial: remainder carried or negative duration",
     {"consumed": 5000, "remainder carried": 1000, "negative": 1000})
spec("P03", "clock", [], "a case is a wrapped clock (tick unit, start reading) with a sequence of readings, in one group of a clock that goes on at each reading; non-trivial: fractional microseconds were read",
     {"readings": 10000, "clock stepped back": 100, "sub-microsecond remainder": 1000, "threads": 4})
spec("P04", "codec", ["src/stun/stun_method.cpp"], "exhaustive: each 14-bit message type, each (class, method) pair and each attribute type; non-trivial: all of them",
     {"types decoded": 16384, "types encoded": 16384, "attribute types": 65536})
spec("P35", "types", [], "a case is a pair of values of several types, a counter history or an algorithm; non-trivial: every pair, counted by value",
     {"tagged values": 20000, "booleans": 1000, "events counted": 1000000, "hashes": 10000, "chains": 10000})
spec("P36", "errors", ["src/stun/stun_error.cpp", "src/net/net_error.cpp", "src/rtp/rtp_error.cpp", "src/ice/candidate/ice_candidate_error.cpp", "src/crypto/openssl/openssl_error.cpp",
                       "node/node_stun/node_stun_error.cpp", "node/openssl/node_openssl_error.cpp", "src/util/util_error_code.cpp", "src/util/util_token_stream.cpp"],
     "exhaustive over the codes of 8 families against each other, plus OpenSSL numbers and integers that are not codes; non-trivial: each code and each OpenSSL number",
     {"codes": 67, "unknown codes": 10000, "openssl codes": 5000, "threads": 20},
     assumptions=["messages are required to mention the subject of their code (fixed key words)"])
spec("P37", "abnf", [], "exhaustive over bytes and byte pairs; random strings with variants by case, by one character and by length; non-trivial: strings longer than one character",
     {"bytes classified": 256, "byte pairs": 65536, "comparisons": 100000, "different": 5000, "equal but for case": 5000})
spec("P32", "hash", ["src/util/util_hash_murmur.cpp", "src/net/ip/ip_address.cpp", "src/net/ip/ip_address_hash.cpp", "src/net/net_error.cpp"], "random byte strings at every alignment, addresses, paths, ids and names in pairs (equal, one bit apart, unrelated); families of 2048 neighbouring values; non-trivial: non-empty",
     {"byte hashes": 20000, "different address pairs": 1000, "transaction ids": 1000, "values spread": 20000, "different names": 1000},
     assumptions=["std::hash of libstdc++ for strings and integers is trusted"])
spec("P33", "list", [], "a case is a history of up to 45 operations on up to 4 lists and 9 elements with two links each, then destruction in random order; plus every sequence of 4 (thorough: 5) operations out of 14 on 2 lists and 3 elements; non-trivial: all, counted by history",
     {"states checked": 100000, "full orders checked": 20000, "operation sequences enumerated": 30000, "op: link assignment": 1000, "op: move element": 1000,
      "op: list move assignment": 1000, "op: list move construction": 300, "op: destroy list": 1000, "op: destroy element": 1000})
spec("P34", "text", ["src/util/util_token_stream.cpp"], "random texts with random density of separators, streams read by random calls with copies in the middle; non-trivial: more than one part / at least one token",
     {"parts": 50000, "splits": 5000, "tokens read": 20000, "missing tokens reported": 5000, "mismatches reported": 1000, "streams copied": 3000, "flattened": 5000})

_STUN = ["src/stun/stun_message.cpp", "src/stun/stun_attribute.cpp", "src/stun/stun_attribute_set.cpp", "src/stun/stun_address.cpp", "src/stun/stun_error.cpp", "src/stun/stun_header.cpp",
         "src/stun/stun_method.cpp", "src/stun/stun_password.cpp", "src/stun/details/stun_fingerprint.cpp", "src/net/net_error.cpp", "src/net/ip/ip_address.cpp",
         "src/crypto/openssl/openssl_hash.cpp", "src/crypto/openssl/openssl_error.cpp"]
_RFC = ["the reference model of STUN (harness/stunref.hpp) follows RFC 5389 and RFC 3489", "values longer than a fixed-size attribute needs may be accepted or refused"]
spec("P06", "stunmsg", _STUN, "well-formed messages with random attributes, the same with 1-3 hostile changes, every message type and length field, every size of every known attribute; non-trivial: by bytes of the packet",
     {"accepted": 10000, "RFC 3489 requests": 300, "with unknown attributes": 1000, "with duplicate or ignored attributes": 1000, "types and lengths enumerated": 65536, "attribute types in messages": 65536, "type and size pairs": 533,
      "rejected: invalid_fingerprint": 300, "rejected: fingerprint_not_last": 30, "rejected: invalid_attr_size": 300, "rejected: invalid_ip_address": 300}, assumptions=_RFC)
spec("P07", "stunmsg", _STUN, "random sets of attributes, with and without integrity and fingerprint, sizes up to and beyond the limit; non-trivial: by bytes of the built packet",
     {"built": 10000, "parsed back": 10000, "built large": 100, "refused": 40, "lengths around the limit": 140}, assumptions=_RFC)
spec("P08", "stunmsg", _STUN, "built and foreign messages with right, close and wrong keys, with protected bytes changed, with forged and repeated integrities; non-trivial: signed messages, by packet and key",
     {"signed": 5000, "valid": 5000, "not valid": 5000, "not signed": 1000, "changed": 5000, "keys longer than a block": 300, "two integrities": 3000, "failures of hash": 300},
     assumptions=_RFC + ["HMAC-SHA1 of OpenSSL is the reference"])
spec("P10", "stunmsg", _STUN, "CRC of random data in random parts; fingerprinted packets with every bit and random 32-bit windows corrupted; non-trivial: by bytes",
     {"crc values": 5000, "fingerprinted packets": 2000, "corruptions rejected": 20000, "bits flipped": 5000}, assumptions=_RFC)
spec("P12", "stunmsg", _STUN, "histories of 20-60 packets parsed into one statistics object; non-trivial: by bytes of the packet",
     {"stun accepted": 3000, "stun counted: invalid_ip_address": 100, "stun counted: invalid_attr_size": 100, "stun counted: invalid_fingerprint": 20, "stun counted: message_length_error": 100, "packets in long histories": 4000000})
spec("P09", "crypto", ["src/crypto/openssl/openssl_hash.cpp", "src/crypto/openssl/openssl_error.cpp"],
     "keys and data of every length up to 200 and random longer ones, data in random parts with empty ones; hash failing at each call; OpenSSL allocations and algorithms failing; non-trivial: by key and data",
     {"keyed hashes": 10000, "keys longer than a block": 2000, "data in parts": 5000, "hashes": 5000, "failures of the hash reported": 500, "out of memory reported": 100, "absent algorithm reported": 40},
     assumptions=["own SHA-1, MD5 and HMAC of the harness, cross-checked with OpenSSL's HMAC"])
spec("P11", "xor", _STUN, "random addresses and ids, each bit of both alone, every size of the value, through built and parsed messages; non-trivial: by address and id",
     {"IPv4 addresses": 5000, "IPv6 addresses": 5000, "sizes": 64, "messages": 3000})
_SERVER = _STUN + ["src/stun/stun_server_stateless.cpp"]
spec("P13", "server", _SERVER, "histories of up to 25 packets (signed, wrongly signed, tampered, other types, malformed) to servers with up to 4 users with similar names; every bit of signed requests; failing hash; all message types; non-trivial: by packet and source",
     {"answer: success": 3000, "answer: 400": 500, "answer: 401": 3000, "answer: 420": 1000, "answer: ignored": 1000, "authenticated": 1000, "bits of signed requests": 20000, "failures of hash": 100, "users added": 500, "types": 16384},
     assumptions=_RFC)
spec("P14", "server", _SERVER, "the same histories, each packet also to a fresh server; random sources; non-trivial: by packet and source",
     {"answer: success": 3000, "RFC 3489 success": 300, "authenticated": 1000, "sources": 3000}, assumptions=_RFC)
_CLIENT = _STUN + ["src/stun/stun_client_udp.cpp", "src/stun/details/stun_client_udp_rto.cpp", "src/net/ip/ip_address_hash.cpp", "src/util/util_hash_murmur.cpp"]
_VT = ["time is virtual: the client is given the time by its caller, as the library is designed"]
spec("P15", "client", _CLIENT, "histories of up to 220 steps (create, random/duplicated/forged responses, polls at random times) with up to 40 transactions, then driven to the end; crowds of 255-4100 transactions answered before anything is asked for; non-trivial: by history",
     {"transactions": 10000, "outcomes determined": 3000, "responses after the outcome": 3000, "duplicated responses": 3000, "forged responses": 3000, "refused transactions": 500, "outcome: timeout": 3000, "outcome: success": 1000}, assumptions=_VT)
spec("P16", "client", _CLIENT, "twin clients with the same life, one meets forged responses (unsigned, other key, changed bytes, second or replayed integrity); every bit of authentic responses; checks in which the hash function fails; non-trivial: by forged packet",
     {"forged: not signed": 1000, "forged: other key": 1000, "forged: changed": 1000, "forged: second integrity": 500, "forged: replayed integrity": 500, "completed by authentic responses": 500, "bits changed": 10000}, assumptions=_RFC + _VT)
spec("P17", "client", _CLIENT, "settings (request count 0-11, multiplier 1-20, timeout, maximum) x poll strategies (on time, early, late, mixed) x up to 5 transactions; non-trivial: by settings and strategy",
     {"retransmissions": 20000, "late polls": 5000, "timeouts": 5000, "with maximal interval": 1000, "settings enumerated": 700}, assumptions=_VT)
spec("P18", "client", _CLIENT, "sequences of up to 50 transactions on up to 25 paths with random round-trip times, retransmissions, errors and gaps, and overlapping ones; non-trivial: by sequence of timeouts",
     {"measurements": 10000, "zero round-trip times": 500, "back-offs": 3000, "intervals checked": 20000, "history dropped": 1000, "timeouts from history": 10000, "ambiguous round trips": 1000, "round-trip times reported": 10000},
     assumptions=_VT + ["smoothing is done in whole microseconds, truncating"])
spec("P19", "client", _CLIENT, "random responses (success, error of each code, duplicates of attributes, unknown attributes) to live transactions; all codes 0-799; non-trivial: by packet",
     {"outcome: success": 3000, "outcome: error code": 1000, "outcome: alternate server": 100, "outcome: unknown attributes reported": 100, "outcome: unknown attributes in response": 500, "outcome: error": 500, "no effect": 500, "codes": 800}, assumptions=_RFC + _VT)
spec("P20", "client", _CLIENT, "server errors at random times mixed with late, early and exact polls, for settings with and without retries; non-trivial: by history",
     {"retries granted": 5000, "retries sent": 2000, "failed by server error": 1000}, assumptions=_VT)
spec("P21", "client", _CLIENT, "up to 60 transactions with random attributes; all handed out data verified after each step; non-trivial: by data sent",
     {"views verified": 50000, "requests checked": 10000, "identical retransmissions": 5000, "signed requests": 3000}, assumptions=_RFC + _VT)
spec("P22", "client", _CLIENT, "twin clients, one driven by its sleeps, the other polled more often; schedules of up to 6 overlapping transactions; non-trivial: by history",
     {"extra polls": 10000, "sleeps": 10000, "sleeps with something due": 20000, "idle": 1000}, assumptions=_VT)
spec("P23", "client", _CLIENT, "random sources that repeat ids, hash functions of ids that collide, responses to wrong ids; non-trivial: by ids",
     {"transactions": 10000, "repeated ids skipped": 3000, "all ids collide": 500, "unknown ids refused": 3000, "completed with own content": 5000, "ids on the wire": 3000, "transactions live at once": 80000, "transactions one after another": 70000}, assumptions=_VT)

_RTP = ["src/rtp/rtp_packet.cpp", "src/rtp/rtp_payload_map.cpp", "src/rtp/rtp_error.cpp"]
_RTP_ALL = sorted(set(_RTP + _STUN))
SPECS["P12"]["parts"].append(dict(harness="rtp", config="asan", dirs=_RTP_ALL, shards={"any": 8}))
SPECS["P12"]["require"].update({"rtp accepted": 5000, "rtp counted: invalid_size": 50, "rtp counted: invalid_version": 500, "rtp counted: invalid_csrc": 200, "rtp counted: invalid_extension": 500, "rtp counted: unknown_rtp_clock": 1000, "rtp counted: invalid_padding": 200})
spec("P25", "rtp", _RTP_ALL, "well-formed packets with random maps, the same with 1-2 hostile changes, all values of the first two bytes, counts of sources x extension lengths x padding counts x sizes around the bounds; non-trivial: by bytes",
     {"accepted": 50000, "with extension": 10000, "with padding": 10000, "with contributing sources": 10000, "empty payload": 3000, "rejected: invalid_size": 1000, "rejected: invalid_version": 10000, "rejected: invalid_csrc": 1000,
      "rejected: invalid_extension": 3000, "rejected: unknown_rtp_clock": 10000, "rejected: invalid_padding": 1000, "first bytes enumerated": 100000, "bounds enumerated": 5000},
     assumptions=["a padding count of zero may be accepted or refused (RFC 3550 excludes it)", "the reference model follows RFC 3550 5.1"])
spec("P26", "rtp", _RTP_ALL, "mutated packets, noise and all prefixes in heap blocks of their exact size at any alignment, everything delimited is read; non-trivial: by bytes",
     {"packets": 100000, "parsed": 20000, "refused": 20000, "bytes read": 1000000, "extensions read": 5000, "prefixes": 50000})
spec("P27", "rtp", _RTP_ALL, "all sequence numbers and payload types (and pairs), random and extreme 32 bit values, random maps of up to 128 types; non-trivial: by value",
     {"sequence numbers": 65536, "payload types": 256, "32 bit values": 30000, "rates found": 50000, "types not registered": 50000})
spec("P05", "hostile", _CLIENT + ["src/stun/stun_server_stateless.cpp"], "mutated messages, bodies of random attributes, every type with every size, every prefix, noise, packets up to 131 kB; attribute values alone and among other bytes; each message parsed, read, verified, rebuilt, copied, given to a server and to a client whose transaction it names; non-trivial: by bytes",
     {"packets": 60000, "parsed": 15000, "messages outlive packets": 15000, "integrity checked": 3000, "rebuilt": 20000, "answered": 1000, "taken by client": 5000, "prefixes": 10000, "type and size pairs": 3000, "large packets": 64, "endured": 40, "work measured": 60},
     assumptions=["memory errors are those AddressSanitizer, UndefinedBehaviorSanitizer, libstdc++ assertions and the contracts of craftpp report; leaks are found by the growth of the heap per repeated case"])

_NET = ["src/net/net_error.cpp", "src/net/net_port.cpp", "src/net/net_fqdn.cpp", "src/net/ip/ip_address.cpp"]
_ICE = sorted(set(_NET + _STUN + ["src/util/util_token_stream.cpp"] + ["src/ice/candidate/ice_candidate_%s.cpp" % x for x in "address component_id error foundation preference priority sdp transport_type type".split()]))
spec("P30", "netaddr", _ICE, "random addresses in random notations, the same with 1-2 edits, sequences of numbers and groups, every byte before and after, 60 kinds of decoration; all ports 0-69999 with leading zeros; non-trivial: by text or value",
     {"addresses accepted": 10000, "addresses refused": 20000, "IPv4": 3000, "IPv6": 3000, "tails": 256, "round trips": 10000, "ports accepted": 60000, "ports refused": 5000},
     assumptions=["textual addresses are those of RFC 4291 and dotted decimals without leading zeros (own recogniser)"])
spec("P31", "netaddr", _ICE, "random names, the same with 1-3 edits, every string of up to 6 (thorough: 8) characters out of 5 classes, every byte at 11 places; non-trivial: by text",
     {"whole names": 15000, "partial names": 15000, "no name": 5000, "short texts enumerated": 15000, "characters": 256})
spec("P28", "ice", _ICE, "random candidates of all forms, with 1-2 bad fields, with edits, with tokens moved; non-trivial: by text",
     {"parsed": 12000, "with extensions": 3000, "with related address": 3000, "unsupported": 4000, "refused for foundation": 1000, "refused for component": 800, "refused for priority": 1000, "refused for port": 1000, "refused for rport": 100, "refused for raddr": 100, "refused": 100, "not parsed": 3000, "tokens moved": 5000, "not candidates": 1000},
     assumptions=["component id 0 as text, repeated raddr/rport and keywords in upper case are not specified", "a truncated line may be refused or reported as unsupported"])
spec("P29", "ice", _ICE, "all numbers up to 69999 and extremes, all texts of up to 3 digits, foundations of all lengths with every byte, all case variants of names, random preferences; non-trivial: by value or text",
     {"numbers": 100000, "components": 256, "component texts": 30000, "foundations": 20000, "priority texts": 40000, "names": 30000, "priorities computed": 4000, "pairs of preferences": 3000})
spec("P40", "hostile_text", _ICE, "candidate lines and fields with edits, noise, every prefix and suffix, texts of 70 kB, in heap blocks of the exact size without terminator; results read again after the text is overwritten and released, and compared with those of the same text inside of others; non-trivial: by text",
     {"texts": 100000, "candidates parsed": 8000, "candidates not supported": 3000, "names": 6000, "addresses": 1500, "errors read": 50000, "prefixes": 20000, "long texts": 16},
     assumptions=["memory errors are those the sanitizers, libstdc++ assertions and contracts of craftpp report", "work is compared between texts of 4 and 64 kB"])
spec("P24", "netsim", _CLIENT + ["src/stun/stun_server_stateless.cpp"], "simulated networks: loss 0-100 %, duplicates, delays up to a minute, corruption of headers and values, misdelivery, address rebinding; 1-6 clients with up to 100 transactions, 1-3 servers; non-trivial: by history of outcomes",
     {"transactions": 5000, "successes": 1500, "authenticated successes": 300, "successes after retransmission": 300, "timeouts": 1000, "outcomes: unknown attributes reported": 100, "outcomes: error code": 50, "corrupted requests": 1000, "corrupted responses": 300,
      "late, duplicated and stray responses": 1000, "packets lost": 5000, "packets duplicated": 3000, "packets reordered": 1000},
     assumptions=["corruption is confined to 32 bits in the header (but its length) or in an attribute value, and to packets with fingerprint", "virtual time; clients are polled when they ask for it or later"])

_ALL = sorted(set(_CLIENT + _RTP_ALL + _ICE + ["src/stun/stun_server_stateless.cpp"]))
spec("P39", "fresh", _ALL, "12 kinds of work covering every module, each repeated on fresh objects with stack and heap filled with four patterns, and in other processes; a smaller number under memcheck; non-trivial: by digest of the results",
     {"runs compared": 40000, "outputs examined": 100, "processes compared": 400}, config="fast", group="repeated")
SPECS["P39"]["parts"].append(dict(harness="fresh", config="fast", dirs=_ALL, group="processes"))
SPECS["P39"]["parts"].append(dict(harness="fresh", config="memcheck", dirs=_ALL, shards={"any": 8}, group="definedness"))
spec("P38", "threads", _ALL, "2-6 threads doing 12 kinds of work covering every module with objects of their own, the same kind at a time or mixed, and processes in which threads make the first use of the library; non-trivial: by results",
     {"jobs done next to other threads": 4000, "objects handed over": 1000, "processes with concurrent first use": 100, "threads": 200}, config="tsan",
     assumptions=["OpenSSL is not instrumented: its own synchronisation is invisible to ThreadSanitizer, nothing is claimed about it"])

_NODE = sorted(set(_CLIENT + _ICE + ["src/stun/stun_server_stateless.cpp"]
                   + ["node/node_stun/node_stun_%s.cpp" % x for x in "client_udp client_udp_auth client_udp_effects client_udp_settings error header message server_stateless".split()]
                   + ["node/node_ice/node_ice_candidate.cpp", "node/openssl/node_openssl_error.cpp", "node/openssl/node_openssl_hash.cpp"]))
_NAPI = ["craftnapi (not in the sandbox) is replaced by the stand-in /verif/shim/craftnapi: values live in this process, not in a JavaScript engine"]
spec("P41", "node", _NODE, "random binding messages and candidate lines, the same with 1-3 hostile changes, wrong arguments; non-trivial: by bytes or text",
     {"candidates refused": 4000, "candidates reported": 12000, "candidates unsupported": 2000, "extensions reported": 6000, "malformed messages refused": 5000, "mapped addresses reported": 1600, "messages reported": 9000, "wrong arguments refused": 3000}, assumptions=_NAPI + ["a message whose method has no name may be refused", "texts that are not UTF-8 are handed over as bytes"])
spec("P42", "node", _NODE, "histories of calls on a server and a client object next to the C++ object under the same (virtual) steady clock, with calls with wrong arguments in between; digests in random parts with failing steps; non-trivial: by history, packet or data",
     {"hash failures reported": 1000, "hashes": 2500, "ignored messages reported": 800, "packets ignored": 1800, "responses of class 2": 3500, "responses of class 3": 5000, "round trips reported": 600, "slept as told": 4000, "successes": 1600,
      "failed: 0": 200, "failed: 3": 500, "failed: 5": 1400, "transactions with credentials": 2000, "users added": 2000, "wrong arguments refused": 4500, "other objects refused": 900, "crowds": 20}, assumptions=_NAPI + _VT + ["round trips below 2147 s (an int32 of microseconds)"])

spec("P43", "memory", _ALL, "12 kinds of work repeated, clients living through 80 generations of transactions of all ends, clients stopped anywhere, thousands of paths, packets without effect, retransmissions, servers under hostile packets, peaks of parsing; every allocation inside the library is counted; non-trivial: by history, seed or packet",
     {"allocations watched": 100000, "idle clients measured": 5000, "transactions": 50000, "transactions refused": 5000, "destroyed with unfinished transactions": 300, "paths": 30000, "packets without effect": 10000, "retransmissions": 50000, "packets served": 20000, "answers": 10000, "peaks measured": 800, "large inputs": 100, "list operations": 50000},
     config="fast", assumptions=["memory that OpenSSL keeps for itself after its first use is not counted"])
spec("P45", "scale", _ALL, "27 kinds of operations on clients, servers, lists and token streams, each measured among 64 and among 24000 (thorough: 120000) others; crowds of 1000 and 16000 transactions living at once; non-trivial: by kind and random source",
     {"operations measured": 100000, "kinds of operations measured": 27, "operations with effect": 16, "transactions in crowds": 200000}, config="fast",
     assumptions=["cost is CPU time of the thread, the smallest of many runs; a growth below 12 times from 64 to 24000 counts as none (caches, logarithms)"])
spec("P44", "values", _ALL, "random values of 22 types, copied, moved, assigned, swapped, kept in growing vectors, their originals destroyed and overwritten; copies of 8 kinds of objects changed; messages received in one buffer; non-trivial: by value",
     {"values compared": 30000, "copies": 2000, "moves": 2000, "copy assignments": 1000, "changes of copies": 1500, "messages kept": 5000})
spec("P46", "equal", _ALL, "pairs of values of 26 types: the same, one bit or byte apart anywhere, exchanged parts, shorter and longer ones, other families; all pairs of the small types; each made in different memory, copied, moved and assigned; non-trivial: by pair",
     {"comparisons": 4000000, "equal pairs": 20000, "different pairs": 130000, "named error codes": 20000})
spec("P47", "ambient", _ALL, "18 kinds of work covering every module, each in a process of its own in plain and three other surroundings (locales, rounding, environment, files, user, threads, streams, signals) of 17, where every system call but for memory is refused; 14 forbidden acts that the monitor must see; non-trivial: by digest of the results",
     {"pieces of work watched": 9000, "forbidden acts seen": 14}, config="fast",
     assumptions=["OpenSSL's own first use (configuration, entropy) is made before the watch begins", "message catalogues (LC_MESSAGES) stay those of C"])
SPECS["P47"]["parts"][0]["no_leaks"] = True

_TS = ["examples/echo/backend/ts", "examples/echo/backend/ts/echo.ts"]
spec("P48", "echo", _TS, "random session descriptions of every kind of line, the same with lines lost, doubled, exchanged and with 1-4 damages, texts made to make parsers run without end; bundles of media with equal and unequal transports; non-trivial: by text",
     {"descriptions read and written": 5000, "media read": 5000, "with bandwidth": 2000, "with several times": 2000, "with a number of ports": 800, "orders accepted": 1500, "orders refused": 4000, "damaged accepted": 1000, "damaged refused": 4000,
      "hostile texts": 1400, "transports": 5000, "candidates joined": 10000, "unequal bundles refused": 600}, config="node")
spec("P49", "echo", _TS, "requests of 4 methods to servers with rules for JSON and for other servers, whole and in pieces cut anywhere; offers, candidates and datagrams to the whole example; odd payloads, clients and targets that go away at any point; non-trivial: by request and answer",
     {"requests without a rule": 1000, "requests passed on": 300, "requests that are not JSON": 90, "JSON requests answered": 180, "handlers that fail": 80, "JSON requests refused by the handler": 80, "requests of other types": 90, "proxy target not reachable": 30,
      "offers answered": 90, "bad offers refused": 10, "candidates handed over": 20, "datagrams answered": 250, "datagrams ignored": 400, "targets that fail": 200, "clients that leave": 120, "odd payloads answered": 100, "servers live on": 120}, config="node",
     assumptions=["the native module (not built in the sandbox) is replaced by a stand-in that records its calls; P41 and P42 decide it", "sockets of the loopback interface"])
for _pid in ["P48", "P49"]:
    SPECS[_pid]["parts"][0]["no_leaks"] = True

# The same, less of it, in programs with other locales.
for _pid in ["P28", "P30", "P31", "P34", "P37"]:
    for _loc in ["tr", "de", "odd"]:
        _p = dict(SPECS[_pid]["parts"][0], locale=_loc, scale={"quick": 0.15, "thorough": 0.3}, shards={"any": 2})
        SPECS[_pid]["parts"].append(_p)
        SPECS[_pid]["require"]["run in locale " + _loc] = 1

# Groups added later.
for _pid, _more in {
    "P11": {"16-byte transaction ids": 1500},
    "P02": {"whole ticks converted": 20000},
    "P03": {"readings of a moving clock": 60000},
    "P05": {"values read": 8000, "values refused": 3000},
    "P06": {"longer than 1500 bytes": 80, "rejected: magic_cookie_error": 20000, "rejected: not_padded": 10000, "rejected: message_length_error": 5000},
    "P07": {"sizes enumerated": 2000},
    "P08": {"signed beyond 16384 bytes": 100, "digests near the right one": 8000, "digests with a zero byte": 50, "fingerprint follows": 2500, "sizes enumerated": 500},
    "P09": {"large hashes": 20, "stale errors": 1000},
    "P10": {"long inputs": 12, "chosen values of CRC": 800, "other fingerprints rejected": 4000},
    "P13": {"crowds of users": 24, "users in crowds": 20000, "requests with many unknown attributes": 48, "sizes enumerated": 3000, "unknown types enumerated": 60000},
    "P14": {"requests with many unknown attributes": 48, "sizes enumerated": 3000, "unknown types enumerated": 60000},
    "P15": {"outcomes in crowds": 25000, "outcomes between calls": 3000},
    "P16": {"forged and parsed elsewhere": 8000, "parsed elsewhere, no bytes": 1500, "responses that could not be checked": 5000},
    "P17": {"hundreds of transmissions": 20, "steps with responses that decide nothing": 4000, "forged responses": 2000, "messages that are no responses": 2000, "responses of unknown kind": 2000, "responses to others": 2000},
    "P21": {"forged responses": 2000, "responses to others": 2000},
    "P18": {"ambiguous after server errors": 800, "created in crowds": 3000, "answered after any number of transmissions": 50, "answers when another path expires": 3000, "round trips of hours": 400},
    "P19": {"past: transmissions": 8000, "past: server errors": 3000, "past: forged responses": 1500, "put off": 300, "responses with long lists": 32, "unknown types enumerated": 60000},
    "P20": {"hundreds of server errors": 8, "server errors between calls": 2500, "server errors while other transmissions wait": 1200},
    "P22": {"put off by server errors": 2500, "sleeps with a retry due": 15000},
    "P23": {"repeated ids offered": 1200},
    "P25": {"lengths enumerated": 1500},
    "P26": {"long extensions": 20},
    "P28": {"lengths enumerated": 160, "very long candidates": 8},
    "P30": {"decorated addresses": 200000},
    "P31": {"lengths enumerated": 130, "very long names": 16},
    "P32": {"hashes in used memory": 10000, "paths and their reverses": 3000},
    "P34": {"lengths enumerated": 230, "very many parts": 8},
    "P37": {"long texts": 40},
    "P40": {"texts inside of others": 100000},
}.items():
    SPECS[_pid]["require"].update(_more)
