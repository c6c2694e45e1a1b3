// P48, P49: the echo example (examples/echo/backend/ts). Same output as common.hpp gives.
'use strict';
const fs = require('fs'), vm = require('vm'), net = require('net'), httpm = require('http'), dgram = require('dgram'), os = require('os'), path = require('path'), Module = require('module');
const sdp = require('example/sdp'), web = require('example/webrtc_sdp'), srv = require('example/http');

// ---------------------------------------------------------------- frame
const opt = { seed: 1, thorough: false, shard: 0, shards: 1, out: '', prop: '', group: '', idx: -1, scale: 1 };
for (let a = process.argv.slice(2); a.length > 0;) {
    const k = a.shift();
    if (k === '--shard') { opt.shard = +a.shift(); opt.shards = +a.shift(); }
    else if (k === '--thorough') { opt.thorough = true; }
    else if (k === '--no-leaks') {}
    else { const v = a.shift(); opt[k.slice(2)] = ['prop', 'out', 'group', 'locale'].includes(k.slice(2)) ? v : +v; }
}
const out = { events: {}, cases: {}, samples: [], seen: 0 };
const hashes = new Set();
const EV = (n, k = 1) => { out.events[n] = (out.events[n] || 0) + k; };
function hash64(s) {
    let a = 0x811c9dc5, b = 0x01000193 ^ s.length;
    for (let i = 0; i < s.length; ++i) { const c = s.charCodeAt(i); a = Math.imul(a ^ c, 16777619); b = Math.imul(b ^ (c + i), 0x5bd1e995) ^ (b >>> 13); }
    return (BigInt(a >>> 0) << 32n) | BigInt(b >>> 0);
}
class Rng {
    constructor(text) { const h = hash64(text); this.a = Number(h >> 32n) | 0; this.b = Number(h & 0xffffffffn) | 0; for (let i = 0; i < 4; ++i) { this.u32(); } }
    u32() { // sfc-like
        this.a = (this.a + 0x6d2b79f5) | 0;
        let t = Math.imul((this.a ^ this.b) ^ (this.a >>> 15), 1 | this.a);
        t = (t + Math.imul(t ^ (t >>> 7), 61 | t)) ^ t;
        this.b = (this.b + t) | 0;
        return (t ^ (t >>> 14)) >>> 0;
    }
    below(n) { return this.u32() % n; }
    range(a, b) { return a + this.below(b - a + 1); }
    coin() { return (this.u32() & 64) !== 0; }
    chance(a, b) { return this.below(b) < a; }
    of(v) { return v[this.below(v.length)]; }
}
class Failed extends Error { constructor(key, msg) { super(msg); this.key = key; } }
function CHECK(ok, key, msg) { if (!ok) { throw new Failed(key, typeof msg === 'function' ? msg() : msg); } }
const show = (s, n = 300) => { const t = typeof s === 'string' ? JSON.stringify(s) : JSON.stringify(s); return t === undefined ? String(s) : t.length > n ? t.slice(0, n) + '…' : t; };
const same = (x, y) => { // by content; undefined is the same as absent
    if (x === y) { return true; }
    if (typeof x !== 'object' || typeof y !== 'object' || x === null || y === null || Array.isArray(x) !== Array.isArray(y)) { return false; }
    for (const k of new Set([...Object.keys(x), ...Object.keys(y)])) { if (!same(x[k], y[k])) { return false; } }
    return true;
};
const groups = [];
// Defects of the example that are known (known_findings.txt): a failure is one of them only if it is exactly
// what the defect does to that input; anything else fails as usual.
const noted = new Set();
let note = () => {};
function KNOWN(key, msg) { if (!noted.has(key)) { noted.add(key); note(key, typeof msg === 'function' ? msg() : msg); } EV('finding met: ' + key); }
const uncaught = [];
const GROUP = (prop, name, quick, thorough, fn) => groups.push({ prop, name, quick, thorough, fn });
// Without end only as long as that.
let guarded, answer;
globalThis.__guarded = () => { answer = guarded(); };
const script = new vm.Script('__guarded()');
function within(what, ms, fn) {
    guarded = fn;
    try { script.runInThisContext({ timeout: ms }); } catch (e) {
        if (e && e.code === 'ERR_SCRIPT_EXECUTION_TIMEOUT') { throw new Failed('hang', what + ' takes more than ' + ms + ' ms'); }
        if (e instanceof Failed) { throw e; }
        throw new Failed('throws', what + ' throws ' + e);
    }
    return answer;
}
const MS = 8000;
// The same within less time, known to fail.
function within_known(key, what, ms, fn) {
    try { return within(what, ms, fn); } catch (e) {
        if (e instanceof Failed && e.key === 'hang') { KNOWN(key, e.message); return null; }
        throw e;
    }
}

// ---------------------------------------------------------------- descriptions
const LETTERS = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789';
const token = (r, n = 12) => { let s = ''; for (let k = r.range(1, n); k > 0; --k) { s += r.chance(1, 8) ? r.of(['-', '.', '+', '_', '/', '*', '!', '=']) : LETTERS[r.below(62)]; } return s; };
// Any characters but those that end a line.
const bytes = (r, n = 30) => { let s = ''; for (let k = r.range(1, n); k > 0; --k) { s += r.chance(1, 2) ? LETTERS[r.below(62)] : r.of([' ', ':', '=', '/', ',', '"', '%', '\\', '$', '&', '$1', '\t', 'é', 'ß', '中', '🙂', '\u0001', '~', 'a=', 'm=', '<', '\u00a0']); } return s; };
const number = (r) => String(r.chance(1, 4) ? r.below(10) : r.below(4294967295));
const address = (r) => r.coin() ? { type: 'IP4', value: [0, 0, 0, 0].map(() => r.below(256)).join('.') + (r.chance(1, 6) ? '/127' : '') } : { type: 'IP6', value: r.of(['::', '::1', 'fe80::' + r.below(65536).toString(16), 'ff02::1/3', '2001:db8::' + token(r, 3)]) };
const connection = (r) => ({ net: 'IN', address: address(r) });
const many = (r, n, fn) => { const v = []; for (let k = r.chance(1, 2) ? 0 : r.range(1, n); k > 0; --k) { v.push(fn(r)); } return v; };
const bandwidth = (r) => ({ type: r.of(['AS', 'CT', 'TIAS', 'X-YZ', token(r).replace(/:/g, '')]), value: number(r) });
function transport_attrs(r, ice) {
    const v = ['ice-ufrag:' + ice.ufrag, 'ice-pwd:' + ice.pwd];
    if (ice.options !== undefined) { const o = ice.options.slice(); if (r.coin()) { o.reverse(); } v.push('ice-options:' + o.join(' ')); }
    if (ice.fingerprint !== undefined) { v.push('fingerprint:' + ice.fingerprint); }
    if (ice.setup !== undefined) { v.push('setup:' + ice.setup); }
    return v;
}
function ice_of(r) {
    return { ufrag: token(r, 8), pwd: token(r, 24), options: r.coin() ? many(r, 3, (q) => token(q, 8)).concat(['trickle']) : undefined,
             fingerprint: r.coin() ? 'sha-256 ' + token(r, 30) + ':' + token(r, 5) : undefined, setup: r.chance(4, 5) ? r.of(['actpass', 'active', 'passive', 'holdconn']) : undefined };
}
const plain_attr = (r) => r.of([() => token(r), () => token(r) + ':' + bytes(r), () => 'rtpmap:' + r.below(128) + ' opus/48000/2', () => 'sendrecv', () => 'rtcp-mux', () => 'x' + bytes(r), () => 'fmtp:96 ' + bytes(r)])();
const shuffled = (r, v) => { const o = v.slice(); for (let i = o.length - 1; i > 0; --i) { const j = r.below(i + 1); [o[i], o[j]] = [o[j], o[i]]; } return o; };
function media(r, extra) {
    const m = { media: r.of(['audio', 'video', 'application', token(r, 6)]), port: r.of([0, 9, 65535, r.below(65536)]), proto: r.of(['UDP/TLS/RTP/SAVPF', 'RTP/AVP', 'TCP', token(r)]),
                formats: [r.below(128)].concat(many(r, 8, (q) => q.below(q.chance(1, 9) ? 100000 : 128))), connection: many(r, 3, connection), bandwidth: many(r, 3, bandwidth), attrs: shuffled(r, many(r, 6, plain_attr).concat(extra || [])) };
    if (r.chance(1, 5)) { m.integer = '/' + r.range(1, 99); }
    if (r.chance(1, 3)) { m.information = bytes(r); }
    if (r.chance(1, 6)) { m.key = r.of(['prompt', 'clear:' + bytes(r)]); }
    return m;
}
function description(r, medias, attrs) {
    const d = { v: 0, origin: { username: r.chance(1, 2) ? '-' : token(r), sess: { id: number(r), version: number(r) }, net: 'IN', address: address(r) }, name: r.chance(1, 3) ? '-' : bytes(r), emails: many(r, 2, bytes), phones: many(r, 2, bytes),
                bandwidth: many(r, 3, bandwidth), time: [number(r) + ' ' + number(r)].concat(many(r, 3, (q) => number(q) + ' ' + number(q))), attrs: (attrs || []).concat(many(r, 5, plain_attr)), media: medias || many(r, 4, (q) => media(q)) };
    if (r.chance(1, 3)) { d.information = bytes(r); }
    if (r.chance(1, 4)) { d.uri = 'http://' + token(r); }
    if (r.chance(1, 2)) { d.connection = connection(r); }
    if (r.chance(1, 6)) { d.zone = number(r) + ' -1h'; }
    if (r.chance(1, 6)) { d.key = r.of(['prompt', 'base64:' + token(r)]); }
    return d;
}
// The text of a description, as the lines of RFC 8866.
const conn_text = (c) => 'c=' + c.net + ' ' + c.address.type + ' ' + c.address.value;
function lines_of(d) {
    const v = ['v=0', 'o=' + [d.origin.username, d.origin.sess.id, d.origin.sess.version, d.origin.net, d.origin.address.type, d.origin.address.value].join(' '), 's=' + d.name];
    const put = (k, x) => { if (x !== undefined) { v.push(k + '=' + x); } };
    put('i', d.information); put('u', d.uri);
    d.emails.forEach((x) => put('e', x)); d.phones.forEach((x) => put('p', x));
    if (d.connection) { v.push(conn_text(d.connection)); }
    d.bandwidth.forEach((b) => put('b', b.type + ':' + b.value));
    d.time.forEach((t) => put('t', t));
    put('z', d.zone); put('k', d.key);
    d.attrs.forEach((a) => put('a', a));
    for (const m of d.media) {
        v.push('m=' + m.media + ' ' + m.port + (m.integer || '') + ' ' + m.proto + ' ' + m.formats.join(' '));
        put('i', m.information);
        m.connection.forEach((c) => v.push(conn_text(c)));
        m.bandwidth.forEach((b) => put('b', b.type + ':' + b.value));
        put('k', m.key);
        m.attrs.forEach((a) => put('a', a));
    }
    return v;
}
const text_of = (lines) => lines.map((l) => l + '\r\n').join('');
const kinds_of = (lines) => lines.map((l) => l[0]).join('');
// v o s i? u? e* p* c? b* t* z? k? a* (m i? c* b* k? a*)*
const ORDER = /^vosi?u?e*p*c?b*t*z?k?a*(mi?c*b*k?a*)*$/;

// What the known defects make of lines: values of bandwidths and numbers of ports lost when they are read, all times in one line when they are written.
function defect_lines(lines, read) {
    let v = lines.slice();
    if (read) { v = v.map((l) => l.startsWith('b=') ? l.replace(/:[^:]*$/, ':undefined') : l.startsWith('m=') ? l.replace(/^(m=[^ ]* [^ \/]*)\/[^ ]*/, '$1') : l); }
    let end = v.findIndex((l) => l.startsWith('m='));
    if (end < 0) { end = v.length; }
    let at = 0;
    while (at < end && 'vosiuepcb'.includes(v[at][0])) { ++at; }
    const times = v.slice(at, end).filter((l) => l.startsWith('t='));
    return v.slice(0, at).concat(['t=' + times.map((l) => l.slice(2)).join(',')], v.slice(at + times.length));
}
function findings_of(lines, read) {
    const n = lines.filter((l) => l.startsWith('t=')).length, v = n === 1 ? [] : ['known.time'];
    if (read && lines.some((l) => l.startsWith('b='))) { v.push('known.bandwidth'); }
    if (read && lines.some((l) => /^m=[^ ]* [^ ]*\//.test(l))) { v.push('known.media'); }
    return v;
}
const defect_read = (d) => ({ ...d, bandwidth: d.bandwidth.map((b) => ({ type: b.type })), media: d.media.map((m) => ({ ...m, integer: undefined, bandwidth: m.bandwidth.map((b) => ({ type: b.type })) })) });
function written(got, lines, read, msg) {
    const want = text_of(lines);
    if (got === want) { return; }
    const f = findings_of(lines, read);
    if (f.length > 0 && got === text_of(defect_lines(lines, read))) { f.forEach((k) => KNOWN(k, msg)); return; }
    CHECK(false, 'written', msg);
}
// A media line that is not of the form of the grammar.
const odd_media = (t) => t.split(/\r\n/).some((l) => /(^|[\r\n])m=/.test(l) && !/^m=[^ \r\n]* [^ \/\r\n]*(\/[^ \r\n]*)? [^ \r\n]*( [^ \r\n]+)+$/.test(l));

GROUP('P48', 'findings', 5, 5, (c) => { // inputs of the known ones
    const head = 'v=0\r\no=- 1 1 IN IP4 1.2.3.4\r\ns=-\r\n', read = (t) => within('parsing', MS, () => sdp.parseSDP(t));
    switch (c.idx) {
    case 0: { const x = read(head + 'b=AS:64\r\nt=0 0\r\n'); CHECK(x.type === 'success' && x.obj.bandwidth.length === 1 && x.obj.bandwidth[0].type === 'AS', 'content', 'bandwidth'); if (x.obj.bandwidth[0].value === undefined) { KNOWN('known.bandwidth', 'the value of b=AS:64 is lost'); } else { CHECK(x.obj.bandwidth[0].value === '64', 'content', 'bandwidth'); } break; }
    case 1: { const lines = (head + 't=0 0\r\nt=1 2\r\n').split('\r\n').slice(0, -1), x = read(text_of(lines)); CHECK(x.type === 'success' && same(x.obj.time, ['0 0', '1 2']), 'content', 'times'); written(within('writing', MS, () => sdp.serializeSDP(x.obj)), lines, true, 'two times are written as one line'); break; }
    case 2: { const x = read(head + 't=0 0\r\nm=audio 9/2 RTP/AVP 0\r\n'); CHECK(x.type === 'success' && x.obj.media.length === 1 && x.obj.media[0].port === 9, 'content', 'media'); if (x.obj.media[0].integer === undefined) { KNOWN('known.media', 'the number of ports of m=audio 9/2 RTP/AVP 0 is lost'); } else { CHECK(x.obj.media[0].integer === '/2', 'content', 'number of ports'); } break; }
    case 3: within_known('known.media', 'refusing a media line of 40 formats without line end', 1500, () => sdp.parseSDP(head + 't=0 0\r\nm=audio 9 X' + ' 1'.repeat(40))); break;
    default: within_known('known.slow', 'refusing an origin line of 5000 spaces', 1500, () => sdp.parseSDP('v=0\r\no=' + ' '.repeat(5000))); break;
    }
    EV('inputs of known findings');
    c.distinct(String(c.idx));
});
GROUP('P48', 'grammar', 6000, 300000, (c) => {
    const d = description(c.rng), lines = lines_of(d), text = text_of(lines);
    const r = within('parsing', MS, () => sdp.parseSDP(text));
    CHECK(r.type === 'success', 'refused', () => 'refuses ' + show(text, 2000) + ': ' + r.description);
    if (!same(r.obj, d)) {
        const f = findings_of(lines, true).filter((k) => k !== 'known.time'), msg = () => 'reports ' + show(r.obj, 2000) + ' instead of ' + show(d, 2000);
        CHECK(f.length > 0 && same(r.obj, defect_read(d)), 'content', msg);
        f.forEach((k) => KNOWN(k, msg));
    }
    CHECK(r.rest === '', 'rest', 'leaves a rest');
    const again = within('writing', MS, () => sdp.serializeSDP(r.obj));
    written(again, lines, true, () => 'writes ' + show(again, 2000) + ' instead of ' + show(text, 2000));
    const own = within('writing', MS, () => sdp.serializeSDP(d));
    written(own, lines, false, () => 'writes ' + show(own, 2000) + ' instead of ' + show(text, 2000));
    EV('descriptions read and written');
    EV('media read', d.media.length);
    if (d.bandwidth.length > 0) { EV('with bandwidth'); }
    if (d.time.length > 1) { EV('with several times'); }
    if (d.media.some((m) => m.integer)) { EV('with a number of ports'); }
    c.distinct(text);
    c.sample(show(text, 200));
});
GROUP('P48', 'order', 8000, 300000, (c) => {
    // Lines lost, doubled, exchanged, of a kind that is not known: accepted exactly if the order is that of the grammar.
    const r = c.rng;
    let lines = lines_of(description(r));
    for (let k = r.range(1, 2); k > 0; --k) {
        const i = r.below(lines.length), j = r.below(lines.length);
        switch (r.below(5)) {
        case 0: lines.splice(i, 1); break;
        case 1: lines.splice(j, 0, lines[i]); break;
        case 2: [lines[i], lines[j]] = [lines[j], lines[i]]; break;
        case 3: lines.splice(i, 0, r.of(['x', 'r', 'V', 'w', 'y', 'A', 'M']) + '=' + token(r)); break;
        default: lines = lines.slice(0, i); break;
        }
        if (lines.length === 0) { break; }
    }
    const text = text_of(lines), want = ORDER.test(kinds_of(lines));
    const x = within('parsing', MS, () => sdp.parseSDP(text));
    CHECK((x.type === 'success') === want, 'order', () => (want ? 'refuses ' : 'accepts ') + kinds_of(lines) + ': ' + show(text, 2000) + ' ' + (x.description || ''));
    if (want) {
        const w = within('writing', MS, () => sdp.serializeSDP(x.obj));
        written(w, lines, true, () => 'writes ' + show(w, 2000) + ' instead of ' + show(text, 2000));
        EV('orders accepted');
    } else { CHECK(x.type === 'error' && typeof x.description === 'string', 'error', 'no description of the error'); EV('orders refused'); }
    c.distinct(kinds_of(lines));
});
GROUP('P48', 'damaged', 8000, 400000, (c) => {
    // Any damage: an answer in time, and what is accepted is written back with its content.
    const r = c.rng;
    let t = text_of(lines_of(description(r)));
    for (let k = r.range(1, 4); k > 0; --k) {
        const i = r.below(t.length + 1);
        switch (r.below(7)) {
        case 0: t = t.slice(0, i); break;
        case 1: t = t.slice(0, i) + t.slice(i + r.range(1, 4)); break;
        case 2: t = t.slice(0, i) + r.of([' ', '\r', '\n', '\r\n', '=', ':', '/', '\0', 'a', '  ', 'm=', '\ud800']) + t.slice(i); break;
        case 3: t = t.slice(0, i) + t.slice(r.below(t.length + 1)); break;
        case 4: t = t.replace(/\r\n/g, r.coin() ? '\n' : '\r\n'); break;
        case 5: { const q = t.indexOf('m='); if (q >= 0) { t = t.slice(0, q) + t.slice(q).replace(/(m=[^\r]*) /, '$1' + r.of(['  ', ' x ', ' 1x ', ' /2 ', ''])); } break; }
        default: { const b = t.split(' '); if (b.length > 1) { b.splice(r.below(b.length), 1); } t = b.join(' '); break; }
        }
    }
    const odd = odd_media(t), x = odd ? within_known('known.media', 'parsing', MS, () => sdp.parseSDP(t)) : within('parsing', MS, () => sdp.parseSDP(t));
    if (x === null) { return; }
    CHECK(x.type === 'success' || x.type === 'error', 'answer', 'neither success nor error');
    if (x.type === 'error') { EV('damaged refused'); c.distinct(t); return; }
    EV('damaged accepted');
    if (odd) { KNOWN('known.media', () => 'accepts a media line that is none: ' + show(t, 2000)); return; }
    // Fields of a line never come from the next line.
    const lines = t.split('\r\n');
    CHECK(lines.pop() === '', 'end', () => 'accepts a last line without end: ' + show(t, 2000));
    CHECK(ORDER.test(kinds_of(lines)) && lines.every((l) => l[1] === '='), 'order', () => 'accepts ' + show(t, 2000));
    CHECK(x.obj.media.length === lines.filter((l) => l[0] === 'm').length, 'media', () => x.obj.media.length + ' media of ' + show(t, 2000));
    const w = within('writing', MS, () => sdp.serializeSDP(x.obj)), y = within('parsing', MS, () => sdp.parseSDP(w));
    CHECK(y.type === 'success', 'rewritten', () => 'does not read what it wrote: ' + show(w, 2000));
    const strip = (o) => { const n = { ...o, media: Array.isArray(o.media) ? o.media.map(strip) : o.media }; for (const k of ['information', 'uri', 'zone', 'key']) { if (n[k] === '') { delete n[k]; } } return n; };
    if (x.obj.time.length !== 1 && same(strip({ ...x.obj, time: [x.obj.time.join(',')] }), y.obj)) { KNOWN('known.time', () => 'reads ' + show(y.obj, 1500) + ' after writing ' + show(x.obj, 1500)); return; }
    CHECK(same(strip(x.obj), y.obj), 'rewritten', () => 'reads ' + show(y.obj, 1500) + ' after writing ' + show(x.obj, 1500));
    c.distinct(t);
});
GROUP('P48', 'hostile', 1600, 30000, (c) => {
    const r = c.rng, n = r.of([30, 60, 200, 1000, 5000]);
    const filler = r.of([' ', ' 1', '1 ', '/', ' /', ':', 'a', '=', '\r', '\n', '  9', '\u2028', 'a=']).repeat(n);
    const end = r.of(['', '\r', '\n', 'x', '\rx', '\r\n', '\n\r\n', ' \r\n']);
    const head = 'v=0\r\n', orig = 'o=- 1 1 IN IP4 1.2.3.4\r\n', rest = 's=-\r\nt=0 0\r\n';
    const t = r.of([() => 'v=0' + filler + end, () => head + 'o=' + filler + end, () => head + orig + 's=' + filler + end, () => head + orig + rest + 'c=' + filler + end, () => head + orig + 's=-\r\nc=' + filler + end, () => head + orig + 's=-\r\nb=' + filler + end + rest,
        () => head + orig + rest + 'm=audio 9 X' + filler + end, () => head + orig + rest + 'm=' + filler + end, () => head + orig + rest + 'm=audio ' + filler + ' X 1' + end, () => head + orig + rest + 'a=' + filler + end, () => head + orig + rest + ('a=' + filler.slice(0, 20).replace(/[\r\n]/g, '') + '\r\n').repeat(n) + end,
        () => head + orig + rest + 'm=a 1 b 2\r\n'.repeat(n) + end, () => filler + end])();
    const what = 'parsing ' + show(t, 120) + ' (' + t.length + ' characters)', slow = filler.includes(' ') && /(^|\n)[ocm]= ?(1 |audio [\/91 ])?[^\r\n]* [^\r\n]*/.test(t);
    const x = !slow ? within(what, MS, () => sdp.parseSDP(t)) : within_known(/\nm=/.test(t) ? 'known.media' : 'known.slow', what, 250, () => sdp.parseSDP(t));
    if (x === null) { c.distinct(t.length + t.slice(0, 100) + end); return; }
    CHECK(x.type === 'success' || x.type === 'error', 'answer', 'neither success nor error');
    EV('hostile texts'); EV('hostile: ' + x.type);
    c.distinct(t.length + t.slice(0, 100) + end);
});
GROUP('P48', 'transports', 6000, 300000, (c) => {
    const r = c.rng, nb = r.below(4), medias = [], bundles = [], attrs = [];
    let bad = false;
    for (let b = 0; b < nb; ++b) {
        const ice = ice_of(r), mids = [], candidates = [];
        for (let k = r.range(1, 3); k > 0; --k) {
            const mid = 'm' + b + token(r, 3).replace(/ /g, '') + k, cand = many(r, 4, (q) => 'candidate:' + token(q, 5) + ' 1 UDP ' + number(q) + ' 10.0.0.' + q.below(256) + ' 9 typ host');
            const own = { ...ice };
            if (mids.length > 0 && r.chance(1, 12)) { own[r.of(['ufrag', 'pwd', 'setup', 'fingerprint'])] = 'other' + token(r); bad = true; }
            const m = media(r);
            m.attrs = m.attrs.filter((a) => !/^(ice-|fingerprint|setup|candidate|mid)/.test(a));
            m.attrs = m.attrs.concat(transport_attrs(r, own)).concat(['mid:' + mid]);
            m.attrs = r.coin() ? m.attrs.concat(cand) : cand.concat(m.attrs);
            medias.push(m); mids.push(mid); candidates.push(...cand.map((x) => x.slice(10)));
        }
        if (r.chance(1, 20)) { mids.push('nowhere'); bad = true; }
        attrs.push('group:BUNDLE ' + mids.join(' '));
        bundles.push({ ice: { ufrag: ice.ufrag, pwd: ice.pwd, options: (ice.options || []).slice().sort(), candidates }, dtls: { fingerprint: ice.fingerprint, setup: ice.setup } });
    }
    if (r.coin()) { attrs.push('group:LS a b'); }
    const d = description(r, shuffled(r, medias), attrs), before = JSON.stringify(d);
    d.attrs = d.attrs.filter((a) => !a.startsWith('group:BUNDLE') || attrs.includes(a));
    let x, thrown = null;
    within('transports', MS, () => { try { x = web.webrtcProcessSDP(d); } catch (e) { thrown = e; } });
    CHECK((thrown !== null) === bad, 'transports.accept', () => (thrown ? 'refuses: ' + thrown : 'accepts') + ' ' + show(d, 2000));
    CHECK(JSON.stringify(d) === before, 'changed', 'changes the description');
    if (bad) { CHECK(thrown instanceof Error, 'transports.accept', 'no error'); EV('unequal bundles refused'); c.distinct(before); return; }
    const got = x.transports.map((t) => ({ ...t, ice: { ...t.ice, options: t.ice.options.slice().sort() } }));
    CHECK(same(got, bundles), 'transports', () => 'reports ' + show(got, 1500) + ' instead of ' + show(bundles, 1500));
    EV('transports', nb); EV('candidates joined', bundles.reduce((s, b) => s + b.ice.candidates.length, 0));
    c.distinct(before);
});

// ---------------------------------------------------------------- HTTP
const quiet = { debug() {}, info() {}, warn() {}, error() {} };
// A server of the example listening on a port of the system's choice.
async function listening(make) {
    const real = net.Server.prototype.listen;
    let server = null;
    net.Server.prototype.listen = function() { server = this; return real.call(this, 0, '127.0.0.1'); };
    try { make(); } finally { net.Server.prototype.listen = real; }
    CHECK(server !== null, 'listen', 'does not listen');
    if (!server.listening) { await new Promise((ok) => server.once('listening', ok)); }
    return server;
}
// A request in pieces; the answer as it arrives.
function ask(port, method, url, headers, pieces, gap, limit = 20000, wait = 2) {
    return new Promise((ok, no) => {
        const req = httpm.request({ host: '127.0.0.1', port, method, path: url, headers, agent: false }, (res) => {
            const got = [];
            res.on('data', (x) => got.push(x));
            res.on('end', () => ok({ code: res.statusCode, headers: res.headers, body: Buffer.concat(got) }));
            res.on('error', (e) => ok({ failed: String(e) }));
        });
        req.on('error', (e) => ok({ failed: String(e) }));
        req.setTimeout(limit, () => { req.destroy(); no(new Failed('no.answer', 'no answer to ' + method + ' ' + url)); });
        req.setNoDelay(true);
        (async () => {
            for (const p of pieces) { req.write(p); if (gap) { await new Promise((q) => setTimeout(q, wait)); } }
            req.end();
        })();
    });
}
const value = (r, depth = 0) => r.below(depth > 2 ? 4 : 6) < 4 ? r.of([null, true, r.below(1e6), bytes(r), token(r)]) : r.coin() ? many(r, 3, (q) => value(q, depth + 1)) : Object.fromEntries(many(r, 3, (q) => [token(q), value(q, depth + 1)]));
function cut(r, buf) { // anywhere, also inside of characters
    if (r.coin() || buf.length < 2) { return [buf]; }
    const v = [];
    for (let at = 0; at < buf.length;) { const n = r.range(1, Math.max(1, Math.min(buf.length - at, r.of([1, 3, 50])))); v.push(buf.subarray(at, at + n)); at += n; if (v.length > 12) { v.push(buf.subarray(at)); break; } }
    return v;
}
// Characters that arrived in pieces are known to be replaced.
const plain = (s) => s.replace(/[^\x00-\x7f]+/g, '');
function same_text(got, want, key, msg) {
    if (got === want) { return; }
    if (typeof got === 'string' && typeof want === 'string' && got.includes('\ufffd') && plain(got) === plain(want) && plain(want) !== want) { KNOWN('known.pieces', msg); return; }
    CHECK(false, key, msg);
}
GROUP('P49', 'findings', 2, 2, async (c) => {
    const front = await listening(() => new srv.HTTPServer(quiet, [{ method: 'GET', prefix: '/', action: { type: 'proxy', target: 'http://127.0.0.1:1' } }, { method: 'POST', prefix: '/', action: { type: 'process-json', handler: async (q) => ({ result: 'ok', answer: q }) } }]).listen(1));
    try {
        const b = Buffer.from('["\u00e9"]'), x = await ask(front.address().port, 'POST', '/', { 'content-type': 'application/json' }, [b.subarray(0, 3), b.subarray(3)], true, 20000, 60);
        CHECK(x.code === 200, 'http.ok', () => 'answered ' + show(x));
        same_text(x.body.toString(), '["\u00e9"]', 'http.payload', () => 'a character that arrives in two pieces is handed over as ' + x.body.toString());
        EV('inputs of known findings');
        c.distinct(String(c.idx));
    } finally { front.close(); front.closeAllConnections(); }
});
GROUP('P49', 'requests', 240, 6000, async (c) => {
    const r = c.rng, calls = [];
    let target = null, seen = [], plan = [];
    target = httpm.createServer((q, s) => { const b = []; q.on('data', (x) => b.push(x)); q.on('end', () => { seen.push({ method: q.method, url: q.url, headers: q.headers, body: Buffer.concat(b) }); const p = plan[seen.length - 1]; s.writeHead(p.code, p.headers); s.end(p.body); }); });
    await new Promise((ok) => target.listen(0, '127.0.0.1', ok));
    const dead = 'http://127.77.77.77:1'; // nobody listens there
    const handler = (name) => Object.assign(async (req) => { calls.push({ name, req }); if (r2.chance(1, 3)) { await new Promise((ok) => setImmediate(ok)); } if (next.kind === 'throw') { throw new Error('x'); } return next.kind === 'ok' ? { result: 'ok', answer: next.answer } : { result: 'error', code: next.code, description: next.text }; }, { tag: name });
    const r2 = new Rng('h' + c.idx + ' ' + opt.seed);
    let next = null;
    const prefixes = [
        { method: 'POST', prefix: '/api/one', action: { type: 'process-json', handler: handler('one') } },
        { method: 'POST', prefix: '/api', action: { type: 'process-json', handler: handler('two') } },
        { method: 'PUT', prefix: '/api/one', action: { type: 'process-json', handler: handler('three') } },
        { method: 'GET', prefix: '/dead', action: { type: 'proxy', target: dead } },
        { method: 'GET', prefix: '/', action: { type: 'proxy', target: 'http://127.0.0.1:' + target.address().port } },
        { method: 'PUT', prefix: '/files', action: { type: 'proxy', target: 'http://127.0.0.1:' + target.address().port } },
    ];
    const server = await listening(() => new srv.HTTPServer(quiet, prefixes).listen(1));
    const port = server.address().port;
    try {
        for (let k = 0; k < 12; ++k) {
            const method = r.of(['POST', 'POST', 'POST', 'GET', 'PUT', 'DELETE']), url = r.of(['/api/one', '/api/one/' + k, '/api', '/api/on', '/', '/x?y=' + k + '&z=%20', '/dead/x', '/files/' + k, '/Api/one', '/api/oneself?a=b']);
            const rule = prefixes.find((p) => p.method === method && url.startsWith(p.prefix));
            next = r.of([{ kind: 'ok', answer: { a: value(r), b: bytes(r) } }, { kind: 'ok', answer: [bytes(r, 3000)] }, { kind: 'error', code: r.of([400, 401, 404, 409, 501]), text: token(r) }, { kind: 'throw' }]);
            const what = method + ' ' + url, before = calls.length, sbefore = seen.length;
            const payload = { text: bytes(r, r.of([5, 200, 4000])), more: value(r) };
            let body = Buffer.from(JSON.stringify(payload)), json = true;
            if (method === 'GET' || method === 'DELETE') { body = Buffer.alloc(0); }
            else if (r.chance(1, 5)) { body = r.of([Buffer.from(''), Buffer.from('{"a":'), body.subarray(0, body.length - 1), Buffer.from('nonsense'), Buffer.concat([body, Buffer.from('}')])]); json = false; }
            const type = r.chance(1, 6) ? r.of(['text/plain', 'application/x-json', '']) : 'application/json';
            const headers = { 'x-case': token(r).replace(/[^\w]/g, 'x') };
            if (type !== '' && method !== 'GET') { headers['content-type'] = type; }
            if (method === 'PUT' && r.coin()) { headers['content-length'] = body.length; }
            plan[seen.length] = { code: r.of([200, 201, 204, 302, 404, 500]), headers: { 'x-answer': 'v' + k, location: '/y' }, body: Buffer.alloc(0) };
            if (plan[seen.length].code !== 204) { plan[seen.length].body = Buffer.from(bytes(r, r.of([3, 3000]))); }
            const a = await ask(port, method, url, headers, body.length === 0 ? [] : cut(r, body), r.coin());
            if (!rule) {
                CHECK(a.code === 404, 'http.404', () => what + ' is answered ' + show(a));
                CHECK(calls.length === before && seen.length === sbefore, 'http.calls', what + ' has effects');
                EV('requests without a rule');
            } else if (rule.action.type === 'proxy' && rule.prefix === '/dead') {
                CHECK(a.code === 500, 'http.dead', () => what + ' is answered ' + show(a));
                EV('proxy target not reachable');
            } else if (rule.action.type === 'proxy') {
                CHECK(seen.length === sbefore + 1 && calls.length === before, 'proxy.calls', () => what + ' is passed on ' + (seen.length - sbefore) + ' times; ' + show(a));
                const s = seen[sbefore], p = plan[sbefore];
                CHECK(s.method === method && s.url === url && s.body.equals(body) && s.headers['x-case'] === headers['x-case'], 'proxy.request', () => what + ' is passed on as ' + s.method + ' ' + s.url + ' ' + show(s.headers) + ' ' + show(s.body.toString()));
                CHECK(a.code === p.code && a.headers['x-answer'] === p.headers['x-answer'] && a.headers.location === '/y' && a.body.equals(p.body), 'proxy.answer', () => what + ' is answered ' + show(a) + ' instead of ' + show(p));
                EV('requests passed on');
            } else if (type !== 'application/json') {
                CHECK(a.code === 406 && calls.length === before, 'http.406', () => what + ' of type ' + type + ' is answered ' + show(a));
                EV('requests of other types');
            } else if (!json || body.length === 0) {
                CHECK(a.code === 400 && calls.length === before, 'http.400', () => what + ' with ' + show(body.toString()) + ' is answered ' + show(a));
                EV('requests that are not JSON');
            } else {
                CHECK(calls.length === before + 1, 'http.calls', () => what + ' is handled ' + (calls.length - before) + ' times; ' + show(a));
                CHECK(calls[before].name === rule.action.handler.tag, 'http.rule', () => what + ' is handled by ' + calls[before].name);
                if (!same(calls[before].req, payload)) { same_text(JSON.stringify(calls[before].req), JSON.stringify(payload), 'http.payload', () => what + ' is handed over as ' + show(calls[before].req) + ' instead of ' + show(payload)); }
                if (next.kind === 'ok') {
                    CHECK(a.code === 200 && a.headers['content-type'] === 'application/json', 'http.ok', () => what + ' is answered ' + show(a));
                    CHECK(a.body.toString() === JSON.stringify(next.answer), 'http.answer', () => what + ' is answered ' + show(a.body.toString()) + ' instead of ' + show(next.answer));
                    EV('JSON requests answered');
                } else if (next.kind === 'error') {
                    CHECK(a.code === next.code && a.body.toString() === next.text, 'http.error', () => what + ' is answered ' + show(a) + ' instead of ' + show(next));
                    EV('JSON requests refused by the handler');
                } else { CHECK(a.code === 500, 'http.500', () => what + ' is answered ' + show(a)); EV('handlers that fail'); }
            }
            c.distinct(what + a.code + (a.body || ''));
        }
    } finally { server.close(); target.close(); server.closeAllConnections(); target.closeAllConnections(); }
});

// ---------------------------------------------------------------- the whole example, with a stand-in for the bindings
const made = []; // servers of the transports
class StatelessServer {
    constructor() { this.users = []; this.got = []; made.push(this); }
    addUser(u, p) { this.users.push([u, p]); }
    process(msg, from) {
        const m = Buffer.from(msg);
        this.got.push({ m, address: from.address, port: from.port });
        return m[0] === 0 ? { result: 'respond', data: Buffer.concat([Buffer.from('re:'), m]) } : m[0] === 1 ? { result: 'ignore', message: { x: 1 } } : { result: 'ignore' };
    }
}
const stub = { stun: { StatelessServer, message_parse: (m) => { if (m[0] === 2) { throw new Error('not STUN'); } return { len: m.length }; } }, ice: { candidate_parse: (s) => ({ parsed: s }) } };
let app = null;
async function application() {
    if (app) { return app; }
    const real = Module._load;
    Module._load = function(name, ...rest) { return name.endsWith('build/Release/echo_backend') ? stub : real.call(this, name, ...rest); };
    console.log = () => {};
    const sockets = [], create = dgram.createSocket;
    dgram.createSocket = function(...a) { const s = create.apply(this, a); sockets.push(s); return s; };
    const server = await listening(() => require(path.join(__dirname, 'echo_app.js')));
    app = { port: server.address().port, server, sockets };
    return app;
}
GROUP('P49', 'offers', 200, 5000, async (c) => {
    const r = c.rng, a = await application();
    const post = (url, body) => { const b = Buffer.from(JSON.stringify(body)); return ask(a.port, 'POST', url, { 'content-type': 'application/json' }, cut(r, b), r.coin()); };
    if (r.chance(1, 5)) {
        const text = r.chance(1, 8) ? undefined : 'candidate:' + bytes(r, 60);
        const x = await post('/echo-api/ice-candidate', { candidate: text });
        CHECK(x.code === 200, 'candidate', () => 'candidate ' + show(text) + ' is answered ' + show(x) + x.body);
        if (!same(JSON.parse(x.body.toString()), { parsed: text })) { same_text(JSON.stringify(JSON.parse(x.body.toString())), JSON.stringify({ parsed: text }), 'candidate', () => 'candidate ' + show(text) + ' is answered ' + show(x) + x.body); }
        EV('candidates handed over');
        c.distinct(String(text));
        return;
    }
    if (r.chance(1, 6)) {
        const x = await post('/echo-api/offer', { sdp: r.of(['', 'v=1\r\n', 'x', text_of(lines_of(description(r))).slice(0, -1)]) });
        CHECK(x.code === 400 && x.body.toString() === 'SDP parse error', 'offer.refused', () => 'a bad offer is answered ' + show(x));
        EV('bad offers refused');
        c.distinct(String(c.idx));
        return;
    }
    const ice = ice_of(r), medias = [], mids = [];
    for (let k = r.range(1, 3); k > 0; --k) {
        const m = media(r);
        m.attrs = shuffled(r, m.attrs.filter((x) => !/^(ice-|fingerprint|setup|candidate|mid|group)/.test(x)).concat(transport_attrs(r, ice)).concat(['mid:' + k]));
        medias.push(m); mids.push(k);
    }
    const d = description(r, medias, ['group:BUNDLE ' + mids.join(' ')]);
    d.attrs = d.attrs.filter((x, i) => i === 0 || !x.startsWith('group:BUNDLE'));
    const n = made.length, ns = a.sockets.length;
    const x = await post('/echo-api/offer', { type: 'offer', sdp: text_of(lines_of(d)) });
    try {
        CHECK(x.code === 200, 'offer', () => 'an offer is answered ' + show(x) + ' ' + x.body);
        const ans = JSON.parse(x.body.toString());
        const want = { v: 0, origin: { username: '-', sess: { id: '0', version: '0' }, net: 'IN', address: { type: 'IP4', value: '127.0.0.1' } }, name: '-', emails: [], phones: [], time: ['0 0'], bandwidth: [], attrs: d.attrs,
            media: d.media.map((m) => ({ media: m.media, port: m.port, proto: m.proto, formats: m.formats, connection: [], bandwidth: [], attrs: m.attrs.map((t) => ({ 'setup:actpass': 'setup:passive', 'setup:passive': 'setup:active', 'setup:active': 'setup:passive' })[t] || t) })) };
        same_text(ans.sdp, text_of(lines_of(want)), 'offer.answer', () => 'the answer is ' + show(ans.sdp, 2000) + ' instead of ' + show(text_of(lines_of(want)), 2000));
        CHECK(made.length === n + 1 && a.sockets.length === ns + 1, 'offer.transport', (made.length - n) + ' servers, ' + (a.sockets.length - ns) + ' sockets');
        const server = made[n], port = a.sockets[ns].address().port;
        CHECK(same(server.users, [[ice.ufrag + ':' + ice.ufrag, ice.pwd]]), 'offer.user', () => 'users ' + show(server.users) + ', credentials ' + show(ice));
        const mine = Object.values(os.networkInterfaces()).flat().filter((i) => i.family === 'IPv4' && !i.internal).map((i) => 'candidate:1 1 UDP 1 ' + i.address + ' ' + port + ' typ host');
        CHECK(same(ans.candidates, mine), 'offer.candidates', () => 'candidates ' + show(ans.candidates) + ' instead of ' + show(mine));
        EV('offers answered');
        // Datagrams: each to the server once, with its sender; answers to the sender.
        const peers = [0, 1].map(() => dgram.createSocket('udp4')), replies = [[], []], sent = [];
        for (const p of peers) { await new Promise((ok) => p.bind(0, '127.0.0.1', ok)); }
        peers.forEach((p, i) => p.on('message', (m, from) => replies[i].push({ m, port: from.port })));
        try {
            for (let k = 0; k < 8; ++k) {
                const i = r.below(2), m = Buffer.from([r.below(3), k, ...Buffer.from(bytes(r, 40))]);
                const had = server.got.length, hr = replies[i].length;
                await new Promise((ok) => peers[i].send(m, port, '127.0.0.1', ok));
                for (let w = 0; w < 15000 && server.got.length === had; ++w) { await new Promise((ok) => setTimeout(ok, 1)); }
                CHECK(server.got.length === had + 1, 'datagram.calls', 'a datagram reaches the server ' + (server.got.length - had) + ' times');
                const g = server.got[had];
                CHECK(g.m.equals(m) && g.port === peers[i].address().port && g.address === '127.0.0.1', 'datagram.arrival', () => 'datagram ' + m.toString('hex') + ' arrives as ' + g.m.toString('hex') + ' from ' + g.address + ':' + g.port);
                if (m[0] === 0) {
                    for (let w = 0; w < 15000 && replies[i].length === hr; ++w) { await new Promise((ok) => setTimeout(ok, 1)); }
                    CHECK(replies[i].length === hr + 1 && replies[i][hr].port === port && replies[i][hr].m.equals(Buffer.concat([Buffer.from('re:'), m])), 'datagram.answer', () => 'answered with ' + show(replies[i].slice(hr)));
                    sent.push([i, m]);
                    EV('datagrams answered');
                } else { EV('datagrams ignored'); }
            }
            await new Promise((ok) => setTimeout(ok, 3));
            for (const i of [0, 1]) { CHECK(replies[i].length === sent.filter((s) => s[0] === i).length, 'datagram.answer', 'more answers than asked for'); }
        } finally { peers.forEach((p) => p.close()); }
    } finally { a.sockets.slice(ns).forEach((s) => { try { s.close(); } catch (e) { void e; } }); }
    c.distinct(JSON.stringify(d));
    c.sample('offer with ' + medias.length + ' media');
});

GROUP('P49', 'abuse', 120, 3000, async (c) => {
    // Payloads of any shape, clients and targets that go away: each request that can be answered is, and the server lives on.
    const r = c.rng, a = await application();
    const post = (url, body) => ask(a.port, 'POST', url, { 'content-type': 'application/json' }, cut(r, Buffer.from(body)), r.coin());
    const target = net.createServer((s) => {
        s.on('error', () => {});
        s.once('data', () => {
            const part = 'HTTP/1.1 200 OK\r\nContent-Length: 5000\r\n\r\n' + 'x'.repeat(r.below(4000));
            switch (kind) {
            case 'reset': s.resetAndDestroy(); break;
            case 'closed': s.end(); break;
            case 'part, closed': s.end(part); break;
            case 'part, reset': s.write(part, () => setTimeout(() => s.resetAndDestroy(), 3)); break;
            case 'chunk, reset': s.write('HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n5\r\nabcde\r\n', () => setTimeout(() => s.resetAndDestroy(), 3)); break;
            default: s.end('nonsense\r\n\r\n');
            }
        });
    });
    let kind = null;
    await new Promise((ok) => target.listen(0, '127.0.0.1', ok));
    const front = await listening(() => new srv.HTTPServer(quiet, [{ method: 'GET', prefix: '/', action: { type: 'proxy', target: 'http://127.0.0.1:' + target.address().port } },
        { method: 'POST', prefix: '/', action: { type: 'process-json', handler: async (q) => ({ result: 'ok', answer: q }) } }]).listen(1));
    try {
        for (let k = 0; k < 6; ++k) {
            switch (r.below(4)) {
            case 0: {
                const url = r.of(['/echo-api/offer', '/echo-api/offer', '/echo-api/ice-candidate']);
                const body = JSON.stringify(r.of([() => null, () => 5, () => [], () => 'x', () => ({}), () => ({ sdp: null }), () => ({ sdp: 7 }), () => ({ sdp: ['v=0\r\n'] }), () => ({ sdp: text_of(lines_of(description(r))).replace(/group:BUNDLE/g, 'group:X') }),
                    () => ({ sdp: text_of(lines_of(description(r, [], ['group:BUNDLE nowhere']))) }), () => ({ sdp: text_of(lines_of(description(r, [], ['group:BUNDLE']))) }), () => ({ candidate: null })])());
                const n = made.length, x = await post(url, body);
                CHECK(url === '/echo-api/ice-candidate' ? x.code === 200 || x.code === 500 : x.code === 400 || x.code === 500, 'abuse.payload', () => url + ' with ' + show(body) + ' is answered ' + show(x));
                CHECK(made.length === n, 'abuse.transport', () => url + ' with ' + show(body) + ' opens a transport');
                EV('odd payloads answered');
                break;
            }
            case 1: { // a client that leaves in the middle
                await new Promise((ok) => {
                    const s = net.connect(r.coin() ? a.port : front.address().port, '127.0.0.1');
                    s.on('error', () => {}); s.on('close', ok);
                    s.on('connect', () => { s.write(r.of(['POST /echo-api/offer HTTP/1.1\r\nHost: x\r\nContent-Type: application/json\r\nContent-Length: 500\r\n\r\n{"sdp"', 'POST / HTTP/1.1\r\nHost: x\r\nContent-Type: application/json\r\nTransfer-Encoding: chunked\r\n\r\n3\r\n{"a', 'PUT / HTTP/1.1\r\n', '\r\n\r\n\0', 'POST /x HTTP/1.1\r\nHost: x\r\nContent-Length: 5\r\n\r\n'])); setTimeout(() => { if (r.coin()) { s.resetAndDestroy(); } else { s.destroy(); } }, 3); });
                });
                EV('clients that leave');
                break;
            }
            default: {
                kind = r.of(['reset', 'closed', 'part, closed', 'part, reset', 'chunk, reset', 'nonsense']);
                const off = kind.includes(','); // what it broke off is known not to be
                let x = null;
                try { x = await ask(front.address().port, 'GET', '/' + k, {}, [], false, off ? 300 : 20000); } catch (e) {
                    if (!off || !(e instanceof Failed) || e.key !== 'no.answer') { throw e; }
                }
                if (off && uncaught.length > 0 && uncaught.every((e) => e && e.code === 'ERR_HTTP_HEADERS_SENT')) { uncaught.length = 0; KNOWN('known.broken_off', 'a target that does "' + kind + '" ends the server'); }
                else if (x === null) { KNOWN('known.broken_off', 'a target that does "' + kind + '" leaves the client waiting'); }
                if (x === null) { EV('targets that fail'); EV('target: ' + kind); break; }
                CHECK(kind.includes(',') ? x.failed !== undefined : x.code === 500, 'abuse.target', () => 'a target that does "' + kind + '" is answered ' + show(x));
                EV('targets that fail');
                EV('target: ' + kind);
            }
            }
            c.distinct(c.idx + ' ' + k);
        }
        // Both servers live on.
        const text = 'candidate:' + token(r), x = await post('/echo-api/ice-candidate', JSON.stringify({ candidate: text }));
        CHECK(x.code === 200 && same(JSON.parse(x.body.toString()), { parsed: text }), 'abuse.alive', () => 'afterwards: ' + show(x));
        const y = await ask(front.address().port, 'POST', '/', { 'content-type': 'application/json' }, [Buffer.from('[1]')], false);
        CHECK(y.code === 200 && y.body.toString() === '[1]', 'abuse.alive', () => 'afterwards: ' + show(y));
        EV('servers live on');
    } finally { front.close(); target.close(); front.closeAllConnections(); }
});

// ---------------------------------------------------------------- run
async function main() {
    const state = opt.out ? fs.openSync(opt.out + '.state', 'w') : -1, viol = opt.out ? fs.openSync(opt.out + '.viol', 'w') : -1;
    let nviol = 0;
    process.on('uncaughtException', (e) => uncaught.push(e));
    process.on('unhandledRejection', (e) => uncaught.push(e));
    for (const g of groups) {
        if (g.prop !== opt.prop || (opt.group && g.name !== opt.group)) { continue; }
        const total = Math.max(1, Math.round((opt.thorough ? g.thorough : g.quick) * opt.scale));
        for (let i = opt.idx >= 0 ? opt.idx : opt.shard; i < (opt.idx >= 0 ? opt.idx + 1 : total); i += opt.shards) {
            if (state >= 0) { const b = Buffer.alloc(72); b.write(g.name); b.writeBigUInt64LE(BigInt(i), 64); fs.writeSync(state, b, 0, 72, 0); }
            const c = { rng: new Rng(opt.seed + '/' + g.prop + '/' + g.name + '/' + i), idx: i, thorough: opt.thorough, distinct: (s) => { ++out.seen; hashes.add(hash64(g.name + s)); }, sample: (s) => { if (out.samples.filter((q) => q.group === g.name).length < 2) { out.samples.push({ group: g.name, case: s }); } } };
            note = (key, msg) => { if (viol >= 0) { fs.writeSync(viol, JSON.stringify({ group: g.name, idx: i, key, msg: String(msg).slice(0, 3000), line: 'echo.js' }) + '\n'); } else { console.error(g.name, i, key, msg); } };
            out.cases[g.name] = (out.cases[g.name] || 0) + 1;
            try {
                await g.fn(c);
                if (uncaught.length > 0) { throw new Failed('uncaught', 'an exception is not caught: ' + (uncaught[0] && uncaught[0].stack || uncaught[0])); }
            } catch (e) {
                uncaught.length = 0;
                const key = e instanceof Failed ? e.key : 'exception', msg = e instanceof Failed ? e.message : String(e && e.stack || e);
                if (viol >= 0 && ++nviol <= 20) { fs.writeSync(viol, JSON.stringify({ group: g.name, idx: i, key, msg: msg.slice(0, 3000), line: 'echo.js' }) + '\n'); } else if (viol < 0) { console.error(g.name, i, key, msg); nviol++; }
                if (nviol > 20) { break; }
            }
        }
    }
    if (opt.out) {
        fs.writeFileSync(opt.out + '.hash', Buffer.from(BigUint64Array.from(hashes).buffer));
        fs.writeFileSync(opt.out + '.json', JSON.stringify(out));
    } else { console.error(JSON.stringify(out)); }
    process.exit(0);
}
main();
