// Property test of the Node binding (J01).
//   node --expose-gc j01.js ADDON run TEST FIRST STEP END SEED STATE   runs the cases FIRST, FIRST+STEP, … < END; prints a JSON summary
//   node --expose-gc j01.js ADDON case TEST CHOICES.json               runs one case given by its choices
// A case is a function of a list of choices, as in the Rust harness; a model in JavaScript judges every call.
'use strict';
const fs = require('fs');
const [addon, mode, test] = process.argv.slice(2);
const ffi = require(addon);

class Bad extends Error { constructor(sig, msg) { super(msg); this.sig = sig; } }
const show = (v) => {
    const t = typeof v;
    if (t === 'bigint') return v + 'n';
    if (t === 'string') return JSON.stringify(v);
    if (t === 'symbol') return v.toString();
    if (t === 'function') return 'function';
    if (Object.is(v, -0)) return '-0';
    if (ArrayBuffer.isView(v)) return v.constructor.name + '[' + Array.from(new Uint8Array(v.buffer, v.byteOffset, v.byteLength)) + ']';
    if (Array.isArray(v)) return '[' + v.map(show) + ']';
    if (v && t === 'object') return '{' + Object.keys(v).map((k) => k + ': ' + (Object.getOwnPropertyDescriptor(v, k).get ? 'getter' : show(v[k]))).join(', ') + '}';
    return String(v);
};

// ------------------------------------------------------------------ choices
function rng(seed) { // sfc32
    let a = seed | 0, b = 0x9e3779b9 | 0, c = 0x243f6a88, d = 1;
    const next = () => {
        const t = (((a + b) | 0) + d) | 0;
        d = (d + 1) | 0; a = b ^ (b >>> 9); b = (c + (c << 3)) | 0; c = (c << 21) | (c >>> 11); c = (c + t) | 0;
        return t >>> 0;
    };
    for (let i = 0; i < 20; i++) next();
    return next;
}
class Gen {
    constructor(src, list) { this.src = src; this.list = list; this.choices = []; this.labels = new Set(); }
    int(n) { // 0 … n-1, simplest first
        const i = this.choices.length;
        const x = this.list ? Math.min(this.list[i] ?? 0, n - 1) : this.src() % n;
        this.choices.push(x);
        return x;
    }
    bool() { return this.int(2) === 1; }
    one(xs) { return xs[this.int(xs.length)]; }
    chance(k) { return this.int(k) === k - 1; }
    label(l) { this.labels.add(l); }
}

// ------------------------------------------------------------------ values
const B = (x) => BigInt(x);
function number(g) {
    switch (g.int(8)) {
        case 0: return g.int(4);
        case 1: return g.int(256) - g.int(256);
        case 2: { // around a power of two
            const x = 2 ** g.int(70) + g.int(5) - 2;
            return g.bool() ? -x : x;
        }
        case 3: return g.int(1 << 16) * (1 << 16) + g.int(1 << 16) - (g.bool() ? 2 ** 31 : 0);
        case 4: return (g.int(2000) - 1000) / g.one([2, 10, 3, 1024]);
        case 5: return g.one([NaN, Infinity, -Infinity, -0, 5e-324, Number.MAX_VALUE, -Number.MAX_VALUE, 1e-40, 3.4028234663852886e38, 3.4028235677973366e38, 2 ** 53, -(2 ** 53), 2 ** 53 - 1]);
        case 6: { const f = new Float32Array(1); new Uint32Array(f.buffer)[0] = g.int(1 << 16) * 65536 + g.int(1 << 16); return f[0]; }
        default: { const f = new Float64Array(1); new Uint32Array(f.buffer).set([g.int(2 ** 32), g.int(2 ** 32)]); return f[0]; }
    }
}
function bigint(g) {
    const x = g.bool() ? B(g.int(300)) : (1n << B(g.int(130))) + B(g.int(5)) - 2n;
    return g.bool() ? -x : x;
}
function string(g) {
    const n = g.one([0, 1, 2, 3, 5, 9, 40]);
    let s = '';
    for (let i = 0; i < n; i++)
        s += g.one(['a', 'Z', ' ', '"', '\\', '\n', '\u007f', 'é', '€', '\u{1f600}', '\u0000'.slice(0, g.chance(6) ? 1 : 0), g.chance(5) ? '\ud800' : 'x', '\ufeff', ',']);
    return g.chance(12) ? s + '\0' : s;
}
function bytes(g, n = g.one([0, 1, 2, 3, 7, 32, 100, 5000])) {
    const b = Buffer.alloc(n);
    const k = g.int(256), m = g.int(7);
    for (let i = 0; i < n; i++) b[i] = k + i * m;
    if (n && g.bool()) b[g.int(n)] = g.int(256);
    switch (g.int(3)) {
        case 0: return b;
        case 1: return new Uint8Array(b);
        default: { // a view in the middle of its buffer
            const u = new Uint8Array(n + 9);
            u.fill(0xee);
            u.set(b, 4);
            return u.subarray(4, 4 + n);
        }
    }
}
const isBytes = (v) => v instanceof Uint8Array;
function hostile(g) {
    switch (g.int(15)) {
        case 0: return undefined;
        case 1: return null;
        case 2: return g.bool();
        case 3: return number(g);
        case 4: return bigint(g);
        case 5: return g.one(['', '0', '1', 'true', 'Red', 'red', 'Red ', 'Low', 'A', 'Blue\0', 'null', string(g)]);
        case 6: return Symbol('s');
        case 7: return {};
        case 8: return [1, 2, 3];
        case 9: return () => 1;
        case 10: return bytes(g, g.int(6));
        case 11: return new Date(5);
        case 12: return { addr: g.one([0, 16, -1, 'x', 1n << 64n]), type: 'no such type *' };
        case 13: return Object(g.one([5, 'Red', true, 5n]));
        default: return { get x() { throw new Error('getter'); }, get addr() { throw new Error('getter'); }, get a() { throw new Error('getter'); } };
    }
}

// ------------------------------------------------------------------ types: gen(g), judge(v) -> {text, back} | 'err' | 'any'
const sameInt = (n) => (r) => typeof r === 'number' ? Number.isSafeInteger(r) && B(r) === n : typeof r === 'bigint' && (r > 2n ** 53n - 1n || r < 1n - 2n ** 53n) && r === n;
function small(signed, bits) {
    const lo = signed ? -(2 ** (bits - 1)) : 0, hi = signed ? 2 ** (bits - 1) - 1 : 2 ** bits - 1;
    return {
        gen: (g) => (g.bool() ? lo + g.int(2 ** bits) : g.one([0, 1, lo, hi, lo + 1, hi - 1])),
        judge: (v) => (typeof v === 'number' && Number.isInteger(v) && v >= lo && v <= hi ? { text: String(B(v)), back: (r) => typeof r === 'number' && r === v } : 'err'),
    };
}
function wide(signed) {
    const lo = signed ? -(1n << 63n) : 0n, hi = signed ? (1n << 63n) - 1n : (1n << 64n) - 1n;
    return {
        gen: (g) => {
            let x;
            switch (g.int(4)) {
                case 0: x = B(g.int(1000)); break;
                case 1: x = (1n << B(g.int(65))) + B(g.int(7)) - 3n; break;
                case 2: x = hi - B(g.int(4)); break;
                default: x = (B(g.int(2 ** 32)) << 32n) | B(g.int(2 ** 32)); break;
            }
            if (signed && g.bool()) x = -x;
            x = x < lo ? lo : x > hi ? hi : x;
            return Number.isSafeInteger(Number(x)) && g.bool() ? Number(x) : x;
        },
        judge: (v) => {
            let n;
            if (typeof v === 'bigint') n = v;
            else if (typeof v === 'number' && Number.isInteger(v)) n = B(v);
            else return 'err';
            return n >= lo && n <= hi ? { text: n.toString(), back: sameInt(n) } : 'err';
        },
    };
}
const hexOf = (u) => 'x' + Buffer.from(u).toString('hex');
const f64 = {
    gen: number,
    judge: (v) => {
        if (typeof v !== 'number') return 'err';
        const b = Buffer.alloc(8); b.writeDoubleBE(v);
        return { text: Number.isNaN(v) ? 'nan' : 'd' + b.toString('hex'), back: (r) => Object.is(r, v) };
    },
};
const f32 = {
    gen: (g) => Math.fround(number(g)),
    judge: (v) => {
        if (typeof v !== 'number') return 'err';
        if (!Number.isNaN(v) && Math.fround(v) !== v) return 'err';
        const b = Buffer.alloc(4); b.writeFloatBE(v);
        return { text: Number.isNaN(v) ? 'nan' : 's' + b.toString('hex'), back: (r) => Object.is(r, v) };
    },
};
const bool = { gen: (g) => g.bool(), judge: (v) => (typeof v === 'boolean' ? { text: String(v), back: (r) => r === v } : 'err') };
const enumeration = (...names) => ({
    gen: (g) => g.one(names),
    judge: (v) => (names.includes(v) ? { text: v, back: (r) => r === v } : 'err'),
});
const array = (n) => ({
    gen: (g) => bytes(g, n),
    judge: (v) => (isBytes(v) && v.length === n ? { text: hexOf(v), back: (r) => Buffer.isBuffer(r) && Buffer.compare(r, v) === 0 } : 'err'),
});
const struct = (fields) => ({
    gen: (g) => {
        const o = {};
        const ks = Object.keys(fields);
        if (g.chance(4)) ks.reverse(); // the order of properties means nothing
        for (const k of ks) o[k] = fields[k].gen(g);
        if (g.chance(8)) o.unrelated = 5;
        return g.chance(6) ? Object.freeze(o) : o;
    },
    hostile: (g) => {
        const o = {};
        const bad = g.int(Object.keys(fields).length);
        Object.keys(fields).forEach((k, i) => {
            if (i !== bad) o[k] = fields[k].gen(g);
            else if (g.bool()) o[k] = fields[k].hostile ? fields[k].hostile(g) : hostile(g);
        });
        return o;
    },
    judge: (v) => {
        if (v === null || typeof v !== 'object') return 'err';
        const parts = [];
        for (const k in fields) {
            let x;
            try { x = v[k]; } catch (e) { return 'err'; }
            const j = fields[k].judge(x);
            if (j === 'err') return 'err';
            parts.push([k, j]);
        }
        return {
            text: '(' + parts.map((p) => p[1].text).join(' ') + ')',
            back: (r) => r && typeof r === 'object' && Object.keys(r).length === parts.length && parts.every(([k, j]) => j.back(r[k])),
        };
    },
});
const u8 = small(false, 8), u16 = small(false, 16), u32 = small(false, 32), i8 = small(true, 8), i16 = small(true, 16), i32 = small(true, 32);
const u64 = wide(false), i64 = wide(true), usize = u64, isize = i64;
const Color = enumeration('Red', 'Green', 'Blue'), Level = enumeration('Low', 'Mid', 'High'), Plain = enumeration('A', 'B');
const Point = struct({ x: f64, y: f64 });
const Mixed = struct({ a: u8, b: i64, c: bool, d: f32, e: Color });
const Nested = struct({ p: Point, m: Mixed, arr: array(4), n: u32 });
const ECHO = {
    echo_u8: u8, echo_u16: u16, echo_u32: u32, echo_i8: i8, echo_i16: i16, echo_i32: i32, echo_u64: u64, echo_i64: i64,
    echo_usize: usize, echo_isize: isize, echo_f32: f32, echo_f64: f64, echo_bool: bool, echo_color: Color, echo_level: Level,
    echo_plain: Plain, echo_point: Point, echo_mixed: Mixed, echo_nested: Nested, echo_pair: struct({ fst: u16, snd: bool }),
    echo_wrap: u32, echo_a1: array(1), echo_a4: array(4), echo_a32: array(32),
};

// ------------------------------------------------------------------ calls
let state = null; // {fd, g}
/** Notes the call about to be made, in case it ends the process. */
function before(what) {
    if (!state) return;
    state.calls++;
    if (what.length > state.what.length || !state.what) state.what = what;
    const s = JSON.stringify({ test, choices: state.g.choices, what }) + '\n';
    fs.writeSync(state.fd, s, 0);
}
function attempt(f) {
    try { return { ok: f() }; } catch (e) { return { err: e }; }
}
/** Calls `f(...args)`; `js`: the judgements of its arguments. */
function call(g, name, args, js, back) {
    const what = name + '(' + args.map(show).join(', ') + ')';
    before(what);
    ffi.takeLog();
    const r = attempt(() => ffi[name](...args));
    const log = ffi.takeLog();
    if (js.includes('err')) {
        g.label('mismatching argument');
        if (!r.err) throw new Bad('accepted', `${what} was accepted (as ${log || '?'}) and returned ${show(r.ok)}`);
        if (log) throw new Bad('ran', `${what} threw ${r.err} but ran with ${log}`);
        if (!(r.err instanceof Error)) throw new Bad('thrown', `${what} threw ${show(r.err)}`);
        return null;
    }
    if (r.err) throw new Bad('rejected', `${what} threw ${r.err}`);
    const want = js.map((j) => j.text).join(' ');
    if (log !== want) throw new Bad('argument', `${what}: Rust received ${log}, not ${want}`);
    if (back && !back(r.ok)) throw new Bad('result', `${what} returned ${show(r.ok)}`);
    return r;
}
function arg(g, t) {
    return g.chance(6) ? (t.hostile && g.bool() ? t.hostile(g) : hostile(g)) : t.gen(g);
}
function opEcho(g) {
    const name = g.one(Object.keys(ECHO)), t = ECHO[name];
    const v = arg(g, t), j = t.judge(v);
    g.label(name);
    call(g, name, g.chance(10) ? [v, 1, 'extra'] : [v], [j], j === 'err' ? null : j.back);
}
const TEN = [u8, i16, u32, i64, f32, f64, bool, Color, array(4), Mixed];
function opTen(g) {
    const bad = g.chance(3) ? g.int(10) : -1;
    let args = TEN.map((t, i) => (i === bad ? hostile(g) : t.gen(g)));
    if (g.chance(12)) args = args.slice(0, g.int(10));
    const js = TEN.map((t, i) => t.judge(args[i]));
    g.label('ten');
    call(g, 'ten', args, js, js.includes('err') ? null : sameInt((B(args[0]) << 56n) | B(args[2])));
}
function opSub(g) {
    const a = arg(g, i32), b = arg(g, i32);
    const js = [i32.judge(a), i32.judge(b)];
    call(g, 'renamedSub', [a, b], js, (r) => r === ((a - b) | 0));
    if (ffi.sub_with_another_name) throw new Bad('name', 'an export is registered under its Rust name although it is renamed');
}

// ------------------------------------------------------------------ strings and bytes
const utf8 = (s) => Buffer.from(s, 'utf8');
/** -> {bytes} (without terminator), 'err', or null for the null pointer */
function cstring(v) {
    if (v === null) return null;
    if (typeof v === 'string') {
        const b = utf8(v), i = b.indexOf(0);
        return i < 0 ? b : i === b.length - 1 ? b.subarray(0, i) : 'err';
    }
    return 'err';
}
function withString(v, f) {
    // -> what f returned, or throws
    let out, ran = 0;
    ffi.withCString(v, (p) => { ran++; out = f(p); });
    if (ran !== 1) throw new Bad('callback', `withCString ran its callback ${ran} times`);
    return out;
}
/** A C-string argument: [value for withPtr, bytes] */
function strArg(g, nullable) {
    const kind = g.int(10);
    if (kind === 9) { // a buffer that holds the terminator, or not
        let b = Buffer.concat([utf8(string(g)), Buffer.from([0])]);
        if (g.chance(3)) b = b.subarray(0, b.length - 1);
        if (g.chance(5)) b = Buffer.concat([b, Buffer.from([0xff])]);
        if (g.chance(5) && b.length > 1) { b = Buffer.from(b); b[0] = 0xc0; }
        if (g.chance(12)) b = Buffer.alloc(0);
        const i = b.indexOf(0);
        let valid = i >= 0 && i === b.length - 1;
        try { new TextDecoder('utf-8', { fatal: true, ignoreBOM: true }).decode(b); } catch (e) { valid = false; }
        g.label('string from a buffer');
        return { use: (f) => f(b), want: valid ? b.subarray(0, i) : 'err', show: show(b) };
    }
    let v = string(g);
    if (nullable && kind === 8) v = null;
    if (kind === 7 && g.chance(2)) {
        v = hostile(g);
        if (v === null && !nullable) v = undefined;
    }
    return { use: (f) => withString(v, f), want: cstring(v), show: show(v) };
}
const textOf = (w) => (w === null ? 'none' : hexOf(w));
function outcome(g, what, wants, run, check, texts = wants.map(textOf)) {
    before(what);
    ffi.takeLog();
    const r = attempt(run);
    const log = ffi.takeLog();
    if (r.err instanceof Bad) throw r.err;
    if (wants.includes('err')) {
        g.label('mismatching argument');
        if (!r.err) throw new Bad('accepted', `${what} was accepted (as ${log || '?'})`);
        if (log) throw new Bad('ran', `${what} threw ${r.err} but ran with ${log}`);
        return;
    }
    if (r.err) throw new Bad('rejected', `${what} threw ${r.err}`);
    if (log !== texts.join(' ')) throw new Bad('argument', `${what}: Rust received ${log}, not ${texts.join(' ')}`);
    const w = check(r.ok);
    if (w !== true) throw new Bad('result', `${what} gave ${show(r.ok)}, not ${show(w)}`);
}
const is = (w) => (r) => r === w || w;
function opStr(g) {
    const a = strArg(g, false), b = strArg(g, true);
    g.label('str_in');
    outcome(g, `str_in(${a.show}, ${b.show})`, [a.want, b.want],
        () => a.use((p) => b.use((q) => ffi.boxCStringIntoString(ffi.str_in(p, q)))),
        (r) => is(Buffer.concat([a.want, b.want || Buffer.alloc(0)]).toString('utf8'))(r));
}
function opStrOpt(g) {
    const a = strArg(g, true);
    g.label('str_opt');
    outcome(g, `str_opt(${a.show})`, [a.want], () => a.use((p) => ffi.boxCStringIntoString(ffi.str_opt(p))),
        (r) => is(a.want === null ? null : a.want.toString('utf8'))(r));
}
function bytesArg(g, nullable) {
    const k = g.int(12);
    if (k === 11) { // wrong
        let v = hostile(g);
        if (isBytes(v) || v === null) v = g.one([undefined, 5, [1, 2], { ptr: 5, len: 1 }, { ptr: { addr: 16, type: 'int8_t *' }, len: 1 }, { len: 0 }]);
        return { use: (f) => f(v), want: 'err', show: show(v) };
    }
    if (k === 10 && nullable) return { use: (f) => f(null), want: null, show: 'null' };
    if (k >= 8) {
        const from = g.int(257), to = from + g.int(257 - from);
        return { use: (f) => f(ffi.static_bytes(from, to)), want: Buffer.from(Array.from({ length: to - from }, (_, i) => from + i)), show: `static ${from}..${to}` };
    }
    const b = bytes(g);
    if (k >= 6) return { use: (f) => { let out; ffi.withCBytes(b, (p) => { out = f(p); }); return out; }, want: Buffer.from(b), show: 'withCBytes ' + show(b).slice(0, 60) };
    return { use: (f) => f(b), want: Buffer.from(b), show: show(b).slice(0, 60) };
}
const sameBytes = (w) => (r) => (w === null ? r === null : Buffer.isBuffer(r) && Buffer.compare(r, w) === 0) || w;
function opBytes(g) {
    const a = bytesArg(g, true), b = bytesArg(g, false);
    g.label('bytes_in');
    outcome(g, `bytes_in(${a.show}, ${b.show})`, [a.want, b.want], () => a.use((p) => b.use((q) => ffi.boxCBytesIntoBuffer(ffi.bytes_in(p, q)))),
        (r) => sameBytes(a.want === null ? null : Buffer.concat([a.want, b.want]))(r));
}
function opRefs(g) {
    if (g.bool()) {
        const i = arg(g, u8), j = u8.judge(i);
        const want = [null, '', 'été €', 'plain ascii, long enough to be on the heap if anything is'][i] ?? null;
        outcome(g, `static_str(${show(i)})`, [j === 'err' ? 'err' : ''], () => ffi.refCStringToString(ffi.static_str(i)), (r) => is(want)(r), ['']);
    } else {
        const a = g.int(260), b = g.int(260);
        const want = a <= b && b <= 256 ? Buffer.from(Array.from({ length: b - a }, (_, i) => a + i)) : null;
        outcome(g, `static_bytes(${a}, ${b})`, [''], () => ffi.refCBytesIntoBuffer(ffi.static_bytes(a, b)), (r) => sameBytes(want)(r), ['']);
    }
}
function opOut(g) {
    g.label('out-pointers');
    const none = [''];
    switch (g.int(5)) {
        case 0: {
            const v = g.bool();
            return outcome(g, `out_bool(${v})`, none, () => ffi.withOutBoolean((p) => ffi.out_bool(p, v)), (r) => is(v)(r), none);
        }
        case 1: {
            const v = u64.gen(g);
            return outcome(g, `out_u64(${show(v)})`, none, () => ffi.withOutU64((p) => ffi.out_u64(p, v)), (r) => sameInt(B(v))(r) || v, none);
        }
        case 2: {
            const v = bytes(g), some = g.bool();
            return outcome(g, `out_bytes(${show(v).slice(0, 60)}, ${some})`, none,
                () => ffi.boxCBytesIntoBuffer(ffi.withOutBoxCBytes((p) => ffi.out_bytes(p, v, some))), (r) => sameBytes(some ? Buffer.from(v) : null)(r), none);
        }
        case 3: {
            const v = string(g).replace(/\0|[\ud800-\udfff]/g, '');
            return outcome(g, `out_strings(${show(v)})`, none,
                () => ffi.cStringVecToStringArray(ffi.withOutVecOfPtrs('Vec_char_ptr_t', 'char *', (p) => withString(v, (s) => ffi.out_strings(p, s)))),
                (r) => (Array.isArray(r) && show(r) === show(v.split(','))) || v.split(','), none);
        }
        default: // pointers to other things
            return outcome(g, 'an out-pointer of another type', ['err'], () => g.bool() ? ffi.withOutBoolean((p) => ffi.out_u64(p, 1)) : ffi.withOutU64((p) => ffi.out_bool(p, true)));
    }
}

// ------------------------------------------------------------------ pointers
function opPointers(g, st) {
    const foos = st.foos;
    const pick = () => g.int(foos.length);
    const n = foos.length ? g.int(14) : 0;
    g.label('pointers');
    const expect = (name, args, want, ok = is(want)) => outcome(g, `${name}(${args.map(show)})`, [''], () => ffi[name](...args), ok, ['']);
    const fail = (name, args) => outcome(g, `${name}(${args.map(show)})`, ['err'], () => ffi[name](...args));
    switch (n) {
        case 0: {
            const v = i32.gen(g), some = g.bool(), maybe = g.bool();
            const r = maybe ? ffi.foo_maybe(v, some) : ffi.foo_new(v);
            if (maybe && !some) { if (r !== null) throw new Bad('result', `None came as ${show(r)}`); return; }
            if (!r || r.type !== 'Foo_t *' || !(typeof r.addr === 'number' || typeof r.addr === 'bigint')) throw new Bad('result', `a box came as ${show(r)}`);
            foos.push({ h: r, v });
            return;
        }
        case 1: { const f = foos[pick()]; return expect('foo_read', [f.h], f.v); }
        case 2: { const f = foos[pick()]; return expect('foo_read_opt', [g.bool() ? f.h : { ...f.h, addr: B(f.h.addr) }], f.v); }
        case 3: return expect('foo_read_opt', [null], -1);
        case 4: { const f = foos[pick()], v = i32.gen(g), old = f.v; f.v = v; return expect('foo_set', [f.h, v], old); }
        case 5: { const i = pick(), [f] = foos.splice(i, 1); return expect('foo_free', [f.h], true); }
        case 6: { const i = pick(), [f] = foos.splice(i, 1); return expect('foo_consume', [f.h], f.v); }
        case 7: return expect('foo_free', [null], false);
        case 8: { // a reference to the same object: can be read, not written nor freed
            const f = foos[pick()], r = ffi.foo_self(f.h);
            if (B(r.addr) !== B(f.h.addr) || r.type !== 'Foo_t const *') throw new Bad('result', `a reference to ${show(f.h)} came as ${show(r)}`);
            expect('foo_read', [r], f.v);
            fail('foo_set', [r, 1]);
            return fail('foo_free', [r]);
        }
        case 9: return fail('bar_read', [foos[pick()].h]);
        case 10: { const h = foos[pick()].h; return fail(g.one(['foo_read', 'foo_consume', 'foo_free']), [g.one([{ addr: h.addr }, { type: h.type }, { addr: String(h.addr), type: h.type }, { addr: h.addr, type: 'Foo_t' }, { addr: h.addr, type: 'Foo_t **' }, { addr: h.addr, type: 5 }, h.addr, undefined, { addr: -1, type: h.type }, { addr: 1.5, type: h.type }, { addr: 1n << 64n, type: h.type }])]); }
        case 11: { // pointers to plain data
            const v = u32.gen(g), w = u32.gen(g);
            const c = ffi.cell_new(v);
            expect('cell_get', [c], v);
            expect('cell_set', [c, w], undefined);
            expect('cell_get', [{ ...c, type: 'uint32_t const *' }], w);
            fail('cell_set', [{ ...c, type: 'uint32_t const *' }, 5]);
            return fail('cell_set', [{ ...c, type: 'int32_t *' }, 5]);
        }
        case 12: { // pointers to pointers
            const v = u32.gen(g);
            g.label('pointers to pointers');
            const c = ffi.cells_new(v);
            expect('cells_get', [c], v);
            const d = ffi.cells_same(c);
            expect('cells_get', [d], v);
            expect('cells_sum', [ffi.cells_view(d)], v);
            return fail('cells_get', [{ ...c, type: 'int32_t * *' }]);
        }
        default: {
            const a = g.one([2, 0xbad000, 2 ** 53 - 2, 2n ** 53n, (1n << 63n) + 2n, (1n << 64n) - 2n] /* aligned, as debug builds demand */);
            const p = ffi.named_ptr(a);
            if (p.type !== 'uint16_t *') throw new Bad('result', `a pointer to u16 came as ${show(p)}`);
            expect('named_ptr_in', [p], a, (r) => sameInt(B(a))(r) || a);
            return fail('named_ptr_in', [foos[0].h]);
        }
    }
}
function opHelpers(g) { // hostile arguments of the helper functions
    const name = g.one(['withCString', 'withCBytes', 'withOutBoolean', 'boxCStringIntoString', 'boxCBytesIntoBuffer', 'refCStringToString', 'refCBytesIntoBuffer', 'cStringVecToStringArray', 'setDeadlockTimeout']);
    let v = hostile(g);
    const what = `${name}(${show(v)}, …)`;
    if (v === null || isBytes(v) || typeof v === 'string' || typeof v === 'function' || typeof v === 'number') v = undefined;
    if (name === 'withOutBoolean') return outcome(g, what, ['err'], () => ffi[name](v));
    return outcome(g, what, ['err'], () => ffi[name](v, () => 5));
}

const TESTS = {
    values: { run(g) { for (let n = 1 + g.int(6); n--;) g.one([opEcho, opEcho, opEcho, opTen, opSub])(g); } },
    strings: { run(g) { for (let n = 1 + g.int(4); n--;) g.one([opStr, opStrOpt, opBytes, opBytes, opRefs, opOut, opHelpers])(g); } },
    pointers: { run(g) {
        const st = { foos: [] }, live = ffi.liveObjects();
        for (let n = 1 + g.int(12); n--;) {
            opPointers(g, st);
            if (ffi.liveObjects() - live !== st.foos.length) throw new Bad('lifetime', `${ffi.liveObjects() - live} objects live, ${st.foos.length} handles held`);
        }
        while (st.foos.length) {
            const f = st.foos.pop();
            if (ffi.foo_consume(f.h) !== f.v) throw new Bad('result', 'an object changed');
        }
        if (ffi.liveObjects() !== live) throw new Bad('lifetime', 'objects left');
    } },
    settings: { run(g) { // once per process
        const get = () => ffi.getDeadlockTimeout(), x = arg(g, u32), j = u32.judge(x);
        g.label('deadlock timeout');
        before(`setDeadlockTimeout(${show(x)})`);
        if (get() !== 5000) throw new Bad('setting', `the timeout is ${get()} at first`);
        const r = attempt(() => ffi.setDeadlockTimeout(x));
        if (!!r.err !== (j === 'err')) throw new Bad('setting', `setDeadlockTimeout(${show(x)}) ${r.err ? 'threw ' + r.err : 'was accepted'}`);
        if (r.err) return void (get() === 5000 || (() => { throw new Bad('setting', 'a refused timeout took effect'); })());
        if (get() !== x + 0) throw new Bad('setting', `after setDeadlockTimeout(${show(x)}) the timeout is ${get()}`);
        if (!attempt(() => ffi.setDeadlockTimeout(7)).err || get() !== x + 0) throw new Bad('setting', 'the timeout could be set twice');
    } },
    promises: { async: true, run: promises },
    closures: { async: true, run: closures },
};

// ------------------------------------------------------------------ promises
async function promises(g) {
    const pending = [];
    for (let n = 1 + g.int(6); n--;) {
        const k = g.int(4);
        const spec = [
            ['worker_add', [u64, i32, bool], (a, b, c) => { const w = BigInt.asUintN(64, (B(a) + B(b)) * (c ? 1n : 3n)); return (r) => sameInt(w)(r) || w; }],
            ['workerPoint', [Point], (p) => (r) => Point.judge({ x: p.y, y: p.x }).back(r)],
            ['fut_bytes', [{ gen: bytes, judge: (v) => (isBytes(v) ? {} : 'err') }, u32], (b) => { const w = Buffer.from(b).reverse(); return (r) => sameBytes(w)(ffi.boxCBytesIntoBuffer(r)); }],
            ['futRenamed', [Mixed, i8], (m, x) => (r) => Mixed.judge({ ...m, b: BigInt.asIntN(64, B(m.b) + B(x)) }).back(r)],
        ][k];
        let args = spec[1].map((t) => t.gen(g));
        if (g.chance(6)) {
            args[g.int(args.length)] = hostile(g);
            if (args.includes(null) && k === 2) args = [undefined, 5];
        }
        const what = `${spec[0]}(${args.map(show).map((s) => s.slice(0, 80)).join(', ')})`;
        g.label(spec[0]);
        before(what);
        const r = attempt(() => ffi[spec[0]](...args));
        if (spec[1].some((t, i) => t.judge(args[i]) === 'err')) {
            g.label('mismatching argument');
            if (!r.err) throw new Bad('accepted', `${what} was accepted`);
            continue;
        }
        if (r.err) throw new Bad('rejected', `${what} threw ${r.err}`);
        if (!(r.ok instanceof Promise)) throw new Bad('result', `${what} returned ${show(r.ok)}, not a promise`);
        pending.push([what, r.ok, spec[2](...args)]);
        if (g.chance(3)) await tick();
    }
    if (g.bool()) pending.reverse();
    for (const [what, p, check] of pending) {
        let v;
        try { v = await p; } catch (e) { throw new Bad('rejected', `the promise of ${what} was rejected: ${e}`); }
        if (check(v) !== true) throw new Bad('result', `${what} resolved to ${show(v)}`);
    }
}
const tick = () => new Promise((ok) => setImmediate(ok));

// ------------------------------------------------------------------ closures
const unit = { gen: () => undefined, judge: () => ({ text: '()', back: () => true }) };
const CLOSURES = {
    cb0: [[], i32], cb1: [[u8], u8], cb2: [[i64, bool], i64], cb3: [[f64, u16, Color], f64], cb4: [[u64, f32, Point, i8], u64],
    cb5: [[i32, Mixed, bool, isize, u32], Color], cb6: [[i16, u8, f64, bool, usize, array(4)], bool], cbv: [[u32, u32], unit], cbp: [[Point], Point],
};
let noDeadlockCheck = false; // calls from threads may take long on a busy machine
async function closures(g) {
    if (!noDeadlockCheck) {
        ffi.setDeadlockTimeout(0);
        noDeadlockCheck = true;
    }
    const callbacks = []; // weak references to them
    try { await closureCalls(g, callbacks); } finally { await tick(); }
    for (let i = 0; i < 300 && callbacks.some((w) => w.deref()); i++) {
        // Node gives up a thread-safe function in its own time
        await (i < 10 ? tick() : new Promise((ok) => setTimeout(ok, 10)));
        global.gc();
    }
    const left = callbacks.filter((w) => w.deref()).length;
    if (left) throw new Bad('kept', `${left} of ${callbacks.length} callbacks are kept alive although every handle of theirs was released`);
}
async function closureCalls(g, callbacks) {
    const wrap = (f) => {
        const h = (send, ...args) => send(f(...args));
        callbacks.push(new WeakRef(h));
        return h;
    };
    for (let n = 1 + g.int(3); n--;) {
        if (g.chance(8)) {
            const k = g.chance(4) ? g.int(1025) : g.int(20), y = number(g), seen = []; // its queue holds 1024
            before(`cbDetached(${k})`);
            ffi.takeLog();
            ffi.cbDetached(wrap((...a) => { seen.push(a); }), k, y);
            if (seen.length) throw new Bad('detached', 'a detached call ran at once');
            for (let i = 0; i < 2000 && seen.length < k; i++) await tick();
            ffi.takeLog();
            g.label('detached');
            if (seen.length !== k || !seen.every((a, i) => a.length === 2 && a[0] === i && Object.is(a[1], y))) throw new Bad('detached', `${k} detached calls with ${show(y)} gave ${show(seen)}`);
            continue;
        }
        const name = g.one(Object.keys(CLOSURES)), [ts, R] = CLOSURES[name];
        const args = ts.map((t) => t.gen(g)), threaded = g.bool(), ret = R.gen(g);
        const bad = ts.length && g.chance(8) ? g.int(ts.length) : -1;
        if (bad >= 0) args[bad] = hostile(g);
        const js = ts.map((t, i) => t.judge(args[i]));
        const what = `${name}(${threaded ? 'on a thread' : 'here'}, ${args.map(show).join(', ')}) -> ${show(ret)}`;
        let seen = [];
        g.label(name + (threaded ? ' on a thread' : ''));
        before(what);
        ffi.takeLog();
        const r = attempt(() => ffi[name](wrap((...a) => { seen.push(a); return ret; }), threaded, ...args));
        if (js.includes('err')) {
            g.label('mismatching argument');
            if (!r.err || seen.length) throw new Bad('accepted', `${what} was accepted: ${show(seen)}`);
            continue;
        }
        if (r.err) throw new Bad('rejected', `${what} threw ${r.err}`);
        let log = '';
        if (threaded) {
            let done = 0;
            const end = Date.now() + 30000;
            while (!done) {
                await tick();
                done = ffi.reap();
                if (Date.now() > end) throw new Bad('hang', `${what} did not end`);
            }
        }
        log = ffi.takeLog();
        if (seen.length !== 1 || seen[0].length !== ts.length || !js.every((j, i) => j.back(seen[0][i]))) throw new Bad('argument', `${what}: the callback received ${show(seen)}`);
        if (log !== R.judge(ret).text) throw new Bad('result', `${what}: Rust received ${log}, not ${R.judge(ret).text}`);
    }
}

// ------------------------------------------------------------------ kept callbacks
const kept = (a, b) => BigInt.asIntN(64, B(b) * 3n) ^ B(a);
async function handles(g) {
    if (!noDeadlockCheck) { ffi.setDeadlockTimeout(0); noDeadlockCheck = true; }
    const hs = []; // {id, count, ref: WeakRef, seen, nest}
    const live = () => hs.filter((h) => h.count > 0);
    const make = () => {
        const h = { count: 1, seen: [], nest: null, odd: g.int(4) };
        const f = (send, a, b) => {
            h.seen.push([a, b]);
            const n = h.nest;
            h.nest = null;
            if (n) n();
            const r = kept(a, b);
            return send(typeof b === 'number' && Number.isSafeInteger(Number(r)) && h.odd ? Number(r) : r);
        };
        h.id = ffi.keepNew(f, g.one(['', 'w', 'g', 'wg', 'gw']));
        h.ref = new WeakRef(f);
        hs.push(h);
        return h;
    };
    const call = (h, a, b) => {
        const n = h.seen.length;
        const r = ffi.keepCall(h.id, a, b);
        if (h.seen.length <= n || h.seen[n][0] !== a || !sameInt(B(b))(h.seen[n][1])) throw new Bad('argument', `a kept callback called with (${a}, ${show(b)}) received ${show(h.seen.slice(n))}`);
        if (!sameInt(kept(a, b))(r)) throw new Bad('result', `a kept callback called with (${a}, ${show(b)}) gave ${show(r)}, not ${kept(a, b)}`);
    };
    for (let n = 2 + g.int(10); n--;) {
        const l = live();
        const k = l.length ? g.int(9) : 0;
        const h = l.length ? l[g.int(l.length)] : null;
        before(`kept: ${k}`);
        g.label('kept: ' + ['new', 'retain', 'release', 'call', 'call', 'nested call', 'threads', 'collection', 'tick'][k]);
        switch (k) {
            case 0: make(); break;
            case 1: ffi.keepRetain(h.id); h.count++; break;
            case 2: ffi.keepRelease(h.id); h.count--; break;
            case 3: case 4: call(h, u32.gen(g), i64.gen(g)); break;
            case 5: { // the callback calls Rust, which calls another callback, or itself
                const o = l[g.int(l.length)], a = u32.gen(g), b = i64.gen(g);
                let ran = false;
                if (o === h) { // the call inside is noted after the one outside
                    h.nest = () => { ran = true; if (!sameInt(kept(a, b))(ffi.keepCall(h.id, a, b))) throw new Bad('result', 'a nested call'); };
                } else h.nest = () => { ran = true; call(o, a, b); };
                call(h, u32.gen(g), i64.gen(g));
                if (!ran) throw new Bad('nested', 'a nested call did not run');
                break;
            }
            case 6: {
                const t = 1 + g.int(4), c = 1 + g.int(6), base = i64.gen(g), at = h.seen.length, collect = g.chance(4);
                ffi.takeLog();
                ffi.keepThreads(h.id, t, c, base);
                const early = g.chance(3) && h.count > 1;
                if (early) { ffi.keepRelease(h.id); h.count--; }
                let ended = 0;
                const end = Date.now() + 60000;
                while (ended < t) {
                    if (collect) global.gc();
                    await tick();
                    ended += ffi.reap();
                    if (Date.now() > end) throw new Bad('hang', `${ended} of ${t} threads ended`);
                }
                const log = ffi.takeLog();
                if (log) throw new Bad('result', `calls from threads: ${log.slice(0, 300)}`);
                const seen = h.seen.slice(at), next = Array(t).fill(0);
                if (seen.length !== t * c) throw new Bad('argument', `${t} threads made ${c} calls each and ${seen.length} arrived`);
                for (const [a, b] of seen) {
                    const w = Math.floor(a / 1000), i = a % 1000;
                    if (next[w] !== i || !sameInt(BigInt.asIntN(64, B(base) + B(i)))(b)) throw new Bad('argument', `a call from a thread arrived as (${a}, ${show(b)}), base ${show(base)}, after ${next}`);
                    next[w]++;
                }
                break;
            }
            case 7: await tick(); global.gc(); break;
            default: await tick();
        }
    }
    for (const h of live()) {
        if (!h.ref.deref()) throw new Bad('lost', 'a callback was collected although a handle exists');
        call(h, 1, 2);
        while (h.count--) ffi.keepRelease(h.id);
    }
    for (let i = 0; i < 300 && hs.some((h) => h.ref.deref()); i++) {
        await (i < 10 ? tick() : new Promise((ok) => setTimeout(ok, 10)));
        global.gc();
    }
    if (hs.some((h) => h.ref.deref())) throw new Bad('kept', 'a callback is kept alive although every handle was released');
}
TESTS.handles = { async: true, run: handles };

// ------------------------------------------------------------------ the event loop
// A Node of its own that has nothing else to do ends at once if no callback asks it to wait, and otherwise when those have been released.
function waiting(g) {
    const plan = [];
    for (let n = 1 + g.int(4); n--;) {
        let w = '';
        while (g.chance(2) && w.length < 4) w += g.bool() ? 'w' : 'g';
        const waits = w.endsWith('w');
        plan.push({ w, calls: waits ? 1 + g.int(3) : 0, ms: waits ? 15 + g.int(30) : 0, extra: g.int(3) });
    }
    const what = `callbacks ${JSON.stringify(plan)} in a process of their own`;
    before(what);
    g.label(plan.some((p) => p.calls) ? 'Node waits' : 'Node does not wait');
    const r = require('child_process').spawnSync(process.execPath, ['--expose-gc', __filename, process.argv[2], 'waiting', JSON.stringify(plan)], { timeout: 30000, encoding: 'utf8' });
    if (r.error && r.error.code === 'ETIMEDOUT') throw new Bad('waits', `${what}: Node did not end`);
    if (r.error) throw r.error;
    if (r.status !== 0) throw new Bad('crash', `${what}: exit ${r.status} ${r.signal} ${r.stderr.slice(-400)}`);
    const got = JSON.parse(r.stdout), want = plan.map((p) => p.calls);
    if (JSON.stringify(got) !== JSON.stringify(want)) throw new Bad('waits', `${what}: Node ended after ${got} calls of them, not ${want}`);
}
function waitingChild(plan) {
    ffi.setDeadlockTimeout(0);
    const seen = plan.map(() => 0);
    process.on('exit', () => fs.writeSync(1, JSON.stringify(seen)));
    plan.forEach((p, i) => {
        const id = ffi.keepNew((send, a, b) => {
            if (++seen[i] === p.calls) setImmediate(() => { for (let k = 0; k <= p.extra; k++) ffi.keepRelease(id); });
            return send(1n);
        }, p.w);
        for (let k = 0; k < p.extra; k++) ffi.keepRetain(id);
        if (p.calls) ffi.keepLater(id, p.ms, p.calls);
    });
}
TESTS.waiting = { async: true, run: async (g) => waiting(g) };

// ------------------------------------------------------------------ main
async function one(g) {
    const t = TESTS[test];
    try {
        if (!t.async) {
            const tracked = test !== 'x';
            ffi.takeLog();
            const base = ffi.allocated();
            ffi.track(tracked);
            try { t.run(g); } finally { ffi.track(false); }
            ffi.takeLog();
            const left = ffi.allocated() - base;
            if (left > 0) throw new Bad('leak', `${left} allocations were not freed`);
        } else await t.run(g);
        return null;
    } catch (e) {
        if (e instanceof Bad) return { sig: e.sig, msg: e.message };
        return { sig: 'exception', msg: String(e && e.stack || e) };
    }
}
async function main() {
    const names = Object.keys(TESTS);
    if (mode === 'waiting') return waitingChild(JSON.parse(test));
    if (mode === 'tests') return console.log(names.join(' '));
    if (mode === 'case') {
        const c = JSON.parse(fs.readFileSync(process.argv[5], 'utf8').split('\n')[0]);
        const g = new Gen(null, c.choices);
        if (process.argv[6]) state = { fd: fs.openSync(process.argv[6], 'w'), g, calls: 0, what: '' };
        const bad = await one(g);
        console.log(JSON.stringify({ bad, choices: g.choices, labels: [...g.labels] }));
        process.exit(bad ? 1 : 0);
    }
    const [first, step, end, seed] = process.argv.slice(5, 9).map(Number);
    const fd = fs.openSync(process.argv[9], 'w');
    const labels = {}, distinct = new Set(), samples = [];
    let evaluations = 0;
    for (let i = first; i < end; i += step) {
        const g = new Gen(rng((seed * 1000003 + i * 31 + names.indexOf(test) * 7919) | 0), null);
        fs.ftruncateSync(fd);
        state = { fd, g, calls: 0, what: '' };
        const bad = await one(g);
        if (bad) return console.log(JSON.stringify({ evaluations, bad, choices: g.choices })), process.exit(1);
        evaluations++;
        for (const l of g.labels) labels[l] = (labels[l] || 0) + 1;
        if (state.calls > 1 || g.labels.has('mismatching argument')) distinct.add(hash(g.choices));
        if (samples.length < 4 && (evaluations & (evaluations - 1)) === 0 && evaluations > 4) samples.push(state.what.slice(0, 200));
    }
    fs.writeFileSync(process.argv[9] + '.hashes', new Float64Array(distinct));
    console.log(JSON.stringify({ evaluations, labels, samples }));
    process.exit(0);
}
function hash(xs) {
    let a = 0x811c9dc5, b = xs.length;
    for (const x of xs) {
        a = Math.imul(a ^ x, 0x01000193) ^ (x / 65536);
        b = Math.imul(b + x, 0x85ebca6b) ^ (b >>> 13);
    }
    return (a >>> 0) * 2 ** 21 + (b >>> 11);
}
main();
