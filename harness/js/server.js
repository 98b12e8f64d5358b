// Calls the methods of the JavaScript binding as asked line by line on standard input. The binding runs against a
// linear memory with 32-bit pointers like that of WebAssembly, in which every block is guarded, and the real library.
// node server.js addon.node libvoikko_api.js
'use strict';
const fs = require('fs'), C = require(process.argv[2]), source = fs.readFileSync(process.argv[3], 'utf8');
const SIZE = 1 << 26, memory = new ArrayBuffer(SIZE), HEAPU8 = new Uint8Array(memory), HEAP8 = new Int8Array(memory), HEAP32 = new Int32Array(memory), HEAPU32 = new Uint32Array(memory), view = new DataView(memory);
let faults = [], blocks = new Map(), top = 1024, fixedTop = SIZE, stack = [];
function fault(s) { if (faults.length < 5) faults.push(s); }
function alloc(size, kind, owned) {
	if (blocks.size == 0) top = 1024;
	const p = top; top += (size + 31) & ~15;
	if (top >= fixedTop) throw new Error('the test memory is full');
	HEAPU8.fill(0xAA, p, top);
	blocks.set(p, {size: size, kind: kind, owned: owned || []});
	return p;
}
function release(p, kind) {
	if (p === 0 && (kind == 'malloc' || kind == 'string' || kind == 'strings' || kind == 'message')) return; // freeing nothing is allowed
	const b = blocks.get(p);
	if (!b) { fault('release of ' + kind + ' that is not allocated'); return; }
	if (b.kind != kind) { fault(b.kind + ' released as ' + kind); return; }
	blocks.delete(p); HEAPU8.fill(0xDD, p, p + b.size);
	for (const o of b.owned) drop(o);
}
function drop(p) { const b = blocks.get(p); if (b) { blocks.delete(p); HEAPU8.fill(0xDD, p, p + b.size); for (const o of b.owned) drop(o); } }
function inside(p, n) { // the block that holds n bytes from p
	let best = -1;
	if (blocks.has(p)) best = p; else for (const q of blocks.keys()) if (q <= p && q > best) best = q;
	const b = blocks.get(best);
	return b && p + n <= best + b.size ? b : null;
}
function reading(p, n, what) { if (p < fixedTop && !inside(p, n)) fault(what + ' at ' + p + ' is outside every block'); }
function putBytes(b, kind) { const p = alloc(b.length + 1, kind); HEAPU8.set(b, p); HEAPU8[p + b.length] = 0; return p; }
function putList(l, kind, elementKind) { const own = l.map(b => putBytes(b, elementKind)), p = alloc(4 * (own.length + 1), kind, own); own.concat([0]).forEach((q, i) => view.setInt32(p + 4 * i, q, true)); return p; }
function cBytes(p) { // a C string argument
	if (!p) return null;
	const b = p < fixedTop ? inside(p, 1) : {}; if (!b) { fault('string at ' + p + ' is outside every block'); return Buffer.alloc(0); }
	let e = p; while (e < SIZE && HEAPU8[e]) e++;
	if (p < fixedTop && !inside(p, e - p + 1)) fault('string at ' + p + ' does not end in its block');
	return Buffer.from(HEAPU8.slice(p, e));
}
function fixed(b) { fixedTop -= b.length + 1; HEAPU8.set(b, fixedTop); HEAPU8[fixedTop + b.length] = 0; return fixedTop; }
const messages = new Map();
// ---- handles
const handles = new Map(); let nextHandle = 0x7000000;
function handle(h) { const r = handles.get(h); if (r === undefined) { fault('use of a handle that is not open'); throw 'CLOSEDHANDLE'; } return r; }
const objects = new Map(); // grammar errors and analyses: address -> details
const text0 = b => b === null ? Buffer.alloc(0) : b;
const need = (b, f) => { if (b === null) { fault('null string argument'); } return f(text0(b)); };
function range(p, n) { if (n < 0 || (n > 0 && !inside(p, n))) { fault('text of ' + n + ' bytes at ' + p + ' is outside every block'); return Buffer.alloc(0); } return Buffer.from(HEAPU8.slice(p, p + n)); }
const functions = {
	voikkoInit(err, lang, path) {
		const r = C.init(cBytes(lang), cBytes(path));
		if (typeof r == 'number') { view.setInt32(err, 0, true); const h = nextHandle += 16; handles.set(h, r); return h; }
		reading(err, 4, 'place of the message'); const s = r.toString('latin1'); if (!messages.has(s)) messages.set(s, fixed(r));
		view.setInt32(err, messages.get(s), true); return 0;
	},
	voikkoTerminate(h) { C.terminate(handle(h)); handles.delete(h); },
	voikkoSetBooleanOption(h, o, v) { return C.setBoolean(handle(h), o, v); },
	voikkoSetIntegerOption(h, o, v) { return C.setInteger(handle(h), o, v); },
	voikkoSpellCstr(h, w) { return need(cBytes(w), b => C.spell(handle(h), b)); },
	voikkoSuggestCstr(h, w) { return need(cBytes(w), b => { const r = C.suggest(handle(h), b); return r ? putList(r, 'strings', 'part') : 0; }); },
	voikkoGetAttributeValues(h, w) { return need(cBytes(w), b => { const r = C.values(handle(h), b); return r ? putList(r, 'strings', 'part') : 0; }); },
	voikkoHyphenateCstr(h, w) { return need(cBytes(w), b => { const r = C.hyphenate(handle(h), b); return r ? putBytes(r, 'string') : 0; }); },
	voikkoInsertHyphensCstr(h, w, s, c) { const q = text0(cBytes(s)); return need(cBytes(w), b => { const r = C.insert(handle(h), b, q, c); return r ? putBytes(r, 'string') : 0; }); },
	voikkoFreeCstrArray(p) { release(p, 'strings'); },
	voikkoFreeCstr(p) { release(p, 'string'); },
	voikkoFreeErrorMessageCstr(p) { release(p, 'message'); },
	voikkoNextTokenCstr(h, t, n, ref) { const r = C.token(handle(h), range(t, n)); reading(ref, 4, 'place of the length'); view.setInt32(ref, r[1], true); return r[0]; },
	voikkoNextSentenceStartCstr(h, t, n, ref) { const r = C.sentence(handle(h), range(t, n)); reading(ref, 4, 'place of the length'); view.setInt32(ref, r[1], true); return r[0]; },
	voikkoNextGrammarErrorCstr(h, t, n, start, skip) {
		const r = C.grammar(handle(h), range(t, n), start, skip);
		if (!r) return 0;
		const s = r[3] ? putList(r[3], 'suggestions', 'part') : 0, p = alloc(16, 'error', s ? [s] : []);
		objects.set(p, {r: r, s: s}); return p;
	},
	voikkoGetGrammarErrorCode(p) { return object(p, 'error').r[0]; },
	voikkoGetGrammarErrorStartPos(p) { return object(p, 'error').r[1]; },
	voikkoGetGrammarErrorLength(p) { return object(p, 'error').r[2]; },
	voikkoGetGrammarErrorSuggestions(p) { return object(p, 'error').s; },
	voikkoGetGrammarErrorShortDescription(p, l) { return putBytes(C.describe(object(p, 'error').r[4], text0(cBytes(l))), 'message'); }, // address 0 reads as an empty string
	voikkoFreeGrammarError(p) { C.freeError(object(p, 'error').r[4]); objects.delete(p); release(p, 'error'); },
	voikkoAnalyzeWordCstr(h, w) { return need(cBytes(w), b => {
		const r = C.analyze(handle(h), b);
		if (!r) return 0;
		const own = r.map(m => { const k = putList(m.map(x => x[0]), 'keys', 'part'), p = alloc(16, 'analysis', [k]); objects.set(p, {m: m, k: k}); return p; });
		const p = alloc(4 * (own.length + 1), 'analyses', own); own.concat([0]).forEach((q, i) => view.setInt32(p + 4 * i, q, true)); return p;
	}); },
	voikko_free_mor_analysis(p) { const b = blocks.get(p); if (b) for (const o of b.owned) objects.delete(o); release(p, 'analyses'); },
	voikko_mor_analysis_keys(p) { return object(p, 'analysis').k; },
	voikko_mor_analysis_value_cstr(p, k) { const q = text0(cBytes(k)), m = object(p, 'analysis').m.find(x => x[0].equals(q)); return m ? putBytes(m[1], 'value') : 0; },
	voikko_free_mor_analysis_value_cstr(p) { release(p, 'value'); },
};
function object(p, kind) { const b = blocks.get(p); if (!b || b.kind != kind) { fault('use of something that is no ' + kind); throw 'NOOBJECT'; } return objects.get(p); }
// ---- what the runtime offers
function lengthBytesUTF8(s) { let n = 0; for (let i = 0; i < s.length; ++i) { const c = s.charCodeAt(i); if (c <= 0x7F) n++; else if (c <= 0x7FF) n += 2; else if (c >= 0xD800 && c <= 0xDFFF) { n += 4; ++i; } else n += 3; } return n; }
function encode(s) { const r = []; for (let i = 0; i < s.length; ++i) { let u = s.charCodeAt(i); if (u >= 0xD800 && u <= 0xDFFF) { const u1 = s.charCodeAt(++i); u = 0x10000 + ((u & 0x3FF) << 10) | (u1 & 0x3FF); } if (u <= 0x7F) r.push([u]); else if (u <= 0x7FF) r.push([0xC0 | u >> 6, 0x80 | u & 63]); else if (u <= 0xFFFF) r.push([0xE0 | u >> 12, 0x80 | u >> 6 & 63, 0x80 | u & 63]); else r.push([0xF0 | u >> 18, 0x80 | u >> 12 & 63, 0x80 | u >> 6 & 63, 0x80 | u & 63]); } return r; }
function stringToUTF8(s, p, max) { if (!(max > 0)) return 0; let n = 0; const r = []; for (const c of encode(s)) { if (n + c.length >= max) break; n += c.length; r.push(...c); } r.push(0); if (!inside(p, r.length)) { fault('text written outside every block'); return 0; } HEAPU8.set(r, p); return n; }
function UTF8ToString(p, max) { if (!p) return ''; let e = p; const end = max === undefined ? SIZE : p + max; while (e < end && HEAPU8[e]) e++; reading(p, e - p + (max === undefined ? 1 : 0), 'string'); return Buffer.from(HEAPU8.slice(p, e)).toString('utf8'); }
function getValue(p, type) { reading(p, type == 'i8' ? 1 : type == 'i16' ? 2 : 4, 'value'); if (type == 'i8') return HEAP8[p]; if (type == 'i16') return view.getInt16(p, true); return type && type.endsWith('*') ? view.getUint32(p, true) : view.getInt32(p, true); }
function setValue(p, v, type) { reading(p, type == 'i8' ? 1 : type == 'i16' ? 2 : 4, 'value'); if (type == 'i8') HEAP8[p] = v; else if (type == 'i16') view.setInt16(p, v, true); else view.setInt32(p, v, true); }
function _malloc(n) { return alloc(n >>> 0, 'malloc'); }
function _free(p) { release(p, 'malloc'); }
function stringToNewUTF8(s) { const n = lengthBytesUTF8(s) + 1, p = _malloc(n); stringToUTF8(s, p, n); return p; }
const toC = { string(s) { if (s === null || s === undefined || s === 0) return 0; const b = [].concat(...encode(s)), p = alloc(b.length + 1, 'stack'); HEAPU8.set(b, p); HEAPU8[p + b.length] = 0; stack.push(p); return p; }, array(a) { const p = alloc(a.length, 'stack'); HEAPU8.set(a, p); stack.push(p); return p; } };
function ccall(name, ret, types, args) {
	const f = functions[name]; if (!f) throw new Error('no function ' + name);
	const mark = stack.length, a = (args || []).map((x, i) => types && toC[types[i]] ? toC[types[i]](x) : typeof x == 'boolean' ? +x : x === undefined || x === null ? 0 : x | 0);
	try {
		const r = f(...a);
		return ret == 'string' ? UTF8ToString(r) : ret == 'boolean' ? Boolean(r) : r;
	} finally { while (stack.length > mark) blocks.delete(stack.pop()); }
}
function cwrap(name, ret, types) { return function () { return ccall(name, ret, types, Array.from(arguments)); }; }
const Module = {ccall: ccall, cwrap: cwrap, HEAPU8: HEAPU8, HEAP8: HEAP8, HEAP32: HEAP32, HEAPU32: HEAPU32, _malloc: _malloc, _free: _free, getValue: getValue, setValue: setValue, UTF8ToString: UTF8ToString, stringToUTF8: stringToUTF8, lengthBytesUTF8: lengthBytesUTF8, stringToNewUTF8: stringToNewUTF8};
const names = {Module: Module, cwrap: cwrap, ccall: ccall, _malloc: _malloc, _free: _free, getValue: getValue, setValue: setValue, UTF8ToString: UTF8ToString, stringToUTF8: stringToUTF8, lengthBytesUTF8: lengthBytesUTF8, stringToNewUTF8: stringToNewUTF8, HEAPU8: HEAPU8, HEAP8: HEAP8, HEAP32: HEAP32, HEAPU32: HEAPU32};
for (const n of Object.keys(functions)) names['_' + n] = Module['_' + n] = function () { return functions[n](...Array.from(arguments)); };
let loaded = 0; Module.onLoad = m => { if (m === Module) loaded++; };
new Function(...Object.keys(names), source)(...Object.values(names));
Module.onRuntimeInitialized();
// ---- protocol: s + hexadecimal UTF-16 units, n, u, t, f, numbers, [lists], {maps}, X + exception class
function str(h) { if (h == 'n') return null; if (h == 'u') return undefined; let r = ''; for (let i = 1; i + 4 <= h.length; i += 4) r += String.fromCharCode(parseInt(h.substr(i, 4), 16)); return r; }
function hex(s) { let r = 's'; for (let i = 0; i < s.length; i++) r += s.charCodeAt(i).toString(16).padStart(4, '0'); return r; }
function out(o) {
	if (o === null) return 'n'; if (o === undefined) return 'u'; if (o === true) return 't'; if (o === false) return 'f';
	if (typeof o == 'number') return String(o); if (typeof o == 'string') return hex(o);
	if (Array.isArray(o)) return '[' + o.map(out).join(',') + ']';
	if (typeof o == 'object') return '{' + Object.keys(o).map(k => hex(k) + ':' + out(o[k])).sort().join(',') + '}';
	return '?' + typeof o;
}
function safe(f) { try { return out(f()); } catch (e) { return 'X' + (typeof e == 'string' ? 'String' : e && e.constructor ? e.constructor.name : typeof e); } }
const METHODS = {
	'spell': (v, t) => v.spell(t), 'suggest': (v, t) => v.suggest(t), 'analyze': (v, t) => v.analyze(t), 'getHyphenationPattern': (v, t) => v.getHyphenationPattern(t), 'hyphenate': (v, t) => v.hyphenate(t),
	'hyphenate shy': (v, t) => v.hyphenate(t, '\u00ad', true), 'hyphenate long': (v, t) => v.hyphenate(t, '<\ud83d\ude00>', false), 'hyphenate empty': (v, t) => v.hyphenate(t, '', false), 'hyphenate NUL': (v, t) => v.hyphenate(t, '\0', true),
	'hyphenate separator': (v, t) => v.hyphenate(t, '+'), 'hyphenate default': (v, t) => v.hyphenate(t, undefined, false),
	'tokens': (v, t) => v.tokens(t), 'sentences': (v, t) => v.sentences(t), 'attributeValues': (v, t) => v.attributeValues(t), 'grammarErrors fi': (v, t) => v.grammarErrors(t, 'fi'), 'grammarErrors en': (v, t) => v.grammarErrors(t, 'en'), 'grammarErrors empty': (v, t) => v.grammarErrors(t, ''), 'grammarErrors none': (v, t) => v.grammarErrors(t)};
const open = new Map();
function value(n, x) { return n == 'setMinHyphenatedWordLength' ? x : n == 'setSuggestionStrategy' ? (x == 2 ? 'MUU' : x ? 'OCR' : 'TYPO') : x != 0; }
function state() { const r = blocks.size + ':' + handles.size + ':' + faults.join('; '); faults = []; blocks.clear(); stack = []; return r; }
function command(a) {
	switch (a[0]) {
	case 'loaded': return String(loaded);
	case 'open': return safe(() => { open.set(a[1], a.length > 3 ? Module.init(str(a[2]), str(a[3])) : Module.init(str(a[2]))); return 'ok'; });
	case 'message': try { Module.init(str(a[1]), str(a[2])).terminate(); return 'n'; } catch (e) { return out(e); }
	case 'close': return safe(() => { open.get(a[1]).terminate(); return 'ok'; });
	case 'all': case 'some': { const v = open.get(a[1]), t = str(a[2]), r = []; for (const m of a[0] == 'all' ? Object.keys(METHODS) : a[3].split(',')) { r.push(safe(() => METHODS[m](v, t)), state()); } return r.join('\t'); }
	case 'set': return safe(() => { open.get(a[1])[a[2]](value(a[2], parseInt(a[3]))); return 'ok'; });
	case 'names': return Object.keys(open.get(a[1])).sort().join(',');
	}
	return '?';
}
const input = Buffer.alloc(1 << 20); let rest = '';
for (;;) {
	let n; try { n = fs.readSync(0, input, 0, input.length, null); } catch (e) { if (e.code == 'EAGAIN') continue; break; }
	if (!n) break;
	rest += input.toString('latin1', 0, n);
	for (let i; (i = rest.indexOf('\n')) >= 0;) { const a = rest.slice(0, i).split('\t'); rest = rest.slice(i + 1); let r = command(a); const b = Buffer.from(r + '\t' + state() + '\n'); for (let k = 0; k < b.length;) { try { k += fs.writeSync(1, b, k); } catch (e) { if (e.code != 'EAGAIN') throw e; } } }
}
