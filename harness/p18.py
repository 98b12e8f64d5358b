"""P18: the methods of libvoikko.py against the C interface, called with prototypes of our own on a second handle."""
import gc, itertools, os, subprocess, sys, types
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.dont_write_bytecode = True
import cref, mc
from ctypes import CDLL, c_long
E = mc.Explorer(sys.argv)
shim = CDLL(None); shim.newcount_blocks.restype = shim.newcount_bytes.restype = c_long
C = cref.Lib(E.opt['lib'] + '/libvoikko.so.1')
src = open(E.opt['py'], encoding='utf-8').read()
M = types.ModuleType('libvoikko'); exec(compile(src, 'libvoikko.py', 'exec'), M.__dict__)
V = M.Voikko; V.setLibrarySearchPath(E.opt['lib'])
D = E.out + '/dicts.%d' % E.shard
UNI = E.out + '/p\u00f6ll\u00f6 \U0001f600.%d' % E.shard
for d in (D, UNI):
    os.makedirs(d, exist_ok=True); subprocess.run([E.opt['mkdicts'], d], check=True)
DB = D.encode()
def held(): return shim.newcount_blocks(), shim.newcount_bytes()

# ---- what each method has to give, from the C interface
def cTokens(h, t):
    r = []
    for i, part in enumerate(t.split('\0')):
        if i: r.append(('\0', 4))
        r += C.tokens(h, part)
    return r
def cGrammar(h, t, lang):
    if '\0' in t: return []
    r, off = [], 0
    for p in t.split('\n'):
        r += [(c, s + off, n, d, g) for c, s, n, d, g in C.paragraph(h, p, lang)]; off += len(p) + 1
    return r
NUL = lambda t, f, e: e if '\0' in t else f()
NAMES = {0: 'NONE', 1: 'WORD', 2: 'PUNCTUATION', 3: 'WHITESPACE', 4: 'UNKNOWN'}; SNAMES = {0: 'NONE', 1: 'NO_START', 2: 'PROBABLE', 3: 'POSSIBLE'}
def insert(h, t, sep, ctx):
    if '\0' in t + sep: return t
    r = C.insert(h, t, sep, ctx)
    return t if r is None else r
METHODS = [
    ('spell', lambda v, t: v.spell(t), lambda h, t: NUL(t, lambda: bool(C.spell(h, t)), False)),
    ('suggest', lambda v, t: v.suggest(t), lambda h, t: NUL(t, lambda: C.suggest(h, t), [])),
    ('analyze', lambda v, t: v.analyze(t), lambda h, t: NUL(t, lambda: C.analyze(h, t), [])),
    ('getHyphenationPattern', lambda v, t: v.getHyphenationPattern(t), lambda h, t: NUL(t, lambda: C.pattern(h, t), ' ' * len(t))),
    ('hyphenate', lambda v, t: v.hyphenate(t), lambda h, t: insert(h, t, '-', 1)),
    ('hyphenate separator', lambda v, t: v.hyphenate(t, '\u00ad'), lambda h, t: insert(h, t, '\u00ad', 1)),
    ('hyphenate long separator', lambda v, t: v.hyphenate(t, '<\U0001f600>', False), lambda h, t: insert(h, t, '<\U0001f600>', 0)),
    ('hyphenate empty separator', lambda v, t: v.hyphenate(t, separator='', allowContextChanges=0), lambda h, t: insert(h, t, '', 0)),
    ('hyphenate NUL separator', lambda v, t: v.hyphenate(t, '\0'), lambda h, t: t),
    ('tokens', lambda v, t: [(k.tokenText, k.tokenType, k.tokenTypeName, repr(k)) for k in v.tokens(t)], lambda h, t: [(a, k, NAMES[k], '<%s,%s>' % (a, NAMES[k])) for a, k in cTokens(h, t)]),
    ('sentences', lambda v, t: [(k.sentenceText, k.nextStartType, k.nextStartTypeName, repr(k)) for k in v.sentences(t)], lambda h, t: [(a, k, SNAMES[k], '<%s,%s>' % (a, SNAMES[k])) for a, k in ([(t, 0)] if '\0' in t else C.sentences(h, t))]),
    ('attributeValues', lambda v, t: v.attributeValues(t), lambda h, t: NUL(t, lambda: C.values(h, t.encode('utf-8')), None)),
]
def gr(lang): return lambda v, t: [(e.errorCode, e.startPos, e.errorLen, e.shortDescription, list(e.suggestions), str(e)) for e in v.grammarErrors(t, lang)]
def cgr(lang): return lambda h, t: [(c, s, n, d, g, '[code=%i, level=0, descr="%s", stpos=%i, len=%i, suggs={%s}]' % (c, d, s, n, ','.join('"%s"' % x for x in g))) for c, s, n, d, g in cGrammar(h, t, lang)]
for l, c in (('fi', b'fi'), ('en', b'en'), ('', b''), (b'fi', b'fi'), ('en_US', b'en_US')): METHODS.append(('grammarErrors %r' % l, gr(l), cgr(c)))
SURROGATE_FREE = {'hyphenate', 'hyphenate separator', 'hyphenate long separator', 'hyphenate empty separator', 'attributeValues'}

def same(v, h, t, methods=METHODS, storage=True):
    """every method for one text; the binding must hold as much after the call as the C caller does"""
    bad = any('\ud800' <= c <= '\udfff' for c in t)
    for name, py, c in methods:
        E.step()
        a = held()
        if bad and name in SURROGATE_FREE:
            # no UTF-8 form exists: refused (or, where the text never reaches the library, answered)
            try: py(v, t)
            except (UnicodeError, M.VoikkoException): pass
            continue
        x = c(h, t); b = held()
        try: y = py(v, t)
        except Exception as e: y = 'exception %s %s' % (type(e).__name__, e)
        d = held()
        if x != y or type(x) != type(y): E.fail('%s(%s): C gives %s, Python gives %s' % (name, ascii(t)[:300], ascii(x)[:500], ascii(y)[:500]))
        elif storage and (b[0] - a[0], b[1] - a[1]) != (d[0] - b[0], d[1] - b[1]): E.fail('%s(%s): after the C call %d more blocks (%d bytes) are held, after the Python call %d (%d)' % (name, ascii(t)[:300], b[0] - a[0], b[1] - a[1], d[0] - b[0], d[1] - b[1]))
        else: E.state(name + ascii(x))
class Pair:
    """a Python instance and a C handle with the same dictionary, opened when first needed"""
    def __init__(self, lang): self.lang = lang; self._v = self._h = None
    @property
    def v(self):
        if not self._v: self._v = V(self.lang, D)
        return self._v
    @property
    def h(self):
        if not self._h:
            self._h, e = C.open(self.lang.encode(), DB)
            if e: sys.stderr.write(e + '\n'); os._exit(3)
        return self._h
    def close(self):
        if self._v: self._v.terminate()
        if self._h: C.close(self._h)
TEXTS = ['kissa', 'Kissa', 'KISSA', 'kisaa', 'kissa.', 'autotie', 'linja-auto', 'linjaauto', '-kissa', 'kissa1', 'XQ', 'xq', 'kis-sa', 'a@b.fi', 'kkissa', 'klssa', 'talo', 'aa', 'abba',
         'Kissa syö.', 'kissa syö.', 'Kissa  syö', 'Kissa', 'Kissa syö', 'Kissa on kissa, ja ja koira', 'Kissa rupeaa syödä.', 'ei ei', '\u20ac kissa.', 'joten kuten', 'Kissa joten kuten koira.\nkissa', 'Kissa syö .\nKissa joten kuten\n\nKoira syö ( koira.', 'tuuttuun', 'oiaoiu', '5 kissaa', 'kissa, koira. talo', 'Koira (kissa', 'koirakissa', 'kiss-a', 'STRUCTURE', 'SIJAMUOTO', 'CLASS', 'kissa\u0301', '- kissa', '- Kissa', 'klsssa', 'Kodo', 'bab', 'aiai', 'autootie', 'rap', 'linja-autotie-', 'maalla', 'maalla-']
for lang in ('fi-x-a', 'xx', 'yy'):
    h, e = C.open(lang.encode(), DB); assert not e, lang
    for t in TEXTS:
        for n, p, c in METHODS: c(h, t)
    C.close(h)
    try:
        v = V(lang, D)
        for t in TEXTS[:25]:
            for n, p, c in METHODS:
                try: p(v, t)
                except Exception: pass
        v.terminate()
    except Exception: pass   # will be seen in the cases

def main():
    A = ['k', 'i', 's', 'a', '.', '-', ' ', 'ä', 'A', '\n', '\0', '\U0001f600', '\ud800', ',']
    for lang, hi in (('fi-x-a', 5 if E.thorough else 4), ('xx', 4 if E.thorough else 3), ('yy', 3 if E.thorough else 2)):
        E.start('%s: every text of at most %d of %d characters x every method' % (lang, hi, len(A)))
        P = Pair(lang)
        for t in mc.strings(A, 0, hi):
            if E.take(): E.desc('%s text %s' % (lang, ascii(t))); same(P.v, P.h, t)
        P.close()
    W = ['kissa', 'koira', 'syö', 'Kissa', 'joten', 'kuten', ' ', '  ', '.', ',', '\n', '\0', '\U0001f600', '-']
    hi = 5 if E.thorough else 3
    E.start('every text of at most %d of %d words and marks x every method' % (hi, len(W)))
    P = Pair('fi-x-a')
    for t in mc.strings(W, 1, hi):
        if E.take(): E.desc('text %s' % ascii(t)); same(P.v, P.h, t)
    P.close()
    # characters other programs take for line ends; only the newline ends a paragraph
    SEP = ['\r', '\r\n', '\n', '\x0b', '\x0c', '\x1c', '\x1d', '\x1e', '\x85', '\u2028', '\u2029', '\t', '\u00a0']
    PAR = ['Kissa  syö.', 'kissa ei ei koira.', 'Kissa', '', 'joten kuten']
    E.start('paragraphs with every separator')
    P = Pair('fi-x-a')
    for n in (1, 2) if not E.thorough else (1, 2, 3):
        for sep in itertools.product(SEP, repeat=n):
            for par in itertools.product(PAR, repeat=n + 1):
                if not E.take(): continue
                t = par[0] + ''.join(a + b for a, b in zip(sep, par[1:]))
                E.desc('text %s' % ascii(t)); same(P.v, P.h, t)
    P.close()
    E.start('lengths')
    P = Pair('fi-x-a')
    for unit in ('a', 'ä', '\U0001f600', 'kissa ', 'aa. '):
        for n in list(range(245, 265)) + [500, 1000, 4095, 4096]:
            if E.take(): E.desc('%s x %d' % (ascii(unit), n)); same(P.v, P.h, (unit * n)[:n])
    P.close()

    BOOL = {'setIgnoreDot': 0, 'setIgnoreNumbers': 1, 'setIgnoreUppercase': 3, 'setNoUglyHyphenation': 4, 'setAcceptFirstUppercase': 6, 'setAcceptAllUppercase': 7, 'setIgnoreNonwords': 10, 'setAcceptExtraHyphens': 11,
            'setAcceptMissingHyphens': 12, 'setAcceptTitlesInGc': 13, 'setAcceptUnfinishedParagraphsInGc': 14, 'setHyphenateUnknownWords': 15, 'setAcceptBulletedListsInGc': 16}
    SET = []
    for n, o in BOOL.items():
        for x in (True, False): SET.append(('%s(%r)' % (n, x), (lambda v, n=n, x=x: getattr(v, n)(x)), (lambda h, o=o, x=x: C.voikkoSetBooleanOption(h, o, int(x)))))
    for x in (0, 1): SET.append(('setSuggestionStrategy(%d)' % x, (lambda v, x=x: v.setSuggestionStrategy(x)), (lambda h, x=x: C.voikkoSetBooleanOption(h, 8, x))))
    for x in (0, 2, 5, 100): SET.append(('setMinHyphenatedWordLength(%d)' % x, (lambda v, x=x: v.setMinHyphenatedWordLength(x)), (lambda h, x=x: C.voikkoSetIntegerOption(h, 9, x))))
    for x in (-1, 0, 1, 3): SET.append(('setSpellerCacheSize(%d)' % x, (lambda v, x=x: v.setSpellerCacheSize(x)), (lambda h, x=x: C.voikkoSetIntegerOption(h, 17, x))))
    ODD = []
    for n, o in BOOL.items():
        for x, b in ((1, 1), (2, 1), (-1, 1), (0, 0), (None, 0), ('', 0), ('x', 1), ([], 0), ([0], 1), (0.0, 0), (0.5, 1)): ODD.append(('%s(%r)' % (n, x), (lambda v, n=n, x=x: getattr(v, n)(x)), (lambda h, o=o, b=b: C.voikkoSetBooleanOption(h, o, b))))
    QUICK = [m for m in METHODS if not m[0].startswith(('hyphenate ', 'attribute', 'grammarErrors')) or m[0] == "grammarErrors 'en'"]
    # every option must be told apart from every other by some answer, or a setter of the wrong option could go unseen
    def fingerprint(setters):
        h, e = C.open(b'fi-x-a', DB); b = held()
        for s in setters: s(h)
        d = held()[1] - b[1]
        r = [c(h, t) for n, p, c in QUICK for t in TEXTS]
        C.close(h)
        return repr((d, r))
    base = fingerprint([]); seen = {}
    for n, p, c in SET:
        f = fingerprint([c])
        if f != base: seen.setdefault(n.split('(')[0], set()).add(f)
    missing = [n for n in list(BOOL) + ['setSuggestionStrategy', 'setMinHyphenatedWordLength', 'setSpellerCacheSize'] if n not in seen]
    all_f = [f for s in seen.values() for f in s]
    if missing or len(set(all_f)) != len(all_f): sys.stderr.write('texts do not tell options apart: %s\n' % missing); sys.stderr.flush(); os._exit(3)
    def settings(seq, texts):
        a = held(); v = V('fi-x-a', D); h, e = C.open(b'fi-x-a', DB)
        for n, py, c in seq:
            E.step(); b = held(); r = c(h); x = held()
            try: py(v); y = 1
            except M.VoikkoException: y = 0
            z = held()
            if r != y: E.fail('%s: C returns %d, Python %s' % (n, r, 'succeeds' if y else 'raises'))
            if 'Cache' in n and (x[1] - b[1]) != (z[1] - x[1]): E.fail('%s: storage changes by %d bytes through C, %d through Python' % (n, x[1] - b[1], z[1] - x[1]))
        for t in texts: same(v, h, t, QUICK)
        C.close(h); v.terminate(); v = None
        if held() != a: E.fail('after closing both handles %d blocks more are held than before' % (held()[0] - a[0]))
    for s in SET + ODD:
        if s is SET[0]: E.start('every setter and value, all texts')
        if E.take(): E.desc(s[0]); settings([s], TEXTS)
    E.start('every two setters and values')
    for s in itertools.product(SET, repeat=2):
        if E.take(): E.desc(s[0][0] + ' ' + s[1][0]); settings(s, TEXTS if E.thorough else TEXTS[::3])
    E.start('setBooleanOption and setIntegerOption, every number')
    for o in range(-3, 25):
        for x in (-2, -1, 0, 1, 2, 7):
            if o == 17 and x > 5: continue
            if E.take(): E.desc('setBooleanOption(%d, %d)' % (o, x)); settings([('boolean', lambda v: v.setBooleanOption(o, x), lambda h: C.voikkoSetBooleanOption(h, o, int(bool(x))))], TEXTS)
            if E.take(): E.desc('setIntegerOption(%d, %d)' % (o, x)); settings([('integer', lambda v: v.setIntegerOption(o, x), lambda h: C.voikkoSetIntegerOption(h, o, x))], TEXTS)

    # ---- exceptions
    def outcome(f):
        try: r = f(); return 'value %s' % ascii(r)[:100]
        except M.VoikkoException as e: return 'VoikkoException'
        except Exception as e: return 'other'
    CALLS = {'spell': lambda v, x: v.spell(x), 'suggest': lambda v, x: v.suggest(x), 'analyze': lambda v, x: v.analyze(x), 'getHyphenationPattern': lambda v, x: v.getHyphenationPattern(x), 'hyphenate': lambda v, x: v.hyphenate(x), 'hyphenate separator': lambda v, x: v.hyphenate('kissa', x),
             'tokens': lambda v, x: v.tokens(x), 'sentences': lambda v, x: v.sentences(x), 'grammarErrors': lambda v, x: v.grammarErrors(x, 'fi'), 'attributeValues': lambda v, x: v.attributeValues(x)}
    SETTERS = {'setMinHyphenatedWordLength': lambda v, x: v.setMinHyphenatedWordLength(x), 'setSpellerCacheSize': lambda v, x: v.setSpellerCacheSize(x), 'setBooleanOption': lambda v, x: v.setBooleanOption(x, True), 'setIntegerOption': lambda v, x: v.setIntegerOption(x, 2), 'setSuggestionStrategy': lambda v, x: v.setSuggestionStrategy(x)}
    WRONG = [None, 5, 0, 2.5, b'kissa', b'', True, object()]
    LOOSE = [[], ['kissa'], (), {}, {'kissa': 1}, bytearray(b'kissa')]
    E.start('arguments of wrong type')
    for n, f in CALLS.items():
        for x in WRONG + LOOSE:
            if not E.take(): continue
            E.desc('%s(%r)' % (n, type(x).__name__ if type(x) is object else x)); E.step()
            P = Pair('fi-x-a'); r = outcome(lambda: f(P.v, x))
            if any(x is w for w in WRONG) and r != 'other' and r != 'VoikkoException': E.fail('no exception: %s' % r)
            for t in TEXTS[:12]: same(P.v, P.h, t, QUICK, False)
            P.close()
    for n, f in SETTERS.items():
        for x in [None, 'x', '', b'1', [], 2.5]:
            if not E.take(): continue
            E.desc('%s(%r)' % (n, x)); E.step()
            P = Pair('fi-x-a'); r = outcome(lambda: f(P.v, x))
            if not r in ('other', 'VoikkoException'): E.fail('no exception: %s' % r)
            for t in TEXTS[:12]: same(P.v, P.h, t, QUICK, False)
            P.close()
    for x in (2, -1, 3, 100):
        if E.take():
            E.desc('setSuggestionStrategy(%d)' % x); P = Pair('fi-x-a'); r = outcome(lambda: P.v.setSuggestionStrategy(x))
            if r != 'VoikkoException': E.fail('expected VoikkoException: %s' % r)
            for t in TEXTS[:12]: same(P.v, P.h, t, QUICK, False)
            P.close()
    E.start('opening')
    NOLANG = ['', None, b'', 'xq', b'xq', 'zz', 'fi-x-olematon', 'fi-x-a', b'fi-x-a', 'fi', 'xx', 'yy', 'yy-Latn', 'FI-x-a', 'ä', 5, [], 2.5]
    PATHS = [D, DB, UNI, UNI.encode(), '', None, '/olematon', E.out, 5, b'']
    def enc(x): return None if not x else x.encode() if isinstance(x, str) else x
    for l in NOLANG:
        for p in PATHS:
            if not E.take(): continue
            E.desc('Voikko(%r, %r)' % (l, 'dir%d' % PATHS.index(p))); E.step(); a = held()
            if (l and not isinstance(l, (str, bytes))) or (p and not isinstance(p, (str, bytes))):
                r = outcome(lambda: V(l, p))
                if r not in ('other', 'VoikkoException'): E.fail('no exception: ' + r)
            else:
                h, err = C.open(enc(l), enc(p)); ex = None
                try: v = V(l, p) if p is not None else V(l); m = None
                except Exception as e: ex = e; v = None; m = (type(e).__name__, str(e)); ex = None
                want = ('VoikkoException', 'Initialization of Voikko failed: ' + err) if err else None
                if m != want: E.fail('C: %s, Python: %s' % (want, m))
                elif not err:
                    for t in TEXTS: same(v, h, t, QUICK)
                if h: C.close(h)
                v = None
            gc.collect()
            if held() != a: E.fail('%d blocks more are held than before opening' % (held()[0] - a[0]))
    E.start('listing')
    for p in PATHS:
        if not E.take(): continue
        E.desc('path %r' % (PATHS.index(p),)); E.step(4); a = held()
        if p == 5:
            for f in (V.listDicts, V.listSupportedSpellingLanguages, V.listSupportedHyphenationLanguages, V.listSupportedGrammarCheckingLanguages):
                if outcome(lambda: f(p)) != 'other': E.fail('no exception')
            continue
        x = C.dicts(enc(p)); y = [(d.language, d.script, d.variant, d.description) for d in V.listDicts(p)]
        if x != y: E.fail('C lists %s, Python %s' % (x, y))
        if p in (D, UNI) and not [d for d in y if d[3] == 'p\u00f6yt\u00e4 \U0001f600']: E.fail('the dictionary with a description outside ASCII is not listed: %s' % y)
        for w, f in (('Spelling', V.listSupportedSpellingLanguages), ('Hyphenation', V.listSupportedHyphenationLanguages), ('GrammarChecking', V.listSupportedGrammarCheckingLanguages)):
            if C.languages(w, enc(p)) != f(p): E.fail('%s: C lists %s, Python %s' % (w, C.languages(w, enc(p)), f(p)))
        if p is None and (V.listDicts() != V.listDicts(None) or V.listSupportedSpellingLanguages() != V.listSupportedSpellingLanguages(None)): E.fail('the default path is not None')
        if held() != a: E.fail('%d blocks more are held than before listing' % (held()[0] - a[0]))
    if E.take():
        E.desc('version')
        if V.getVersion() != C.voikkoGetVersion().decode(): E.fail('version %s' % V.getVersion())
    E.start('order of Dictionary objects')
    X = ['', 'a', 'b'] if E.thorough else ['a', 'b']
    F = [M.Dictionary(*f) for f in itertools.product(X, repeat=4)]
    K = lambda d: (d.language, d.script, d.variant, d.description)
    for a in F:
        for b in F:
            if not E.take(): continue
            E.desc('%r %r' % (a, b)); E.step(); b2 = M.Dictionary(*K(b))
            if (a == b2) != (K(a) == K(b)) or (a != b2) == (a == b2): E.fail('equality')
            if a == b2 and hash(a) != hash(b2): E.fail('equal, but hashes differ')
            if (a < b2) + (b2 < a) + (a == b2) != 1: E.fail('not exactly one of <, >, ==')
            if any(a < b and b < c and not a < c for c in F): E.fail('order is not transitive')
            if repr(a) != '<%s>' % ','.join(K(a)): E.fail('repr %r' % a)
            if a == K(a) or a == None: E.fail('equal to another type')
    E.start('closed instance')
    REST = {'setBooleanOption': lambda v: v.setBooleanOption(0, True), 'setIntegerOption': lambda v: v.setIntegerOption(9, 3)}
    for n in BOOL: REST[n] = lambda v, n=n: getattr(v, n)(True)
    for n, x in (('setMinHyphenatedWordLength', 3), ('setSpellerCacheSize', 1), ('setSuggestionStrategy', 1)): REST[n] = lambda v, n=n, x=x: getattr(v, n)(x)
    for n, f in CALLS.items():
        for t in ('kissa', 'Kissa syö .', 'STRUCTURE', '\U0001f600'): REST['%s %s' % (n, ascii(t))] = lambda v, f=f, t=t: f(v, t)
    for n, f in REST.items():
        for again in (0, 1):
            if not E.take(): continue
            E.desc('%s after terminate' % n); E.step(); a = held(); v = V('fi-x-a', D); o = V('fi-x-a', D); v.spell('kissa'); v.terminate()
            if again: v.terminate()
            if outcome(lambda: f(v)) != 'VoikkoException': E.fail('expected VoikkoException: %s' % outcome(lambda: f(v)))
            v.terminate()
            if o.spell('kissa') is not True or o.spell('kssia') is not False: E.fail('another instance no longer answers')
            v = o = None; gc.collect()
            if held() != a: E.fail('%d blocks more are held' % (held()[0] - a[0]))

    # ---- histories over several instances
    hi = 6 if E.thorough else 4
    OPS = ['open fi', 'open xx', 'open bad', 'terminate', 'delete', 'ask', 'option', 'other']
    E.start('every sequence of at most %d operations over two instances' % hi)
    for n in range(1, hi + 1):
        for seq in itertools.product(range(len(OPS)), repeat=n):
            if not E.take(): continue
            E.desc(' '.join(OPS[o] for o in seq)); a = held(); slot = [None, None]; cur = 0   # [instance, C handle or None when closed]
            for o in seq:
                E.step(); s = slot[cur]
                if o in (0, 1):
                    l = ('fi-x-a', 'xx')[o]
                    if s and s[1]: C.close(s[1])
                    slot[cur] = s = None; slot[cur] = [V(l, D), C.open(l.encode(), DB)[0]]
                elif o == 2:
                    if outcome(lambda: V('xq', D)) != 'VoikkoException': E.fail('opening an unknown language')
                elif s is None and o < 7: continue
                elif o == 3:
                    s[0].terminate()
                    if s[1]: C.close(s[1]); s[1] = None
                elif o == 4:
                    if s[1]: C.close(s[1])
                    slot[cur] = s = None
                elif o in (5, 6) and not s[1]:
                    if outcome(lambda: s[0].spell('kissa') if o == 5 else s[0].setIgnoreDot(True)) != 'VoikkoException': E.fail('closed instance answers')
                elif o == 5:
                    for t in ('kissa', 'ab.', 'Kissa syö'): same(s[0], s[1], t, QUICK)
                elif o == 6: s[0].setIgnoreDot(True); C.voikkoSetBooleanOption(s[1], 0, 1); s[0].setMinHyphenatedWordLength(4); C.voikkoSetIntegerOption(s[1], 9, 4)
                else: cur = 1 - cur
            for s in slot:
                if s and s[1]: C.close(s[1])
            slot = s = None
            if held() != a: E.fail('%d blocks more are held than before' % (held()[0] - a[0]))
try: main()
except Exception as e:
    import traceback
    if not E.inCase: traceback.print_exc(); os._exit(3)
    E.fail('unexpected %s: %s' % (type(e).__name__, traceback.format_exc()[-600:]))
os._exit(E.finish())
