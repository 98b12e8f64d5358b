"""P21: the methods of the Java binding, called in a JVM of its own, against the C interface called with prototypes of our own."""
import ctypes, itertools, os, re, signal, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.dont_write_bytecode = True
import cref, mc
E = mc.Explorer(sys.argv)
shim = ctypes.CDLL(None); shim.newcount_blocks.restype = shim.newcount_bytes.restype = ctypes.c_long
C = cref.Lib(E.opt['lib'] + '/libvoikko.so.1')
D = E.out + '/dicts.%d' % E.shard
UNI = E.out + '/p\u00f6ll\u00f6 \U0001f600.%d' % E.shard
for d in (D, UNI):
    os.makedirs(d, exist_ok=True); subprocess.run([E.opt['mkdicts'], d], check=True)
DB = D.encode()
def held(): return shim.newcount_blocks(), shim.newcount_bytes()
libc = ctypes.CDLL(None)

class Ended(Exception): pass
class Java:
    def __init__(self, gate=None): self.gate = gate; self.p = None
    def start(self):
        env = dict(os.environ, LC_ALL='C.UTF-8', HOME=E.out + '/home')
        self.p = subprocess.Popen(['java', '-Xmx300m', '-XX:+UseSerialGC', '-XX:TieredStopAtLevel=1', '-XX:-CreateCoredumpOnCrash', '-XX:ErrorFile=%s/hs_err.%d' % (E.out, E.shard), '-Dfile.encoding=UTF-8', '-Djna.nosys=false', '-cp', E.opt['classes'] + ':/usr/share/java/jna.jar', 'Server', self.gate[0] if self.gate else E.opt['lib']] + ([self.gate[1]] if self.gate else []),
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=open('%s/java.%d.err' % (E.out, E.shard), 'ab'), env=env, preexec_fn=lambda: libc.prctl(1, signal.SIGKILL))
        self.names = []
    def ask(self, *a):
        if not self.p: self.start()
        try:
            self.p.stdin.write(('\t'.join(a) + '\n').encode()); self.p.stdin.flush()
            r = self.p.stdout.readline()
        except OSError: r = b''
        if not r.endswith(b'\n'):
            s = self.p.wait(); self.p = None
            raise Ended('the Java process ended with status %d' % s)
        return r.decode()[:-1].split('\t')
def s(t): return 'n' if t is None else 's' + ''.join('%02x%02x' % (b, a) for a, b in zip(*[iter(t.encode('utf-16-le', 'surrogatepass'))] * 2))
def enc(x):
    if x is None: return 'n'
    if x is True or x is False: return 'ft'[x]
    if isinstance(x, int): return str(x)
    if isinstance(x, str): return s(x)
    if isinstance(x, dict): return '{' + ','.join('%s:%s' % p for p in sorted((s(k), s(v)) for k, v in x.items())) + '}'
    return '[' + ','.join(map(enc, x)) + ']'
def readable(r): return re.sub('s((?:[0-9a-f]{4})+)', lambda m: ascii(bytes.fromhex(m[1]).decode('utf-16-be', 'backslashreplace')), r)[:600]
def norm(t): return t.encode('utf-16-le', 'surrogatepass').decode('utf-16-le', 'surrogatepass')
def u16(t): return len(t) + sum(c > '\uffff' for c in t)

# ---- what each method has to give
def tokens(h, t):
    b = t.encode('utf-16-le', 'surrogatepass'); r, part, at = [], '', 0
    NAMES = ['NONE', 'WORD', 'PUNCTUATION', 'WHITESPACE', 'UNKNOWN']
    def flush():
        nonlocal part
        p = at - len(part)
        for x, k in C.tokens(h, part): r.append((x, k, NAMES[k], p, p + len(x))); p += len(x)
        part = ''
    for i in range(0, len(b), 2):
        c = chr(b[i] + 256 * b[i + 1])
        if c == '\0' or '\ud800' <= c <= '\udfff': flush(); r.append((c, 4, 'UNKNOWN', at, at + 1))
        else: part += c
        at += 1
    flush()
    return r
def grammar(lang):
    def g(h, t):
        if '\0' in t: return []
        r, off = [], 0
        for p in t.replace('\r', '\n').split('\n'):
            for c, st, n, d, sg in C.paragraph(h, p, lang):
                x = off + u16(p[:st]); l = u16(p[st:st + n])
                r.append((c, x, l, d, sg, '[code=%d, level=0, descr="", stpos=%d, len=%d, suggs={%s}]' % (c, x, l, ','.join('"%s"' % q for q in sg))))
            off += u16(p) + 1
        return r
    return g
NUL = lambda f, e: lambda h, t: e(t) if '\0' in t else f(h, t)
def insert(sep, ctx): return NUL(lambda h, t: (lambda r: t if r is None else r)(C.insert(h, t, sep, ctx)), lambda t: t)
SN = ['NONE', 'NO_START', 'PROBABLE', 'POSSIBLE']
METHODS = {'spell': NUL(lambda h, t: C.spell(h, t) == 1, lambda t: False), 'suggest': NUL(C.suggest, lambda t: []), 'analyze': NUL(C.analyze, lambda t: []),
    'getHyphenationPattern': NUL(C.pattern, lambda t: ' ' * u16(t)), 'hyphenate': insert('-', 1), 'hyphenate shy': insert('\u00ad', 1), 'hyphenate long': insert('<\U0001f600>', 0), 'hyphenate empty': insert('', 0), 'hyphenate NUL': lambda h, t: t,
    'tokens': tokens, 'sentences': NUL(lambda h, t: [(a, SN[k]) for a, k in C.sentences(h, t)], lambda t: [(t, 'NONE')]), 'attributeValues': NUL(lambda h, t: C.values(h, t.encode()), lambda t: None),
    'grammarErrors fi': grammar(b'fi'), 'grammarErrors en': grammar(b'en'), 'grammarErrors empty': grammar(b'')}
NAMES = list(METHODS)
QUICK = ['spell', 'suggest', 'analyze', 'getHyphenationPattern', 'hyphenate', 'tokens', 'sentences', 'grammarErrors en']
TEXTS = ['kissa', 'Kissa', 'KISSA', 'kisaa', 'kissa.', 'autotie', 'linja-auto', 'linjaauto', '-kissa', 'kissa1', 'XQ', 'xq', 'kis-sa', 'a@b.fi', 'kkissa', 'klssa', 'talo', 'aa', 'abba',
         'Kissa syö.', 'kissa syö.', 'Kissa  syö', 'Kissa', 'Kissa syö', 'Kissa on kissa, ja ja koira', 'Kissa rupeaa syödä.', 'ei ei', '\u20ac kissa.', 'joten kuten', 'Kissa joten kuten koira.\nkissa', 'Kissa syö .\nKissa joten kuten\n\nKoira syö ( koira.', 'tuuttuun', 'oiaoiu', '5 kissaa', 'kissa, koira. talo', 'Koira (kissa', 'koirakissa', 'kiss-a', 'STRUCTURE', 'SIJAMUOTO', 'CLASS', 'kissa\u0301', '- kissa', '- Kissa', 'klsssa', 'Kodo', 'bab', 'aiai', 'autootie', 'rap', 'linja-autotie-', 'maalla', 'maalla-',
         '\U0001f600 Kissa syö .\r\n\U0001f600\U0001f600 joten kuten', 'Kissa \U0001f600. Koira.']
J = Java()
def same(name, h, t, methods=NAMES, storage=True):
    """every method for one text; the binding must hold as much after the call as the C caller does"""
    t = norm(t); bad = any('\ud800' <= c <= '\udfff' for c in t)
    r = J.ask('all', name, s(t)) if methods is NAMES else J.ask('some', name, s(t), ','.join(methods))
    for i, m in enumerate(methods):
        E.step(); y, blocks, nbytes = r[3 * i], int(r[3 * i + 1]), int(r[3 * i + 2])
        if bad and m not in ('tokens', 'hyphenate NUL'):
            if y[0] == 'X' and y != 'XVoikkoException': E.fail('%s(%s): %s' % (m, ascii(t)[:300], y))
            continue   # no UTF-8 form exists
        a = held(); x = METHODS[m](h, t); b = held(); x = enc(x)
        if m == 'getHyphenationPattern' and u16(t) != len(t) and y.replace('0020', '') == 's' and x.replace('0020', '') == 's': continue
        if m == 'getHyphenationPattern' and len(t) > 255 and y == enc(' ' * u16(t)): continue   # the byte-string functions refuse long words
        if x != y: E.fail('%s(%s): C gives %s, Java gives %s' % (m, ascii(t)[:300], readable(x), readable(y)))
        elif storage and (blocks, nbytes) != (b[0] - a[0], b[1] - a[1]) and differs(name, t, m): E.fail('%s(%s): after the C call %d more blocks (%d bytes) are held, after the Java call %d (%d)' % (m, ascii(t)[:300], b[0] - a[0], b[1] - a[1], blocks, nbytes))
        else: E.state(m + x)
def differs(name, t, m):
    """the virtual machine now and then allocates for itself: only storage that grows every time counts"""
    for i in range(4):
        r = J.ask('some', name, s(t), m)
        if int(r[1]) == 0 and int(r[2]) == 0: return False
    return True
class Pair:
    def __init__(self, lang): self.lang = lang; self._h = None; self.p = None
    @property
    def h(self):
        if not self._h:
            self._h, e = C.open(self.lang.encode(), DB)
            if e: sys.stderr.write(e + '\n'); os._exit(3)
        return self._h
    def same(self, t):
        if not J.p: warm()
        if self.p is not J.p:
            self.p = J.p
            if J.ask('open', 'pair', s(self.lang), s(D))[0] != enc('ok'): E.fail('cannot open %s' % self.lang)
        same('pair', self.h, t)
    def close(self):
        if self._h: C.close(self._h)
        if self.p and self.p is J.p: J.ask('close', 'pair')
def warm():
    for lang in ('fi-x-a', 'xx', 'yy'):
        if J.ask('open', 'w', s(lang), s(D))[0] == enc('ok'):
            for t in TEXTS: J.ask('all', 'w', s(t))
            J.ask('close', 'w')
    J.ask('finalize')
for lang in ('fi-x-a', 'xx', 'yy'):
    h, e = C.open(lang.encode(), DB); assert not e, lang
    for t in TEXTS:
        for n in NAMES: METHODS[n](h, t)
    C.close(h)

def guarded(f):
    try: f()
    except Ended as e: E.fail(str(e))

def main():
    A = ['k', 'i', 's', 'a', '.', '-', ' ', 'ä', 'A', '\n', '\0', '\U0001f600', '\ud83d', ',']
    for lang, hi in (('fi-x-a', 5 if E.thorough else 4), ('xx', 4 if E.thorough else 3), ('yy', 3 if E.thorough else 2)):
        E.start('%s: every text of at most %d of %d characters x every method' % (lang, hi, len(A)))
        P = Pair(lang)
        for t in mc.strings(A, 0, hi):
            if E.take(): E.desc('%s text %s' % (lang, ascii(t))); guarded(lambda: P.same(t))
        P.close()
    W = ['kissa', 'koira', 'syö', 'Kissa', 'joten', 'kuten', ' ', '  ', '.', ',', '\n', '\r', '\0', '\U0001f600', '\ude00', '-']
    hi = 5 if E.thorough else 4
    E.start('every text of at most %d of %d words and marks x every method' % (hi, len(W)))
    P = Pair('fi-x-a')
    for t in mc.strings(W, 1, hi):
        if E.take(): E.desc('text %s' % ascii(t)); guarded(lambda: P.same(t))
    P.close()
    E.start('lengths')
    P = Pair('fi-x-a')
    for unit in ('a', 'ä', '\U0001f600', 'kissa ', 'aa. '):
        for n in list(range(245, 265)) + [500, 1000, 4095, 4096]:
            if E.take(): E.desc('%s x %d' % (ascii(unit), n)); guarded(lambda: P.same((unit * n)[:n]))
    P.close()

    BOOL = {'setIgnoreDot': 0, 'setIgnoreNumbers': 1, 'setIgnoreUppercase': 3, 'setNoUglyHyphenation': 4, 'setAcceptFirstUppercase': 6, 'setAcceptAllUppercase': 7, 'setIgnoreNonwords': 10, 'setAcceptExtraHyphens': 11,
            'setAcceptMissingHyphens': 12, 'setAcceptTitlesInGc': 13, 'setAcceptUnfinishedParagraphsInGc': 14, 'setHyphenateUnknownWords': 15, 'setAcceptBulletedListsInGc': 16}
    SET = [(n, x, (lambda h, o=o, x=x: C.voikkoSetBooleanOption(h, o, x))) for n, o in list(BOOL.items()) + [('setSuggestionStrategy', 8)] for x in (1, 0)]
    for x in (0, 2, 5, 100): SET.append(('setMinHyphenatedWordLength', x, lambda h, x=x: C.voikkoSetIntegerOption(h, 9, x)))
    for x in (-1, 0, 1, 3): SET.append(('setSpellerCacheSize', x, lambda h, x=x: C.voikkoSetIntegerOption(h, 17, x)))
    def fingerprint(f):
        h, e = C.open(b'fi-x-a', DB); b = held()
        if f: f(h)
        d = held()[1] - b[1]
        r = [METHODS[n](h, t) for n in QUICK for t in TEXTS]
        C.close(h)
        return repr((d, r))
    base = fingerprint(None); seen = {}
    for n, x, c in SET:
        f = fingerprint(c)
        if f != base: seen.setdefault(n, set()).add(f)
    missing = [n for n in {n for n, x, c in SET} if n not in seen]
    all_f = [f for q in seen.values() for f in q]
    if missing or len(set(all_f)) != len(all_f): sys.stderr.write('texts do not tell options apart: %s\n' % missing); sys.stderr.flush(); os._exit(3)
    def settings(seq, texts):
        if not J.p: warm()
        J.ask('open', 'v', s('fi-x-a'), s(D)); h, e = C.open(b'fi-x-a', DB)
        for n, x, c in seq:
            E.step(); b = held(); r = c(h); d = held()
            y = J.ask('set', 'v', n, str(x))
            if (enc('ok') if r else 'XVoikkoException') != y[0]: E.fail('%s(%d): C returns %d, Java %s' % (n, x, r, readable(y[0])))
            if 'Cache' in n and (d[1] - b[1]) != int(y[1]): E.fail('%s(%d): storage changes by %d bytes through C, %s through Java' % (n, x, d[1] - b[1], y[1]))
        for t in texts: same('v', h, t, QUICK)
        C.close(h)
        if J.ask('close', 'v')[0] != enc('ok'): E.fail('closing failed')
    E.start('every setter and value, all texts')
    for q in SET:
        if E.take(): E.desc('%s(%d)' % q[:2]); guarded(lambda: settings([q], TEXTS))
    E.start('every two setters and values')
    for q in itertools.product(SET, repeat=2):
        if E.take(): E.desc('%s(%d) %s(%d)' % (q[0][:2] + q[1][:2])); guarded(lambda: settings(q, TEXTS if E.thorough else TEXTS[::4]))

    E.start('opening')
    LANGS = ['', None, 'xq', 'zz', 'fi-x-olematon', 'fi-x-a', 'fi', 'xx', 'yy', 'yy-Latn', 'FI-x-a', 'ä', '\U0001f600']
    PATHS = [D, UNI, '', None, '/olematon', E.out]
    def opening(l, p):
        if not J.p: warm()
        E.step(); m = J.ask('message', s(l), s(p))[0]
        if l is None: 
            if m[0] == 'X' and m != 'XNullPointerException': E.fail('unexpected %s' % m)
            return
        h, err = C.open(l.encode(), None if p is None else p.encode())
        if m != enc(err): E.fail('C: %s, Java: %s' % (err, readable(m)))
        if h:
            J.ask('open', 'v', s(l), s(p))
            for t in TEXTS: same('v', h, t, QUICK)
            C.close(h); J.ask('close', 'v')
            if p is None:
                J.ask('open', 'v', s(l)); same('v', C.open(l.encode(), None)[0], 'kissa'); J.ask('close', 'v')
        # nothing is kept
        for i in range(5):
            x = int(J.ask('open', 'v', s(l), s(p))[1]); y = int(J.ask('close', 'v')[1]) if not err else 0
            if x + y == 0: break
        else: E.fail('%d blocks are held after opening and closing' % (x + y))
        J.ask('drop', 'v')
    for l in LANGS:
        for p in PATHS:
            if E.take(): E.desc('Voikko(%r, %r)' % (l, 'dir%d' % PATHS.index(p))); guarded(lambda: opening(l, p))
    E.start('listing')
    def listing(p):
        if not J.p: warm()
        E.step(); want = enc(C.dicts(None if p is None else p.encode()))
        got = J.ask('dicts', s(p))[0]
        if got != want: E.fail('C lists %s, Java %s' % (readable(want), readable(got)))
        if p is None and J.ask('dicts')[0] != want: E.fail('the default path is not None')
        for i in range(5):
            x = J.ask('dicts', s(p))[1]
            if x == '0': break
        else: E.fail('%s blocks are held after listing' % x)
    for p in PATHS:
        if E.take(): E.desc('path %r' % (PATHS.index(p),)); guarded(lambda: listing(p))
    E.start('order of Dictionary objects')
    X = ['', 'a', 'b'] if E.thorough else ['a', 'b']
    def order(a, b):
        E.step(); r = J.ask('order', *map(s, a + b))
        want = [str((a > b) - (a < b)), enc(a == b), 't' if a == b else None, 'f', enc('<%s>' % ','.join(a))]
        if any(w is not None and w != g for w, g in zip(want, r)): E.fail('order, equality, equal hashes, equal to null, text: expected %s, got %s' % (want, r))
    for a in itertools.product(X, repeat=4):
        for b in itertools.product(X, repeat=4):
            if E.take(): E.desc('%r %r' % (a, b)); guarded(lambda: order(a, b))
    E.start('null arguments and a closed instance')
    def closed(how):
        if not J.p: warm()
        J.ask('open', 'v', s('fi-x-a'), s(D)); J.ask('open', 'o', s('fi-x-a'), s(D))
        if how == 'null': J.ask('all', 'v', 'n')
        else:
            for i in range(how + 1):
                if J.ask('close', 'v')[0] != enc('ok'): E.fail('closing failed')
            for t in ('kissa', '', 'Kissa syö .', 'STRUCTURE', '\U0001f600', '\0', '\ud800'):
                E.step(len(NAMES)); r = J.ask('all', 'v', s(t))
                for m, y in zip(NAMES, r[::3]):
                    if y != 'XVoikkoException': E.fail('%s(%s) of a closed instance gives %s' % (m, ascii(t), readable(y)))
            for n, x, c in SET:
                E.step(); y = J.ask('set', 'v', n, str(x))[0]
                if y != 'XVoikkoException': E.fail('%s of a closed instance gives %s' % (n, readable(y)))
        h, e = C.open(b'fi-x-a', DB)
        for t in TEXTS[:12]: same('o', h, t)
        C.close(h); J.ask('close', 'o')
        if how == 'null': J.ask('close', 'v')
    for how in ('null', 0, 1, 2):
        if E.take(): E.desc(str(how)); guarded(lambda: closed(how))
    E.start('an instance no longer used is closed')
    def forgotten(lang, again):
        if not J.p: warm()
        for i in range(5):
            E.step(); x = int(J.ask('open', 'v', s(lang), s(D))[1])
            if again: J.ask('close', 'v')
            J.ask('drop', 'v'); y = int(J.ask('finalize')[0])
            if x + (0 if again else y) == 0 or again: break
        else: E.fail('%d blocks more are held than before' % (x + y))
    for lang in ('fi-x-a', 'xx'):
        for again in (0, 1):
            if E.take(): E.desc('%s %d' % (lang, again)); guarded(lambda: forgotten(lang, again))

    # ---- histories over two instances
    hi = 5 if E.thorough else 4
    OPS = ['open fi', 'open xx', 'open bad', 'terminate', 'ask', 'option', 'other']
    E.start('every sequence of at most %d operations over two instances' % hi)
    def history(seq):
        if not J.p: warm()
        slot = [None, None]; cur = 0   # [C handle or None when closed]
        for o in seq:
            E.step(); q = slot[cur]; name = 'h%d' % cur
            if o in (0, 1):
                l = ('fi-x-a', 'xx')[o]
                if q and q[0]: C.close(q[0]); J.ask('close', name)
                slot[cur] = [C.open(l.encode(), DB)[0]]
                if J.ask('open', name, s(l), s(D))[0] != enc('ok'): E.fail('cannot open')
            elif o == 2:
                if J.ask('open', 'bad', s('xq'), s(D))[0] != 'XVoikkoException': E.fail('opening an unknown language')
            elif q is None and o < 6: continue
            elif o == 3:
                if J.ask('close', name)[0] != enc('ok'): E.fail('closing failed')
                if q[0]: C.close(q[0]); q[0] = None
            elif o == 4 and not q[0]:
                if any(y != 'XVoikkoException' for y in J.ask('all', name, s('kissa'))[:-1:3]): E.fail('closed instance answers')
            elif o == 4:
                for t in ('kissa', 'ab.', 'Kissa syö'): same(name, q[0], t, QUICK)
            elif o == 5:
                for n, x, c in (SET[0], SET[-6]):
                    y = J.ask('set', name, n, str(x))[0]
                    if y != (enc('ok') if q[0] else 'XVoikkoException'): E.fail('%s: %s' % (n, readable(y)))
                    if q[0]: c(q[0])
            else: cur = 1 - cur
        for i, q in enumerate(slot):
            if q and q[0]: C.close(q[0]); J.ask('close', 'h%d' % i)
    for n in range(1, hi + 1):
        for seq in itertools.product(range(len(OPS)), repeat=n):
            if E.take(): E.desc(' '.join(OPS[o] for o in seq)); guarded(lambda: history(seq))

    # ---- two threads
    if J.p: J.p.kill(); J.p.wait(); J.p = None
    G = Java((os.path.dirname(E.opt['gate']), E.opt['gate']))
    TT = ['Kissa syö .\nkissa joten kuten', 'kissa'] if not E.thorough else ['Kissa syö .\nkissa joten kuten', 'kissa', 'SIJAMUOTO', 'kisaa. Koira.']
    ops = [m for m in NAMES if m not in ('hyphenate NUL', 'hyphenate long', 'hyphenate empty', 'grammarErrors empty', 'grammarErrors fi')] + sorted({n for n, x, c in SET}) + ['terminate']
    def c_op(h, m, t):   # h is a list; h[0] None once closed
        if h[0] is None: return 'n' if m == 'terminate' else 'XVoikkoException'
        if m == 'terminate': C.close(h[0]); h[0] = None; return 'n'
        if m.startswith('set'): [c for n, x, c in SET if n == m and x == 1 or n == m and m == 'setMinHyphenatedWordLength' and x == 2][0](h[0]) if m != 'setMinHyphenatedWordLength' else C.voikkoSetIntegerOption(h[0], 9, 1); return enc('ok')
        return enc(METHODS[m](h[0], t))
    def expected(*seq):
        h = [C.open(b'fi-x-a', DB)[0]]; r = [c_op(h, m, t) for m, t in seq]
        if h[0]: C.close(h[0])
        return r
    def pair(m1, t1, m2, t2):
        k = 0; a, b = expected((m1, t1), (m2, t2)); d, c = expected((m2, t2), (m1, t1))
        while True:
            k += 1; E.step()
            if G.ask('open', 'v', s('fi-x-a'), s(D))[0] != enc('ok'): E.fail('cannot open'); return
            r = G.ask('together', 'v', m1, s(t1), str(k), m2, s(t2))[0]
            G.ask('close', 'v')
            if r == '[0,n,n,f]': break
            if r.endswith(',t]'): E.fail('%s enters the library while %s is inside its call number %d' % (m2, m1, k))
            elif r not in ('[1,%s,%s,f]' % (a, b), '[1,%s,%s,f]' % (c, d)): E.fail('%s stopped in call %d, meanwhile %s: %s, expected %s and %s or %s and %s' % (m1, k, m2, readable(r), readable(a), readable(b), readable(c), readable(d)))
            if k > 60: break
        if k == 1: E.fail('%s does not use the library' % m1)
    E.start('two threads: every pair of methods, the first one stopped inside each of its calls of the library')
    for m1 in ops:
        for m2 in ops:
            for t in TT:
                if m1.startswith('set') and m2.startswith('set') and t != TT[0]: continue
                if not E.take(): continue
                E.desc('%s | %s of %s' % (m1, m2, ascii(t))); guarded(lambda: pair(m1, t, m2, t))
    E.inCase = False
    if G.p: G.p.kill(); G.p.wait()
try: main()
except Exception as e:
    import traceback
    if not E.inCase: traceback.print_exc(); os._exit(3)
    E.fail('unexpected %s: %s' % (type(e).__name__, traceback.format_exc()[-600:]))
os._exit(E.finish())
