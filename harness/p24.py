"""P24: the methods of the JavaScript binding, run by Node on a guarded 32-bit memory and the built library, against the C interface called with prototypes of our own."""
import ctypes, itertools, os, re, signal, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.dont_write_bytecode = True
import cref, mc
E = mc.Explorer(sys.argv)
C = cref.Lib(E.opt['lib'] + '/libvoikko.so.1')
D = E.out + '/dicts.%d' % E.shard
UNI = E.out + '/p\u00f6ll\u00f6 \U0001f600.%d' % E.shard
for d in (D, UNI):
    os.makedirs(d, exist_ok=True); subprocess.run([E.opt['mkdicts'], d], check=True)
DB = D.encode()
libc = ctypes.CDLL(None)

class Ended(Exception): pass
class Node:
    p = None
    def start(self):
        env = dict(os.environ, LC_ALL='C.UTF-8', HOME=E.out + '/home')
        self.p = subprocess.Popen(['node', '--max-old-space-size=400', os.path.dirname(os.path.abspath(__file__)) + '/js/server.js', E.opt['addon'], E.opt['api']], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=open('%s/node.%d.err' % (E.out, E.shard), 'ab'), env=env, preexec_fn=lambda: libc.prctl(1, signal.SIGKILL))
        self.handles = 0
    def raw(self, *a):
        if not self.p: self.start()
        try:
            self.p.stdin.write(('\t'.join(a) + '\n').encode()); self.p.stdin.flush()
            r = self.p.stdout.readline()
        except OSError: r = b''
        if not r.endswith(b'\n'):
            st = self.p.wait(); self.p = None
            raise Ended('the Node process ended with status %d' % st)
        return r.decode()[:-1].split('\t')
    def ask(self, *a):
        """the answer; every block must have been released, and nothing touched outside the blocks"""
        r = self.raw(*a); memory(r[-1], a); return r[:-1]
def memory(m, a):
    live, handles, faults = m.split(':', 2)
    if live != '0': E.fail('%s: %s blocks of memory are not released' % (readable(' '.join(a)), live))
    if faults: E.fail('%s: %s' % (readable(' '.join(a)), faults))
    return int(handles)
def s(t): return 'n' if t is None else 's' + ''.join('%02x%02x' % (b, a) for a, b in zip(*[iter(t.encode('utf-16-le', 'surrogatepass'))] * 2))
def enc(x):
    if x is None: return 'n'
    if x is True or x is False: return 'ft'[x]
    if isinstance(x, int): return str(x)
    if isinstance(x, str): return s(x)
    if isinstance(x, dict): return '{' + ','.join(sorted('%s:%s' % (s(k), enc(v)) for k, v in x.items())) + '}'
    return '[' + ','.join(map(enc, x)) + ']'
def readable(r): return re.sub('s((?:[0-9a-f]{4})+)', lambda m: ascii(bytes.fromhex(m[1]).decode('utf-16-be', 'backslashreplace')), r)[:600]
def u16(t): return len(t) + sum(c > '\uffff' for c in t)

# ---- what each method has to give
TN = ['NONE', 'WORD', 'PUNCTUATION', 'WHITESPACE', 'UNKNOWN']; SN = ['NONE', 'NO_START', 'PROBABLE', 'POSSIBLE']
def tokens(h, t):
    r = []
    for i, part in enumerate(t.split('\0')):
        if i: r.append({'type': 'UNKNOWN', 'text': '\0'})
        r += [{'type': TN[k], 'text': x} for x, k in C.tokens(h, part)]
    return r
def grammar(lang):
    def g(h, t):
        if '\0' in t: return []
        r, off = [], 0
        for p in t.replace('\r', '\n').split('\n'):
            for c, st, n, d, sg in C.paragraph(h, p, lang): r.append({'errorCode': c, 'startPos': off + u16(p[:st]), 'errorLen': u16(p[st:st + n]), 'suggestions': sg, 'shortDescription': d})
            off += u16(p) + 1
        return r
    return g
NUL = lambda f, e: lambda h, t: e(t) if '\0' in t else f(h, t)
def insert(sep, ctx): return NUL(lambda h, t: (lambda r: t if r is None else r)(C.insert(h, t, sep, ctx)), lambda t: t)
METHODS = {'spell': NUL(lambda h, t: C.spell(h, t) == 1, lambda t: False), 'suggest': NUL(C.suggest, lambda t: []), 'analyze': NUL(C.analyze, lambda t: []), 'getHyphenationPattern': NUL(C.pattern, lambda t: ' ' * u16(t)),
    'hyphenate': insert('-', 1), 'hyphenate shy': insert('\u00ad', 1), 'hyphenate long': insert('<\U0001f600>', 0), 'hyphenate empty': insert('', 0), 'hyphenate NUL': lambda h, t: t, 'hyphenate separator': insert('+', 1), 'hyphenate default': insert('-', 0),
    'tokens': tokens, 'sentences': NUL(lambda h, t: [{'text': a, 'nextStartType': SN[k]} for a, k in C.sentences(h, t)], lambda t: [{'text': t, 'nextStartType': 'NONE'}]), 'attributeValues': NUL(lambda h, t: C.values(h, t.encode()), lambda t: None),
    'grammarErrors fi': grammar(b'fi'), 'grammarErrors en': grammar(b'en'), 'grammarErrors empty': grammar(b''), 'grammarErrors none': grammar(b'')}
NAMES = list(METHODS)
QUICK = ['spell', 'suggest', 'analyze', 'getHyphenationPattern', 'hyphenate', 'tokens', 'sentences', 'grammarErrors en']
TEXTS = ['kissa', 'Kissa', 'KISSA', 'kisaa', 'kissa.', 'autotie', 'linja-auto', 'linjaauto', '-kissa', 'kissa1', 'XQ', 'xq', 'kis-sa', 'a@b.fi', 'kkissa', 'klssa', 'talo', 'aa', 'abba',
         'Kissa syö.', 'kissa syö.', 'Kissa  syö', 'Kissa', 'Kissa syö', 'Kissa on kissa, ja ja koira', 'Kissa rupeaa syödä.', 'ei ei', '\u20ac kissa.', 'joten kuten', 'Kissa joten kuten koira.\nkissa', 'Kissa syö .\nKissa joten kuten\n\nKoira syö ( koira.', 'tuuttuun', 'oiaoiu', '5 kissaa', 'kissa, koira. talo', 'Koira (kissa', 'koirakissa', 'kiss-a', 'STRUCTURE', 'SIJAMUOTO', 'CLASS', 'kissa\u0301', '- kissa', '- Kissa', 'klsssa', 'Kodo', 'bab', 'aiai', 'autootie', 'rap', 'linja-autotie-', 'maalla', 'maalla-',
         '\U0001f600 Kissa syö .\r\n\U0001f600\U0001f600 joten kuten', 'Kissa \U0001f600. Koira.', 'STRUCTURE', 'SIJAMUOTO', 'constructor', '__proto__', 'toString']
J = Node()
def same(name, h, t, methods=NAMES):
    """every method for one text"""
    r = J.ask('all', name, s(t)) if methods is NAMES else J.ask('some', name, s(t), ','.join(methods))
    for i, m in enumerate(methods):
        E.step(); y = r[2 * i]; memory(r[2 * i + 1], (m, s(t)))
        x = enc(METHODS[m](h, t))
        if m == 'getHyphenationPattern' and u16(t) != len(t) and y.replace('0020', '') == 's' and x.replace('0020', '') == 's': continue
        if m == 'getHyphenationPattern' and len(t) > 255 and y.replace('0020', '') == 's': continue   # the byte-string functions refuse long words
        if x != y: E.fail('%s(%s): C gives %s, JavaScript gives %s' % (m, ascii(t)[:300], readable(x), readable(y)))
        else: E.state(m + x)
class Pair:
    def __init__(self, lang): self.lang = lang; self._h = None; self.p = None
    @property
    def h(self):
        if not self._h:
            self._h, e = C.open(self.lang.encode(), DB)
            if e: sys.stderr.write(e + '\n'); os._exit(3)
        return self._h
    def same(self, t):
        if not J.p: J.start()
        if self.p is not J.p:
            self.p = J.p
            if J.ask('open', 'pair', s(self.lang), s(D))[0] != enc('ok'): E.fail('cannot open %s' % self.lang)
        same('pair', self.h, t)
    def close(self):
        if self._h: C.close(self._h)
        if self.p and self.p is J.p: J.ask('close', 'pair')
def guarded(f):
    try: f()
    except Ended as e: E.fail(str(e))

def main():
    A = ['k', 'i', 's', 'a', '.', '-', ' ', 'ä', 'A', '\n', '\0', '\U0001f600', ',', "'", '\u00ad', '\r']
    for lang, hi in (('fi-x-a', 5 if E.thorough else 4), ('xx', 4 if E.thorough else 3), ('yy', 3 if E.thorough else 2)):
        E.start('%s: every text of at most %d of %d characters x every method' % (lang, hi, len(A)))
        P = Pair(lang)
        for t in mc.strings(A, 0, hi):
            if E.take(): E.desc('%s text %s' % (lang, ascii(t))); guarded(lambda: P.same(t))
        P.close()
    W = ['kissa', 'koira', 'syö', 'Kissa', 'joten', 'kuten', ' ', '  ', '.', ',', '\n', '\r', '\0', '\U0001f600', '-', '\u20ac', '"']
    hi = 5 if E.thorough else 4
    E.start('every text of at most %d of %d words and marks x every method' % (hi, len(W)))
    P = Pair('fi-x-a')
    for t in mc.strings(W, 1, hi):
        if E.take(): E.desc('text %s' % ascii(t)); guarded(lambda: P.same(t))
    for t in TEXTS:
        if E.take(): E.desc('text %s' % ascii(t)); guarded(lambda: P.same(t))
    P.close()
    E.start('every character')
    P = Pair('fi-x-a')
    for c in itertools.chain(range(1, 0xD800), range(0xE000, 0xFFFE), range(0x10000, 0x110000, 4093)):
        if c > 0x3000 and not E.thorough and c % 31 and c < 0xFE00: continue
        if E.take(): E.desc('U+%04X' % c); guarded(lambda: P.same('ki%s\U0001f600 a%s' % (chr(c), chr(c))))
    P.close()
    E.start('lengths')
    P = Pair('fi-x-a')
    for unit in ('a', 'ä', '\U0001f600', 'kissa ', 'aa. ', '\U0001f600 kissa ', 'a\U0001f600. B'):
        for n in list(range(20, 60)) + list(range(245, 265)) + [500, 1000, 4095, 4096]:
            if E.take(): E.desc('%s x %d' % (ascii(unit), n)); guarded(lambda: P.same((unit * n)[:n]))
    P.close()

    BOOL = {'setIgnoreDot': 0, 'setIgnoreNumbers': 1, 'setIgnoreUppercase': 3, 'setNoUglyHyphenation': 4, 'setAcceptFirstUppercase': 6, 'setAcceptAllUppercase': 7, 'setIgnoreNonwords': 10, 'setAcceptExtraHyphens': 11,
            'setAcceptMissingHyphens': 12, 'setAcceptTitlesInGc': 13, 'setAcceptUnfinishedParagraphsInGc': 14, 'setHyphenateUnknownWords': 15, 'setAcceptBulletedListsInGc': 16}
    SET = [(n, x, (lambda h, o=o, x=x: C.voikkoSetBooleanOption(h, o, x))) for n, o in list(BOOL.items()) + [('setSuggestionStrategy', 8)] for x in (1, 0)]
    for x in (0, 2, 5, 100): SET.append(('setMinHyphenatedWordLength', x, lambda h, x=x: C.voikkoSetIntegerOption(h, 9, x)))
    BAD = ('setSuggestionStrategy', 2, lambda h: 0)
    def fingerprint(f):
        h, e = C.open(b'fi-x-a', DB)
        if f: f(h)
        r = [METHODS[n](h, t) for n in QUICK for t in TEXTS]
        C.close(h)
        return repr(r)
    base = fingerprint(None); seen = {}
    for n, x, c in SET:
        f = fingerprint(c)
        if f != base: seen.setdefault(n, set()).add(f)
    missing = [n for n in {n for n, x, c in SET} if n not in seen]
    all_f = [f for q in seen.values() for f in q]
    if missing or len(set(all_f)) != len(all_f): sys.stderr.write('texts do not tell options apart: %s\n' % missing); sys.stderr.flush(); os._exit(3)
    def settings(seq, texts):
        J.ask('open', 'v', s('fi-x-a'), s(D)); h, e = C.open(b'fi-x-a', DB)
        for n, x, c in seq:
            E.step(); r = c(h)
            y = J.ask('set', 'v', n, str(x))
            if (y[0] == enc('ok')) != bool(r): E.fail('%s(%d): C returns %d, JavaScript %s' % (n, x, r, readable(y[0])))
        for t in texts: same('v', h, t, QUICK)
        C.close(h)
        if J.ask('close', 'v')[0] != enc('ok'): E.fail('closing failed')
    E.start('every setter and value, all texts')
    for q in SET + [BAD]:
        if E.take(): E.desc('%s(%d)' % q[:2]); guarded(lambda: settings([q], TEXTS))
    E.start('every two setters and values')
    for q in itertools.product(SET + [BAD], repeat=2):
        if E.take(): E.desc('%s(%d) %s(%d)' % (q[0][:2] + q[1][:2])); guarded(lambda: settings(q, TEXTS if E.thorough else TEXTS[::2]))

    E.start('opening')
    LANGS = ['', 'xq', 'zz', 'fi-x-olematon', 'fi-x-a', 'fi', 'xx', 'yy', 'yy-Latn', 'FI-x-a', 'ä', '\U0001f600']
    PATHS = [D, UNI, '', None, '/olematon', E.out]
    def opening(l, p):
        E.step(); r = J.raw('message', s(l), s(p)); n = memory(r[-1], ('opening',))
        h, err = C.open(l.encode(), None if p is None else p.encode())
        if r[0] != enc(err): E.fail('C: %s, JavaScript: %s' % (err, readable(r[0])))
        if n: E.fail('%d handles are left open' % n)
        if h:
            J.ask('open', 'v', s(l), s(p))
            for t in TEXTS: same('v', h, t, QUICK)
            J.ask('close', 'v')
            if p is None:
                J.ask('open', 'v', s(l)); same('v', h, 'kissa'); J.ask('close', 'v')
            C.close(h)
    for l in LANGS:
        for p in PATHS:
            if E.take(): E.desc('init(%r, %r)' % (l, 'dir%d' % PATHS.index(p))); guarded(lambda: opening(l, p))
    E.start('a closed instance')
    def closed(how):
        J.ask('open', 'v', s('fi-x-a'), s(D)); J.ask('open', 'o', s('fi-x-a'), s(D))
        for i in range(how + 1):
            if J.ask('close', 'v')[0] != enc('ok'): E.fail('closing failed')
        for t in ('kissa', '', 'Kissa syö .', 'STRUCTURE', '\U0001f600', '\0'):
            E.step(len(NAMES)); r = J.ask('all', 'v', s(t))
            for m, y, q in zip(NAMES, r[::2], r[1::2]):
                memory(q, (m, s(t)))
                if y[0] != 'X': E.fail('%s(%s) of a closed instance gives %s' % (m, ascii(t), readable(y)))
        for n, x, c in SET:
            E.step(); y = J.ask('set', 'v', n, str(x))[0]
            if y[0] != 'X': E.fail('%s of a closed instance gives %s' % (n, readable(y)))
        h, e = C.open(b'fi-x-a', DB)
        for t in TEXTS[:12]: same('o', h, t)
        C.close(h)
        r = J.raw('close', 'o')
        if memory(r[-1], ('close',)): E.fail('a handle is still open')
    for how in (0, 1, 2):
        if E.take(): E.desc(str(how)); guarded(lambda: closed(how))

    # ---- histories over two instances
    hi = 6 if E.thorough else 5
    OPS = ['open fi', 'open xx', 'open bad', 'terminate', 'ask', 'option', 'other']
    E.start('every sequence of at most %d operations over two instances' % hi)
    def history(seq):
        slot = [None, None]; cur = 0   # [C handle or None when closed]
        for o in seq:
            E.step(); q = slot[cur]; name = 'h%d' % cur
            if o in (0, 1):
                l = ('fi-x-a', 'xx')[o]
                if q and q[0]: C.close(q[0]); J.ask('close', name)
                slot[cur] = [C.open(l.encode(), DB)[0]]
                if J.ask('open', name, s(l), s(D))[0] != enc('ok'): E.fail('cannot open')
            elif o == 2:
                if J.ask('open', 'bad', s('xq'), s(D))[0] != 'XString': E.fail('opening an unknown language')
            elif q is None and o < 6: continue
            elif o == 3:
                if J.ask('close', name)[0] != enc('ok'): E.fail('closing failed')
                if q[0]: C.close(q[0]); q[0] = None
            elif o == 4 and not q[0]:
                r = J.ask('all', name, s('kissa'))
                if any(y[0] != 'X' for y in r[::2]): E.fail('closed instance answers')
            elif o == 4:
                for t in ('kissa', 'ab.', 'Kissa syö'): same(name, q[0], t, QUICK)
            elif o == 5:
                for k, x, c in (SET[0], SET[-2]):
                    y = J.ask('set', name, k, str(x))[0]
                    if (y == enc('ok')) != bool(q[0]): E.fail('%s: %s' % (k, readable(y)))
                    if q[0]: c(q[0])
            else: cur = 1 - cur
        left = 0
        for i, q in enumerate(slot):
            if q and q[0]: C.close(q[0]); r = J.raw('close', 'h%d' % i); left = memory(r[-1], ('close',))
        if left: E.fail('%d handles are left open' % left)
    for n in range(1, hi + 1):
        for seq in itertools.product(range(len(OPS)), repeat=n):
            if E.take(): E.desc(' '.join(OPS[o] for o in seq)); guarded(lambda: history(seq))
    E.inCase = False
    if J.p: J.p.kill(); J.p.wait()
try: main()
except Exception as e:
    import traceback
    if not E.inCase: traceback.print_exc(); os._exit(3)
    E.fail('unexpected %s: %s' % (type(e).__name__, traceback.format_exc()[-600:]))
os._exit(E.finish())
