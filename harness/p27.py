"""P27: readability statistics, the grammar report and the readers of word and flag lists against the C interface and the text itself."""
import contextlib, gzip, io, itertools, os, re, subprocess, sys, types
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.dont_write_bytecode = True
import cref, mc
E = mc.Explorer(sys.argv)
R = E.opt['repo']
C = cref.Lib(E.opt['lib'] + '/libvoikko.so.1')
def load(name, path, register=None):
    m = types.ModuleType(name); m.__file__ = path
    if register: sys.modules[register] = m
    exec(compile(open(path, encoding='utf-8').read(), path, 'exec'), m.__dict__)
    return m
B = load('libvoikko', R + '/libvoikko/python/libvoikko.py', 'libvoikko')
B.Voikko.setLibrarySearchPath(E.opt['lib'])
D = E.out + '/dicts.%d' % E.shard
os.makedirs(D, exist_ok=True); subprocess.run([E.opt['mkdicts'], D, 'e'], check=True)
os.environ['VOIKKO_DICTIONARY_PATH'] = D
sys.path.insert(0, R + '/tools/pylib')
TOOLS = load('voikkoutils', R + '/tools/pylib/voikkoutils.py', 'voikkoutils')
FI = load('voikkoutils_fi', R + '/voikko-fi/common/voikkoutils.py')
STAT = load('voikkostatistics', R + '/tools/pylib/voikkostatistics.py', 'voikkostatistics')
LANG = 'fi-x-e'
prefs = types.ModuleType('voikko_dev_prefs'); prefs.language_variant = LANG; sys.modules['voikko_dev_prefs'] = prefs
GCPATH = R + '/tools/bin/voikko-gc-pretty'
GC = compile(open(GCPATH, encoding='utf-8').read(), GCPATH, 'exec')

# ---- readability
def syllables(h, w): return sum(c in '-=' for c in C.pattern(h, w)) + 1
def statistics(h, t):
    words = [w for w, k in C.tokens(h, t) if k == 1]
    hist = {}
    for w in words:
        n = next((syllables(h, a['BASEFORM']) for a in C.analyze(h, w) if 'BASEFORM' in a), 0)
        hist[n] = hist.get(n, 0) + 1
    S = sum(k in (0, 2) for _, k in C.sentences(h, t)); W = len(words); Y = sum(syllables(h, w) for w in words); K = W - hist.get(0, 0)
    r = {'SENTENCES': S, 'WORDS': W, 'KNOWN_WORDS': K, 'BASEFORM_SYLLABLES_HISTOGRAM': hist, 'SYLLABLES': Y, 'LETTERS': sum(map(len, words)), 'PUNCTUATION': sum(k == 2 for _, k in C.tokens(h, t))}
    ok = S and K
    r['FLESCH_READING_EASE'] = 206.835 - 1.015 * W / S - 84.6 * Y / W if ok else 0
    r['FLESCH_KINCAID_GRADE_LEVEL'] = 0.39 * W / S + 11.8 * Y / W - 15.59 if ok else 0
    r['WIIO_SIMPLE'] = 2.7 + 0.3 * (100.0 * sum(v for k, v in hist.items() if k >= 4) / K) if ok else 0
    return r
def statCase(v, h, t):
    x = statistics(h, t)
    E.step(len(x))
    try: y = STAT.getStatistics(t, v)
    except Exception as e: return E.fail('statistics of %s: exception %s %s' % (ascii(t), type(e).__name__, e))
    for k in x:
        if k not in y: E.fail('statistics of %s: no %s' % (ascii(t), k))
        elif isinstance(x[k], float) or k[:4] in ('FLES', 'WIIO'):
            if not isinstance(y[k], (int, float)) or abs(x[k] - y[k]) > 1e-6: E.fail('statistics of %s: %s is %r, should be %r' % (ascii(t), k, y[k], x[k]))
        elif x[k] != y[k]: E.fail('statistics of %s: %s is %r, should be %r' % (ascii(t), k, y[k], x[k]))
    E.state('stat' + repr([x[k] for k in sorted(x)]))

# ---- grammar report
def paragraphs(text, empty):
    lines = [l.strip() for l in re.split('\r\n|\r|\n', text)]
    if not empty: return [l for l in lines if l]
    r, cur = [], []
    for l in lines + ['']:
        if l: cur.append(l)
        elif cur: r.append(' '.join(cur)); cur = []
    return r
def report(h, text, empty):
    r = []
    for p in paragraphs(text, empty):
        for c, s, n, d, g in C.paragraph(h, p, b'fi'):
            r += [p, 'E: %s (start=%d)' % (d, s), 'E: "%s"' % p[s:s + n]] + ['S:  "%s"' % x for x in g] + ['=' * 49]
    return r
def gcRun(text, args):
    out, err, code = io.StringIO(), io.StringIO(), 0
    keep = sys.stdin, sys.argv
    sys.stdin = io.TextIOWrapper(io.BytesIO(text.encode('utf-8')), encoding='utf-8'); sys.argv = [GCPATH] + args
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try: exec(GC, {'__name__': '__main__', '__file__': GCPATH})
            except SystemExit as e: code = e.code or 0
    finally: sys.stdin, sys.argv = keep
    return code, out.getvalue().split('\n'), err.getvalue()
def gcCase(h, text, empty):
    x = report(h, text, empty)
    E.step(1 + len(x))
    try: code, y, err = gcRun(text, ['--empty-line'] if empty else [])
    except Exception as e: return E.fail('report on %s: exception %s %s' % (ascii(text), type(e).__name__, e))
    if y and y[-1] == '': y.pop()
    if code: E.fail('report on %s: exit %r' % (ascii(text), code))
    if x != y: E.fail('report on %s%s: printed %s, should print %s' % (ascii(text), ' with --empty-line' if empty else '', ascii(y)[:600], ascii(x)[:600]))
    else: E.state('gc' + '\n'.join(x))

# ---- word lists
HEAD = '<wordlist xml:lang="fi">\n'
WORDS = ['<word id="w1">\n\t<forms>\n\t\t<form>kissa</form>\n\t</forms>\n</word>\n',
         '<word id="w2">\n</word>\n',
         '<word id="w3">\n<forms><form>s\u00e4\u00e4=tila \U0001f600</form></forms>\n<!-- a < b -->\n\n</word>\n',
         '<word id="w4">\n\t<word-flags>&lt;/word&gt; &amp;</word-flags>\n</word>\n',
         '\n<!-- -->\n<word id="w5">\n</word>\n']
PRE = ['<?xml version="1.0" encoding="UTF-8" ?>\n', '\n', '<!-- p\u00f6ll\u00f6 <wordlist> -->\n']
def norm(e): return e.toxml()
def words(ws):
    import xml.dom.minidom
    return [xml.dom.minidom.parseString(w.encode('utf-8')).documentElement.toxml() for w in ws]
def listRun(M, text, gz, progress=False):
    f = E.out + '/list.%d.xml' % E.shard + ('.gz' if gz else '')
    with (gzip.GzipFile(f, 'wb', compresslevel=1) if gz else open(f, 'wb')) as o: o.write(text.encode('utf-8'))
    got, out, err = [], io.StringIO(), io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        try: M.process_wordlist(f, lambda w: got.append(norm(w)), progress)
        except SystemExit as e: err.write('exit')
        except Exception as e: err.write('exception %s %s' % (type(e).__name__, e))
    return got, out.getvalue(), err.getvalue()
MODULES = (('tools/pylib', TOOLS), ('voikko-fi/common', FI))
def listCase(M, where, pre, ws, gz, progress):
    E.step(1 + len(ws))
    got, out, err = listRun(M, ''.join(pre) + HEAD + ''.join(ws) + '</wordlist>\n', gz, progress)
    if err: E.fail('%s: reading %d words: %s' % (where, len(ws), ascii(err)[:300]))
    if got != words(ws): E.fail('%s: words handed over: %s, in the list: %s' % (where, ascii(got)[:500], ascii(words(ws))[:500]))
    if out != ('\n' if progress else ''): E.fail('%s: printed %r' % (where, out))
    E.state('list' + repr(got))
def cutCase(M, where, pre, ws, gz, cut):
    """a list that ends early: said so, after the words that were complete"""
    lines = (''.join(pre) + HEAD + ''.join(ws) + '</wordlist>\n').splitlines(True)[:cut]
    whole, seen, cur = [], False, ''
    for l in lines:
        if not seen: seen = l == HEAD; continue
        cur += l
        if l == '</word>\n': whole.append(cur); cur = ''
    E.step(1 + len(ws))
    got, out, err = listRun(M, ''.join(lines), gz)
    if not err: E.fail('%s: a list cut after %d lines was taken for a whole one' % (where, cut))
    if got != words(whole): E.fail('%s: a list cut after %d lines: words handed over: %s, whole words in it: %s' % (where, cut, ascii(got)[:500], ascii(words(whole))[:500]))
    E.state('cut' + repr(got))

# ---- flag lists
FLAGS = [('32      inflection/ei_vertm                      ei_vertm        Ei taivu vertailumuodoissa', (32, 'inflection', 'ei_vertm', 'ei_vertm', 'Ei taivu vertailumuodoissa')),
         ('7 compounding/ei_ys ei_ys Ei', (7, 'compounding', 'ei_ys', 'ei_ys', 'Ei')),
         ('20      inflection/sis\u00e4paikka -   Paikannimi: taipuu', (20, 'inflection', 'sis\u00e4paikka', None, 'Paikannimi: taipuu')),
         ('5  application/not_voikko -  Ei kuulu # huomautus', (5, 'application', 'not_voikko', None, 'Ei kuulu')),
         ('27      derivation/ei_lainen                     ei_lAinen       Ei  lAinen-johdosta', (27, 'derivation', 'ei_lainen', 'ei_lAinen', 'Ei  lAinen-johdosta')),
         ('', None), ('   ', None), ('# 9 a/b c d', None), ('  # huomautus', None)]
def flagCase(M, where, ls, end):
    f = E.out + '/flags.%d.txt' % E.shard
    open(f, 'wb').write(('\n'.join(l for l, _ in ls) + end).encode('utf-8'))
    x = {'%s/%s' % v[1:3]: v for _, v in ls if v}
    E.step(1 + len(ls))
    try: y = {k: (a.joukahainen, a.xmlGroup, a.xmlFlag, a.malagaFlag, a.description) for k, a in M.readFlagAttributes(f).items()}
    except Exception as e: return E.fail('%s: flags: exception %s %s' % (where, type(e).__name__, e))
    if x != y: E.fail('%s: flags read: %s, in the file: %s' % (where, ascii(y)[:500], ascii(x)[:500]))
    else: E.state('flags' + repr(sorted(x)))

def main():
    T = E.thorough
    h, e = C.open(LANG.encode(), D.encode()); assert not e, e
    W = ['kissa ', 'Kissa ', 'linja-auto ', 'alusta ', 'xqz ', 'sy\u00f6', '. ', ', ', '? ', '5 ', '\n', '... ', '"', '-', 'autotie ', 'opet', 'tie ', 'esim. ', '\u20ac']
    for opts in (0, 1):
        hi = (6 if T else 5) if opts else (5 if T else 4)
        pool = W[:9] if opts else W
        if opts: C.voikkoSetBooleanOption(h, 4, 0); C.voikkoSetBooleanOption(h, 15, 1)
        v = B.Voikko(LANG, D)
        if opts: v.setNoUglyHyphenation(False); v.setHyphenateUnknownWords(True)
        E.start('statistics of every text of at most %d of %d pieces%s' % (hi, len(pool), ', options of voikko-readability' if opts else ''))
        for t in mc.strings(pool, 0, hi):
            if E.take(): E.desc('text %s' % ascii(t)); statCase(v, h, t)
        v.terminate()
    C.close(h); h, e = C.open(LANG.encode(), D.encode())
    L = ['', 'Kissa sy\u00f6.', 'Kissa  sy\u00f6', ' \tkissa joten kuten ', 'Kissa on on kissa, ja ja koira .', '  ', 'Koira ( kissa', 'sy\u00f6.', 'joten']
    hi = 5 if T else 4
    E.start('grammar report on every input of at most %d of %d lines, both kinds of paragraphs, with and without a final line feed' % (hi, len(L)))
    for n in range(0, hi + 1):
        for ls in itertools.product(L, repeat=n):
            for end in ('', '\n'):
                for empty in (False, True):
                    if E.take(): E.desc('%s lines %s end %r' % (empty, ascii(ls), end)); gcCase(h, '\n'.join(ls) + end, empty)
    C.close(h)
    hi = 5 if T else 4
    E.start('word lists of at most %d of %d words after at most 2 of %d lines, plain and compressed, both modules' % (hi, len(WORDS), len(PRE)))
    for pre in [p for n in range(3) for p in itertools.product(PRE, repeat=n)]:
        for ws in [w for n in range(hi + 1) for w in itertools.product(WORDS, repeat=n)]:
            for gz in (False, True):
                for where, M in MODULES:
                    if E.take(): E.desc('%s pre %s words %s gz %s' % (where, ascii(pre), ascii(ws), gz)); listCase(M, where, pre, ws, gz, len(ws) % 2 == 1)
    hi = 3 if T else 2
    E.start('word lists of at most %d of %d words cut after every line' % (hi, len(WORDS)))
    for pre in [(), (PRE[0],)]:
        for ws in [w for n in range(hi + 1) for w in itertools.product(WORDS, repeat=n)]:
            for cut in range(len((''.join(pre) + HEAD + ''.join(ws)).splitlines()) + 1):
                for gz in (False, True):
                    for where, M in MODULES:
                        if E.take(): E.desc('%s pre %s words %s gz %s cut %d' % (where, ascii(pre), ascii(ws), gz, cut)); cutCase(M, where, pre, ws, gz, cut)
    hi = 5 if T else 4
    E.start('flag lists of at most %d of %d lines, with and without a final line feed, both modules' % (hi, len(FLAGS)))
    for n in range(hi + 1):
        for ls in itertools.product(FLAGS, repeat=n):
            for end in ('', '\n'):
                for where, M in MODULES:
                    if E.take(): E.desc('%s flags %s' % (where, ascii([l for l, _ in ls]))); flagCase(M, where, ls, end)
    return E.finish()
sys.exit(main())
