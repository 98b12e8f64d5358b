"""Helper for demonstrations: small dictionaries compiled with the built voikkovfstc, opened through the built library."""
import os, re, subprocess, sys, tempfile, shutil, atexit
L = '/repo/_build/libvoikko/src'
if os.environ.get('DL_READY') != '1':
    e = dict(os.environ, DL_READY='1', LD_LIBRARY_PATH=L + '/.libs', PYTHONPATH='/repo/libvoikko/python', LC_ALL='C.UTF-8', PYTHONDONTWRITEBYTECODE='1')
    d0 = tempfile.mkdtemp(prefix='demo-'); e['HOME'] = d0; e['DL_TMP'] = d0
    e.pop('VOIKKO_DICTIONARY_PATH', None)
    try: rc = subprocess.call([sys.executable] + sys.argv, env=e, timeout=280)
    except subprocess.TimeoutExpired: rc = 9
    shutil.rmtree(d0, ignore_errors=True)
    sys.exit(rc if rc >= 0 else 1)
TMP = os.environ['DL_TMP']
FULL = '/repo/_build/inst-debian/standard'
TOOLS = L + '/tools'
_n = 0
def att(entries):
    """entries: Finnish lexicon markup, e.g. [Ln][Xp]kissa[X]kiss[Sn][Ny]a"""
    out = []; st = 1; final = []
    for m in entries:
        cur = 0; x = False
        for s in re.findall(r'\[[^\]]*\]|.', m):
            tag = len(s) > 1
            i = '@0@' if tag or x else s.lower()
            out.append('%d\t%d\t%s\t%s' % (cur, st, i, s)); cur = st; st += 1
            if s in ('[Xp]', '[Xr]', '[Xj]', '[Xs]'): x = True
            if s == '[X]': x = False
        final.append(cur)
    out += ['%d' % f for f in final]
    out.sort(key=lambda l: int(l.split('\t')[0]))
    return '\n'.join(out) + '\n'
def compile_att(text, path, *opts):
    a = path + '.att'; open(a, 'w', encoding='utf-8').write(text)
    subprocess.run([TOOLS + '/voikkovfstc', '-o', path] + list(opts), check=True, stdout=subprocess.DEVNULL, stdin=open(a))
def new_root():
    global _n
    _n += 1
    return TMP + '/r%d' % _n
def dictionary(files, index='', name='x', lang='fi-x-test', root=None):
    root = root or new_root()
    d = root + '/5/mor-' + name; os.makedirs(d)
    open(d + '/index.txt', 'w').write('Voikko-Dictionary-Format: 5\nLanguage: %s\nDescription: demo\n%s' % (lang, index))
    for f, t in files.items():
        if isinstance(t, tuple): compile_att(t[0], d + '/' + f, *t[1:])
        else: compile_att(t, d + '/' + f)
    return root
def finnish(entries, index='Grammar-Backend: null\n'):
    return dictionary({'mor.vfst': att(entries)}, index)
def full(): return FULL
def voikko(root, lang=None):
    import libvoikko
    return libvoikko.Voikko(lang or ('fi' if root == FULL else 'fi-x-test'), root)
def check(got, want):
    if got != want:
        print('got', repr(got), 'want', repr(want)); sys.exit(1)
def scratch():
    d = new_root(); os.makedirs(d); return d
