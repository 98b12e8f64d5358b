"""P26: the inflection library (tools/pylib/voikkoinfl.py with data/*.aff) against the dictionary's forms and rules of Finnish written here."""
import itertools, lzma, os, sys, io, contextlib
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.dont_write_bytecode = True
import mc
E = mc.Explorer(sys.argv)
REPO = E.opt['repo']
sys.path.insert(0, REPO + '/tools/pylib')
broken = None
try:
    import voikkoinfl, voikkoutils
    out = io.StringIO()
    with contextlib.redirect_stdout(out): TYPES = {'n': voikkoinfl.readInflectionTypes(REPO + '/data/subst.aff'), 'v': voikkoinfl.readInflectionTypes(REPO + '/data/verb.aff')}
    if out.getvalue(): broken = 'the inflection tables are malformed: ' + out.getvalue()
except Exception as e: broken = 'the library cannot be used: %r' % e
VT = {'': 0, 'ä': 1, 'a': 2, 'aä': 3}

def forms(w, cls, kind, vt=''):
    """name -> set of forms, set of characteristic names; None if the library raises"""
    r, ch = {}, set()
    for x in voikkoinfl.inflectWord(w, cls, TYPES[kind], VT[vt]):
        r.setdefault(x.formName, set()).add(x.inflectedWord)
        if x.isCharacteristic: ch.add(x.formName)
    return r, ch
CHAR = {'n': {'nominatiivi', 'genetiivi', 'partitiivi', 'illatiivi', 'nominatiivi_mon', 'genetiivi_mon', 'partitiivi_mon', 'illatiivi_mon'},
        'v': {'infinitiivi_1', 'preesens_yks_1', 'imperfekti_yks_3', 'kondit_yks_3', 'imperatiivi_yks_3', 'partisiippi_2', 'imperfekti_pass'}}

def relation(k, a, b):
    return a == b if k == '=' else bool(a) and a <= b if k == '<' else a >= b

# ---- rules of Finnish
def harmony(w):
    """vowel harmony of the endings: of the part after the last = or -; with | of the whole part and of what follows it"""
    w = w[max(w.rfind('='), w.rfind('-')) + 1:]
    def simple(x):
        x = x.lower()
        back, front, y = (max([-1] + [i for i, c in enumerate(x) if c in s]) for s in ('aouå', 'äö', 'y'))
        if back < 0: return 'ä'
        if front < 0 and y < 0: return 'a'
        if y > back and y > front: return 'aä'
        return 'a' if back > front else 'ä'
    if not w: return 'aä'
    if '|' not in w: return simple(w)
    rest = w[w.index('|') + 1:]
    if not rest: return 'aä'
    a, b = simple(w), harmony(rest)
    return a if a == b else 'aä'
def fold(s, h): return s if h == 'a' else s.replace('a', 'ä').replace('o', 'ö').replace('u', 'y')
WEAK = [('kk', 'k', 'A'), ('pp', 'p', 'B'), ('tt', 't', 'C'), ('nk', 'ng', 'G'), ('mp', 'mm', 'H'), ('lt', 'll', 'I'), ('nt', 'nn', 'J'), ('rt', 'rr', 'K'), ('p', 'v', 'E'), ('t', 'd', 'F')]
def weaken(pre, cons, v, av):
    """weak grade of a strong stem pre+cons+v, and Kotus' letter for the gradation; None if there is none"""
    if av == 'av1':
        for s, w, k in WEAK:
            if cons.endswith(s): return pre + cons[:-len(s)] + w + v, k
        if cons == 'k' and pre[-1:] == v and v in 'uy': return pre + 'v' + v, 'M'
    if av == 'av5' and cons.endswith('k'):
        p = pre + cons[:-1]
        if p[-1] == v and (v in 'iouyö' or v in 'aä' and p[-2:] == v + v): return p + "'" + v, 'D'
        return p + v, 'D'
    return None
STRONG = [('mm', 'mp', 'H'), ('nn', 'nt', 'J'), ('ll', 'lt', 'I'), ('rr', 'rt', 'K'), ('ng', 'nk', 'G'), ('k', 'kk', 'A'), ('p', 'pp', 'B'), ('t', 'tt', 'C'), ('d', 't', 'F'), ('v', 'p', 'E'), ('b', 'bb', 'O'), ('g', 'gg', 'P')]
def strengthen(pre, cons, v, av):
    if av == 'av2':
        for w, s, k in STRONG:
            if cons.endswith(w): return pre + cons[:-len(w)] + s + v, k
    if av == 'av4' and cons.endswith('j'): return pre + cons[:-1] + 'k' + v, 'L'
    if av == 'av6' and not cons: return pre + 'k' + v, 'D'
    return None

def guarded(f):
    try: f()
    except Exception as e: E.fail('the library raised %r' % e)

# ---- every word of the vocabulary
words = []; names = {}
for l in lzma.open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'data', 'infl-forms.tsv.xz'), 'rt', encoding='utf-8'):
    c = l.rstrip('\n').split('\t')
    if c[0] in ('#n', '#v'): names[c[0][1]] = c[1:]
    elif not l.startswith('#'): words.append(c)
E.start('words of the vocabulary')
for c in words:
    if not E.take(): continue
    base, cls, vt, kind = c[:4]
    E.desc('%s, %s, vowel type %s' % (base, cls, vt or 'default'))
    if broken: E.fail(broken); continue
    def one():
        f, ch = forms(base.lower(), cls, kind, vt); E.step(len(f)); E.state(cls + ' ' + ' '.join(sorted(f)))
        if not f: return E.fail('no forms')
        for n, want in zip(names[kind], c[4:]):
            if want == '-': continue
            a, b = f.get(n, set()), set(want[1:].split('/')); E.step()
            if not relation(want[0], a, b): return E.fail('%s is %s, the dictionary has %s' % (n, '/'.join(sorted(a)) or 'missing', '/'.join(sorted(b))))
        for n in CHAR[kind]:
            if n in f and n not in ch: return E.fail('%s is not marked characteristic' % n)
        for n in f:
            if n in ch and n not in CHAR[kind] and not n.startswith(('verbi_', 'subst_')): return E.fail('%s is marked characteristic' % n)
    guarded(one)
# ---- Kotus letter of every graded word: from the change between its base form and the other grade in the dictionary
CHANGES = [('nk', 'ng', 'G'), ('mp', 'mm', 'H'), ('lt', 'll', 'I'), ('nt', 'nn', 'J'), ('rt', 'rr', 'K'), ('kk', 'k', 'A'), ('pp', 'p', 'B'), ('tt', 't', 'C'), ('bb', 'b', 'O'), ('gg', 'g', 'P'), ('p', 'v', 'E'), ('t', 'd', 'F'), ('k', 'j', 'L'), ('k', 'v', 'M'), ('k', '', 'D')]
def letter(w, other, av):
    for s, k, l in CHANGES:
        a, b = (s, k) if av in ('av1', 'av3', 'av5') else (k, s)
        for i in range(len(w) - len(a), 0, -1):
            x, y = w[:i], w[i + len(a):]
            if not w.startswith(a, i) or not y or sum(c in 'aeiouyäö' for c in y) > 2 or not other.startswith(x + b): continue
            rest = other[len(x) + len(b):].lstrip("'")
            if rest[:1] not in 'aeiouyäö' or not rest or y[:1] not in 'aeiouyäö': continue
            if a[-1:] and x[-1:] == a[:1] and len(a) == 1 and l in 'EF': continue
            return l
    return None
E.start('Kotus letter of every graded word')
for c in words:
    base, cls, vt, kind = c[:4]
    if '-av' not in cls: continue
    i = names[kind].index('genetiivi' if kind == 'n' else 'preesens_yks_1')
    if c[4 + i] == '-': continue
    if not E.take(): continue
    E.desc('%s, %s' % (base, cls))
    if broken: E.fail(broken); continue
    def one():
        w = base.lower(); av = cls.split('-', 1)[1]
        want = letter(w.replace('=', '').replace('|', ''), c[4 + i][1:].split('/')[0], av); E.step(); E.state('%s %s' % (cls, want))
        for t in TYPES[kind]:
            if voikkoinfl.inflectWord(w, cls, [t], VT[vt]):
                if want and t.kotusGradClass(w, av) != want: E.fail('Kotus gradation class is %r instead of %r (%s)' % (t.kotusGradClass(w, av), want, c[4 + i]))
                break
    guarded(one)
# ---- the first part of a compound does not change how it is inflected
E.start('compounds')
for k, c in enumerate(words):
    for first in ('aamu=', 'yö=') if E.thorough or k % 2 == 0 else ('sää-yö=',):
        if not E.take(): continue
        base, cls, vt, kind = c[:4]
        E.desc('%s%s, %s, vowel type %s' % (first, base, cls, vt or 'default'))
        if broken: E.fail(broken); continue
        def one():
            a, b = forms(base.lower(), cls, kind, vt)[0], forms(first + base.lower(), cls, kind, vt)[0]; E.step(len(b)); E.state(cls + first)
            for n in names[kind]:
                x, y = {first.replace('=', '') + s for s in a.get(n, ())}, b.get(n, set())
                if x != y: return E.fail('%s is %s instead of %s' % (n, sorted(y), sorted(x)))
        guarded(one)
# ---- gradation of every stem of a shape
VOW = 'aeiouyäö'
def stems():
    for p in ('', 's', 'tr') if E.thorough else ('', 's'):
        for v in VOW:
            for w in [''] + list(VOW): yield p + v + w
def consistent(s): return not (set(s) & set('aou') and set(s) & set('äöy'))
CL = [a + b for a in ('', 'l', 'r', 'n', 'm', 'h') for b in ('kk', 'pp', 'tt')] + ['mp', 'nt', 'lt', 'rt', 'nk', 'p', 't', 'lp', 'rp', 'ht', 'k', 'lk', 'rk', 'hk', 's', 'll', 'j']
E.start('weak grades')
for pre in stems():
    for cons in CL:
        for v in 'ouyö':
            if not consistent(pre + v): continue
            for av in ('av1', 'av5', '-'):
                w = pre + cons + v
                if not E.take(): continue
                E.desc('%s, valo-%s' % (w, av))
                if broken: E.fail(broken); continue
                def one():
                    g = (w, '') if av == '-' else weaken(pre, cons, v, av)
                    f = forms(w, 'valo-' + av, 'n')[0]; E.step(len(f) + 1); h = harmony(w)
                    if g is None:
                        # gradation is not possible: nothing is given
                        if f: E.fail('forms although the stem has no gradation: %s' % sorted(f.get('genetiivi', ())))
                        return
                    E.state('%s %s %s' % (cons, av, g[1]))
                    want = {'nominatiivi': {w}, 'genetiivi': {g[0] + 'n'}, 'nominatiivi_mon': {g[0] + 't'}}
                    for n, s, e in (('partitiivi', w, 'a'), ('essiivi', w, 'na'), ('inessiivi', g[0], 'ssa'), ('adessiivi', g[0], 'lla'), ('abessiivi', g[0], 'tta'), ('translatiivi', g[0], 'ksi')): want[n] = {s + fold(e, x) for x in h}
                    for n in want:
                        if f.get(n) != want[n]: return E.fail('%s is %s instead of %s' % (n, sorted(f.get(n, ())), sorted(want[n])))
                    t = [t for t in TYPES['n'] if 'valo' in t.joukahainenClasses][0]
                    if t.kotusGradClass(w, av) != g[1]: E.fail('Kotus gradation class is %r instead of %r' % (t.kotusGradClass(w, av), g[1]))
                guarded(one)
E.start('strong grades')
CL2 = ['mm', 'nn', 'll', 'rr', 'ng', 'k', 'p', 't', 'd', 'v', 'lk', 'rt', 'lv', 'rv', 'hd', 'b', 'g', 'j', 'lj', 'rj', '', 's', 'h']
for pre in stems():
    for cons in CL2:
        w = pre + cons + 'e'
        for av in ('av2', 'av4', 'av6', '-'):
            if av == 'av6' and cons: continue
            if av != 'av6' and not cons: continue
            if not E.take(): continue
            E.desc('%s, hame-%s' % (w, av))
            if broken: E.fail(broken); continue
            def one():
                g = (w, '') if av == '-' else strengthen(pre, cons, 'e', av)
                f = forms(w, 'hame-' + av, 'n')[0]; E.step(len(f) + 1); h = harmony(w)
                if g is None:
                    if f: E.fail('forms although the stem has no gradation: %s' % sorted(f.get('genetiivi', ())))
                    return
                E.state('%s %s %s' % (cons, av, g[1]))
                want = {'nominatiivi': {w}, 'genetiivi': {g[0] + 'en'}, 'nominatiivi_mon': {g[0] + 'et'}}
                for n, s, e in (('partitiivi', w, 'tta'), ('essiivi', g[0], 'ena'), ('inessiivi', g[0], 'essa'), ('partitiivi_mon', g[0], 'ita')): want[n] = {s + fold(e, x) for x in h}
                for n in want:
                    if f.get(n) != want[n]: return E.fail('%s is %s instead of %s' % (n, sorted(f.get(n, ())), sorted(want[n])))
                t = [t for t in TYPES['n'] if 'hame' in t.joukahainenClasses][0]
                if t.kotusGradClass(w, av) != g[1]: E.fail('Kotus gradation class is %r instead of %r' % (t.kotusGradClass(w, av), g[1]))
            guarded(one)
# ---- vowel harmony
E.start('vowel harmony')
def hwords():
    for n in range(1, 7 if E.thorough else 6):
        for t in itertools.product('aoyäe|=k' if n > 4 else 'aouåyäöeik|=-', repeat=n): yield ''.join(t)
for w in hwords():
    if not E.take(): continue
    E.desc('harmony of ' + w)
    if broken: E.fail(broken); continue
    def one():
        E.step(); r = voikkoutils.get_wordform_infl_vowel_type(w); E.state(str(r))
        if r != VT[harmony(w)]: E.fail('vowel type %r instead of %r' % (r, VT[harmony(w)]))
        if not set(w) & set('|=-'):
            s = voikkoutils.vowel_type(w)
            if s != VT[harmony(w)]: E.fail('vowel_type is %r instead of %r' % (s, VT[harmony(w)]))
    guarded(one)
E.start('requested vowel type')
for w, cls, n, e in (('talo', 'valo', 'partitiivi', 'a'), ('kylpy', 'valo-av1', 'inessiivi', 'ssa'), ('tie', 'rosé', 'x', ''), ('hame', 'hame', 'essiivi', 'ena'), ('analyysi', 'risti', 'partitiivi', 'a')):
    for vt in VT:
        if not E.take(): continue
        E.desc('%s, %s, vowel type %s' % (w, cls, vt or 'default'))
        if broken: E.fail(broken); continue
        def one():
            f = forms(w, cls, 'n', vt)[0]; E.step(); E.state(vt)
            if n == 'x': return
            h = vt or harmony(w); s = {x[-1] for x in f.get(n, ())}
            if s != set(h): E.fail('%s ends in %s instead of %s' % (n, sorted(s), sorted(h)))
        guarded(one)
# ---- reading of the tables
E.start('tables')
COLS = [('nominatiivi', True), ('!uusi', True), ('essiivi', False), ('partisiippi_2', True)]
OPTS = [('', 1, True), ('\tps=f', 1, True), ('\tps=r', 1, False), ('\tprio=2', 2, True), ('\tps=f,prio=3', 3, True), ('\tprio=3,ps=r', 3, False)]
for (name, ch), (opt, prio, kept), d, a, g, noise in itertools.product(COLS, OPTS, ('0', 'a', 'ab'), ('0', 'x', 'yz'), 'sw', ('', '# note\n', '\n\t\n')):
    if not E.take(): continue
    row = '%s\t%s\t%s\t%s%s' % (name, d, a, g, opt)
    E.desc('row %r after %r' % (row, noise))
    if broken: E.fail(broken); continue
    def one():
        p = '%s/t.%d.aff' % (E.out, E.shard)
        with open(p, 'w', encoding='utf-8') as f: f.write('%sclass: 1,2\nsm-class: k1 k2%s\nrmsfx: b\nmatch-word: ab\nconsonant-gradation: ws\nrules:\n%s%s # end\nviimeinen 0 q w\nend: rules\nend: class\n\nclass: 3\nsm-class: k3\nmatch-word: V\nconsonant-gradation: sw\nrules:\nainoa\t0\t0\ts\nend: rules\nend: class\n' % (noise, ' # x' if noise else '', noise, row))
        t = voikkoinfl.readInflectionTypes(p); E.step(); E.state(row)
        show = lambda t: (t.kotusClasses, t.joukahainenClasses, t.rmsfx, t.matchWord, t.gradation, [(r.name, r.isCharacteristic, r.rulePriority, r.delSuffix, r.addSuffix, r.gradation) for r in t.inflectionRules])
        z = lambda s: '' if s == '0' else s
        want = [(['1', '2'], ['k1', 'k2'], 'b', 'ab', voikkoutils.GRAD_WS, ([(name.lstrip('!'), ch, prio, z(d), z(a), {'s': voikkoutils.GRAD_STRONG, 'w': voikkoutils.GRAD_WEAK}[g])] if kept else []) + [('viimeinen', False, 1, '', 'q', voikkoutils.GRAD_WEAK)]),
                (['3'], ['k3'], '', 'V', voikkoutils.GRAD_SW, [('ainoa', False, 1, '', '', voikkoutils.GRAD_STRONG)])]
        if [show(x) for x in t] != want: E.fail('read %r' % [show(x) for x in t])
        os.unlink(p)
    guarded(one)
E.start('unknown classes')
for cls in ('olematon', 'valo-av7', 'valo-', 'hame-av1', 'valo-av2', '', '-', 'valo-av1-av1'):
    for w in ('talo', 'katu', 'hame', 'sade', 'tie'):
        if not E.take(): continue
        E.desc('%s, %s' % (w, cls))
        if broken: E.fail(broken); continue
        def one():
            f = forms(w, cls, 'n')[0]; E.step(); E.state(cls)
            if f: E.fail('forms are given: %s' % sorted(f)[:3])
        guarded(one)
# ---- a class gives no forms for a word that ends unlike all its words in the vocabulary
FOLD = str.maketrans('äöy', 'aou'); ENDS = {}; SHAPES = {}; COUNT = {}
for c in words:
    k = c[3], c[1].split('-')[0]; w = c[0].lower().translate(FOLD).replace('=', '').replace('|', '')
    ENDS.setdefault(k, set()).add(w[-1:]); SHAPES.setdefault(k, set()).add((w[-2:-1] in list('aeiou'), w[-1:])); COUNT[k] = COUNT.get(k, 0) + 1
E.start('words that do not fit the class')
for k in sorted(ENDS):
    ends, tests = ENDS[k], []
    vowel = {e in 'aeiouåéá' for e in ends}
    for e in 'aeioubcdfghjklmnpqrstvwxz':
        # classes whose words all end in the same letter: any other; else the other kind of letter
        if e not in ends if len(ends) == 1 else (e in 'aeiou') not in vowel: tests += [st + e for st in ('kiss', 'talk', 'rapa', 'pelut', 'sumen')]
    if len(ends) == 1 and COUNT[k] >= 20 and k != ('n', 'lovi'):   # the table of lovi also takes vowels before its i
        e = list(ends)[0]
        if (True, e) not in SHAPES[k]: tests += [st + e for st in ('sumea', 'pelo', 'tahto')]
        if (False, e) not in SHAPES[k]: tests += [st + e for st in ('tilas', 'pelut', 'nukul')]
    for w in tests:
        if not E.take(): continue
        E.desc('%s, %s' % (w, k[1]))
        if broken: E.fail(broken); continue
        def one():
            f = forms(w, k[1], k[0])[0]; E.step(); E.state('unfit ' + k[1])
            if f: E.fail('forms are given: %s' % sorted(f)[:3])
        guarded(one)
sys.exit(E.finish())
