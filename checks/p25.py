import lzma, os, shutil, itertools
from concurrent.futures import ThreadPoolExecutor
import xml.dom.minidom
import build, runner, fidict
RULE = 'A case is a set of base forms whose words (with the stated numbers of parts, derivations, possessives and clitics) are enumerated exhaustively in the network built from the tree and in the published one, or one invented word in one configuration of the build, or one autocorrection. Every enumerated word is one transition; a state is a distinct tag sequence, form set or answer.'

STYLES = ('old', 'dialect', 'foreignloan')
USAGES = ('medicine', 'it')
# options of the lexicon generator; None is the default
FREQ, USE, STY = (None, 1, 7, 8, 10), (None, 'medicine', 'it,medicine'), (None, 'old', 'dialect,old', 'dialect')

def subsets(x): return [c for k in range(len(x) + 1) for c in itertools.combinations(x, k)]

def name(i):  # invented words of one shape, none of which is in the vocabulary or built into voikko-fi
    d = 'bcdfghjk'
    return 'z' + d[i // 512 % 8] + d[i // 64 % 8] + d[i // 8 % 8] + d[i % 8] + 'o'

def option_words(tier):
    """(name, fclass, confusing, styles, usages, not_voikko)"""
    r = []
    for fclass in (None, 1, 2, 6, 7, 8, 9, 10):
        for conf in (False, True): r.append([fclass, conf, (), (), False])
    for st in subsets(STYLES):
        for us in subsets(USAGES):
            for nv in (False, True):
                for fclass in (None, 8, 9):
                    for conf in (False, True): r.append([fclass, conf, st, us, nv])
    return [[name(i)] + w for i, w in enumerate(r)]

def selected(w, freq, use, sty):
    n, fclass, conf, st, us, nv = w
    limit = freq or 9
    f = 7 if fclass is None else fclass
    if nv or f > limit or (f == limit and conf): return False
    if us and not set(us) & set((use or '').split(',')): return False
    return all(s == 'foreignloan' or s in (sty or 'old,international,inappropriate').split(',') for s in st)

def harmony(w):
    """of the endings of a word, from its parts: the part after the last = or -; with | the whole and the rest"""
    w = w[max(w.rfind('='), w.rfind('-')) + 1:]
    def simple(x):
        h = ''
        back, front, y = (max([-1] + [i for i, c in enumerate(x) if c in s]) for s in ('aouå', 'äö', 'y'))
        if back < 0: return 'ä'
        if front < 0 and y < 0: return 'a'
        if y > back and y > front: return 'b'
        return 'a' if back > front else 'ä'
    if '|' not in w: return simple(w)
    a, b = simple(w.replace('|', '')), harmony(w[w.index('|') + 1:])
    return a if a == b else 'b'

def harmony_words(tier):
    vs = 'aouåäöyei' if tier == 'thorough' else 'aoäyei'
    r = []
    for sep in ('', '=', '-', '|'):
        for x, y in itertools.product(vs, vs): r.append('z%sz%sz%szi' % (x, sep, y))
    for s1, s2 in itertools.product('=-|', '=-|'):
        for x, y, z in itertools.product('aäy', 'aäy', 'aäye'): r.append('z%sz%sz%sz%sz%szi' % (x, s1, y, s2, z))
    return r

def prepare(tier):
    d = build.BUILD + '/p25'
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + '/ref/5/mor-standard')
    vfstc = build.build_tool('voikkovfstc', 'opt')
    ref = d + '/ref/5/mor-standard/mor.vfst'
    with open(ref, 'wb') as f: f.write(lzma.open(build.VERIF + '/data/fi-2.5.vfst.xz').read())
    with open(ref.replace('mor.vfst', 'autocorr.vfst'), 'wb') as f: f.write(lzma.open(build.VERIF + '/data/fi-2.5.autocorr.vfst.xz').read())
    with open(d + '/ref/5/mor-standard/index.txt', 'w') as f: f.write('Voikko-Dictionary-Format: 5\nLanguage: fi-x-standard\nDescription: reference\nMorphology-Backend: finnishVfst\n')
    W = fidict.read_words()
    jobs = {}
    words = [fidict.word(i + 1, [w[3]], fidict.CLASSES[w[6]], w[4], w[5], w[7]) for i, w in enumerate(W) if w[0] != 'c']
    jobs['all'] = (fidict.vocabulary(words), ['VOIKKO_DESCRIPTION=kaikki (koe 1)'], 'standard', None)
    some = [w for i, w in enumerate(W) if w[0] in 'wo' and ('s' in w[1] or w[0] == 'o')][::1 if tier == 'thorough' else 3]
    somexml = fidict.vocabulary(fidict.word(i + 1, [w[3]], fidict.CLASSES[w[6]], w[4], w[5], w[7]) for i, w in enumerate(some))
    jobs['vanhat'] = (somexml, ['VANHAT_MUODOT=yes'], 'vanhat', None)
    jobs['murre'] = (somexml, ['GENLEX_OPTS=--style=dialect,old,international,inappropriate'], 'murre2', None)
    ow = option_words(tier)
    def xml(w, i):
        n, fclass, conf, st, us, nv = w
        return fidict.word(i + 1, [n], ['noun'], 'valo', None, [('style', s) for s in st] + [('usage', u) for u in us] + ([('application', 'not_voikko')] if nv else []), fclass, conf)
    owxml = fidict.vocabulary(xml(w, i) for i, w in enumerate(ow))
    confs = []
    for k, (f, u, s) in enumerate(itertools.product(FREQ, USE, STY)):
        if tier == 'quick' and sum(x is not None for x in (f, u, s)) == 3 and k % 3: continue
        o = ([] if f is None else ['--min-frequency=%d' % f]) + ([] if u is None else ['--extra-usage=' + u]) + ([] if s is None else ['--style=' + s])
        confs.append(('o%d' % k, f, u, s, ['GENLEX_OPTS=' + ' '.join(o)] if o else [], ''))
    confs.append(('osrc', None, 'it', None, ['GENLEX_OPTS=--sourceid --extra-usage=it'], 'id'))
    confs.append(('obase', None, None, 'dialect', ['GENLEX_OPTS=--style=dialect', 'VVFST_BASEFORMS=no'], 'nobase'))
    for c in confs: jobs[c[0]] = (owxml, c[4], c[0], None)
    hw = harmony_words(tier)
    # words whose spelling is shared by two entries would be indistinguishable: the ones with | get a letter of their own
    hwords = [(w.replace('z', 'v', 1) if '|' in w and '=' not in w and '-' not in w else w.replace('z', 'x', 1) if '|' in w else w, None) for w in hw]
    forced = [('q' + '%s%szi' % (x, n), v) for x in 'aäye' for n, v in (('b', 'a'), ('c', 'ä'), ('d', 'aä'), ('f', None))]
    alts = [(['waawi', 'wääwi'], None), (['wyywi', 'waa=wyywi', 'wää|wyywi'], None)]
    H = [([w], v) for w, v in hwords + forced] + alts
    u = {}
    for fs, v in H:
        for f in fs: u.setdefault(f.replace('|', ''), []).append(f)
    H = [(fs, v) for fs, v in H if all(len(u[f.replace('|', '')]) == 1 for f in fs)]
    jobs['harmony'] = (fidict.vocabulary(fidict.word(i + 1, fs, ['noun'], 'risti', v) for i, (fs, v) in enumerate(H)), ['VOIKKO_DESCRIPTION=a b'], 'h1', None)
    # autocorrection: a generated list in addition to the one of the tree
    ac = []
    for i, (a, b) in enumerate(itertools.product(['a', 'ä', 'a=b', 'ab c', 'Ab', 'a-b', 'abc', 'bä d=e f'], ['k', 'kö', 'k l', 'k=l', 'K-l', 'klm n o'])):
        ac.append(('q' + 'xwvz'[i % 4] + a + 'stu'[i % 3] * (1 + i // 6 % 4), b + 'mn'[i % 2]))
    acxml = '<?xml version="1.0" encoding="UTF-8" ?>\n<autocorrect xml:lang="fi">\n' + ''.join('<replacement>\n  <incorrect>%s</incorrect>\n  <correct>%s</correct>\n</replacement>\n' % p for p in ac) + '</autocorrect>\n'
    jobs['auto'] = (fidict.vocabulary([fidict.word(1, ['valo'], ['noun'], 'valo')]), ['VOIKKO_DESCRIPTION=c'], 'auto', acxml)
    order = sorted(jobs, key=lambda j: j != 'all')
    with ThreadPoolExecutor(build.JOBS) as ex:
        bad = dict(zip(order, ex.map(lambda j: fidict.make(d + '/' + j, jobs[j][0], vfstc, jobs[j][1], jobs[j][2], jobs[j][3]), order)))
    def mor(j): return '%s/%s/out/5/mor-%s/mor.vfst' % (d, j, jobs[j][2])
    plan = []
    def fam(n): plan.append('F\t' + n)
    def case(j, *a):
        if bad[j]: plan.append('\t'.join(('broken', 'configuration %s %s' % (j, ' '.join(jobs[j][1])), ' '.join(bad[j].split()))))
        else: plan.append('\t'.join(a))
        return bad[j]
    def listfile(n, keys):
        with open('%s/%s.list' % (d, n), 'w', encoding='utf-8') as f: f.write('\n'.join(keys) + '\n')
        return '%s/%s.list' % (d, n)
    def keys(p): return sorted({w[2] + '\t' + w[3] for w in W if p(w)}, key=lambda s: s.encode())
    def chunks(family, j, op, ks, bounds, size, n, other=None):
        fam(family)
        l = listfile(n, ks)
        for i in range(0, len(ks), size):
            if case(j, op, '%s: %s, %d base forms from %s' % (family, bounds, min(size, len(ks) - i), ks[i].replace('\t', ' ')), mor(j), other or ref, bounds, l, str(i), str(size), ''): break
    th = tier == 'thorough'
    sel = keys(lambda w: w[0] == 'w' and 's' in w[1])
    every = keys(lambda w: w[0] == 'w')
    chunks('inflection of every word', 'all', 'same', every, '1,1,0,0,0,200' if th else '1,0,0,0,0,200', 64, 'every')
    chunks('derivations', 'all', 'same', sel if th else sel[::2], '1,2,0,0,0,200' if th else '1,1,0,0,0,200', 16, 'der')
    chunks('possessives and clitics', 'all', 'same', sel, '1,0,1,2,0,200' if th else '1,0,1,1,0,200', 16, 'poss')
    chunks('uninflected words and abbreviations', 'all', 'same', keys(lambda w: w[0] == 'o'), '1,1,1,1,0,200', 16, 'other')
    chunks('words built into voikko-fi', 'all', 'same', keys(lambda w: w[0] == 'c' and w[2] != '[Lp]'), '1,1,1,1,0,200', 8, 'closed')
    fam('words without base forms')
    l = listfile('none', ['[Lzz]\tzz'])
    case('all', 'same', 'all words of up to %d letters without base form' % 4, mor('all'), ref, '1,1,1,1,1,4', l, '0', '1', '')
    fam('compounds')
    comp = keys(lambda w: 'c' in w[1])
    l = listfile('comp', comp)
    for k in comp:
        if case('all', 'same', 'compounds: first part %s' % k.replace('\t', ' '), mor('all'), ref, '2,0,0,0,0,200', l, '0', '9999', k.replace('\t', '~')): break
    fam('prefixes')
    l = listfile('second', keys(lambda w: 'p' in w[1]))
    for w in W:
        if w[0] == 'p' and case('all', 'same', 'prefix %s' % w[3], mor('all'), ref, '3,0,0,0,0,200' if th else '2,0,0,0,0,200', l, '0', '9999', '[Lp]~' + w[3]): break
    chunks('old forms are added', 'vanhat', 'more', sorted({w[2] + '\t' + w[3] for w in some}, key=lambda s: s.encode()), '1,0,0,0,0,200', 64, 'vanhat')
    chunks('dialectal forms are added', 'murre', 'more', sorted({w[2] + '\t' + w[3] for w in some}, key=lambda s: s.encode()), '1,0,0,0,0,200', 64, 'murre')
    fam('library')
    lib = every if th else sel
    l = listfile('lib', lib)
    for i in range(0, len(lib), 32):
        if case('all', 'library', 'library: %d base forms from %s' % (min(32, len(lib) - i), lib[i].replace('\t', ' ')), d + '/all/out', 'standard', d + '/ref', ref, l, str(i), '32', '1,0,0,0,0,200'): break
    fam('selection')
    for c in confs:
        for i, w in enumerate(ow):
            s = selected(w, *c[1:4])
            desc = 'options %s: word %s fclass=%s confusing=%s style=%s usage=%s not_voikko=%s' % (' '.join(c[4]), w[0], w[1], w[2], ','.join(w[3]), ','.join(w[4]), w[5])
            tags = '[Ln]' + ('[Isf]' if 'foreignloan' in w[3] else '')
            rk = ('[Ln]', 'katko')
            if c[5] == 'nobase': a = ('spell', desc, d + '/' + c[0] + '/out', c[0], ref) + rk + ('katk', w[0][:-1], 'a', '1' if s else '0')
            elif s: a = ('like', desc, mor(c[0]), tags, w[0], ref) + rk + ('katk', w[0][:-1], 'a', str(i + 1) if c[5] == 'id' else '')
            else: a = ('none', desc, mor(c[0]), tags, w[0])
            if case(c[0], *a): break
    fam('vowel harmony and alternative forms')
    for fs, v in H:
        for f in fs:
            h = {'a': 'a', 'ä': 'ä', 'aä': 'b', None: harmony(f)}[v]
            b = f.replace('|', '')
            if case('harmony', 'like', 'harmony: %s of %s, vowel type %s' % (f, '/'.join(fs), v), mor('harmony'), '[Ln]', b, ref, '[Ln]', 'baari', 'baar', b.replace('=', '')[:-1], h, ''): break
    fam('autocorrections')
    for j in ('all', 'auto'):
        x = xml_pairs(open(build.REPO + '/voikko-fi/vocabulary/autocorrect/fi.xml', encoding='utf-8').read() if j == 'all' else acxml)
        l = listfile('pairs-' + j, ['%s\t%s' % p for p in x])
        net = mor(j).replace('mor.vfst', 'autocorr.vfst')
        if case(j, 'pairs', 'the list of %s' % ('the tree' if j == 'all' else 'generated corrections'), net, l): continue
        for a, b in x: case(j, 'correct', 'correction of %s' % a, d + '/' + j + '/out', jobs[j][2], a, b)
    fam('description')
    for j, t in (('all', 'kaikki (koe 1)'), ('harmony', 'a b'), ('auto', 'c'), ('o0', 'suomi (perussanasto)')): case(j, 'listed', 'dictionary listing of ' + j, d + '/' + j + '/out', jobs[j][2], t)
    with open(d + '/plan', 'w', encoding='utf-8') as f: f.write('\n'.join(plan) + '\n')
    return d + '/plan'

def xml_pairs(text):
    d = xml.dom.minidom.parseString(text.encode())
    def t(r, n): return ''.join(c.data for c in r.getElementsByTagName(n)[0].childNodes).replace('=', '')
    return [(t(r, 'incorrect'), t(r, 'correct')) for r in d.getElementsByTagName('replacement')]

def build_all(tier):
    build.build_tool('voikkovfstc', 'opt')
    return build.build_harness('p25', 'opt')

def run(tier):
    exe = build_all(tier)
    plan = prepare(tier)
    c = runner.Check('P25', tier, rule=RULE)
    c.harness(exe, ['--plan', plan], timeout=600 if tier == 'quick' else 10000)
    r = c.finish()
    if not c.res.violations: shutil.rmtree(build.BUILD + '/p25', ignore_errors=True)
    return r
