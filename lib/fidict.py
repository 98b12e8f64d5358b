"""Builds Finnish dictionaries with the tree's voikko-fi from generated vocabularies."""
import os, shutil, subprocess
import build

CLASSES = {'[Lep]': ['pnoun_place'], '[Lee]': ['pnoun_firstname'], '[Les]': ['pnoun_lastname'], '[Lem]': ['pnoun_misc'], '[Lt]': ['verb'], '[Lnl]': ['adjective', 'noun'], '[Ll]': ['adjective'], '[Ln]': ['noun'],
           'h': ['interjection'], 'c': ['conjunction'], 's': ['adverb'], 'a': ['abbreviation'], 'p': ['prefix']}
GROUPS = ('usage', 'compounding', 'derivation', 'style', 'grammar', 'application')

def word(i, forms, classes, infclass=None, vtype=None, flags=(), fclass=None, confusing=False, historical=None, baseform=None):
    """one entry; flags: (group, name) pairs, with inflflags for the inflection group"""
    s = '<word id="w%d">\n\t<forms>\n' % i + ''.join('\t\t<form>%s</form>\n' % f for f in forms) + '\t</forms>\n'
    if baseform: s += '\t<baseform>%s</baseform>\n' % baseform
    s += '\t<classes>\n' + ''.join('\t\t<wclass>%s</wclass>\n' % c for c in classes) + '\t</classes>\n'
    infl = [f for g, f in flags if g == 'inflflags']
    if infclass or vtype or infl:
        s += '\t<inflection>\n'
        if historical: s += '\t\t<infclass type="historical">%s</infclass>\n' % historical
        if infclass: s += '\t\t<infclass>%s</infclass>\n' % infclass
        if vtype: s += '\t\t<vtype>%s</vtype>\n' % vtype
        s += ''.join('\t\t<flag>%s</flag>\n' % f for f in infl) + '\t</inflection>\n'
    for g in GROUPS:
        fs = [f for h, f in flags if h == g]
        if fs: s += '\t<%s>\n' % g + ''.join('\t\t<flag>%s</flag>\n' % f for f in fs) + '\t</%s>\n' % g
    if fclass or confusing:
        s += '\t<frequency>\n' + ('\t\t<fclass>%d</fclass>\n' % fclass if fclass else '') + ('\t\t<flag>confusing</flag>\n' if confusing else '') + '\t</frequency>\n'
    return s + '</word>\n'

def vocabulary(words):
    return '<?xml version="1.0" encoding="UTF-8"?>\n<wordlist xml:lang="fi">\n' + ''.join(words) + '</wordlist>\n'

def read_words():
    r = []
    for l in open(build.VERIF + '/data/fi-words.tsv', encoding='utf-8'):
        if l.startswith('#'): continue
        kind, use, tags, base, inf, vtype, cls, flags = l.rstrip('\n').split('\t')
        r.append((kind, use, tags, base, inf or None, vtype or None, cls, [tuple(f.split(':')) for f in flags.split()]))
    return r

def make(dest, xml, vfstc, options=(), variant='standard', autocorrect=None, timeout=400):
    """Builds and installs into dest/out; returns None or what went wrong."""
    shutil.rmtree(dest, ignore_errors=True)
    os.makedirs(dest + '/bin')
    shutil.copytree(build.REPO + '/voikko-fi', dest + '/src', ignore=shutil.ignore_patterns('__pycache__', '*.vfst', '*.att', '*.stamp', 'joukahainen*', 'config.mak'))
    with open(dest + '/src/vocabulary/joukahainen.xml', 'w', encoding='utf-8') as f: f.write(xml)
    if autocorrect is not None:
        with open(dest + '/src/vocabulary/autocorrect/fi.xml', 'w', encoding='utf-8') as f: f.write(autocorrect)
    os.symlink(vfstc, dest + '/bin/voikkovfstc')
    os.makedirs(dest + '/b')
    e = {'PATH': dest + '/bin:/usr/bin:/bin', 'HOME': dest, 'LC_ALL': 'C.UTF-8', 'LANG': 'C.UTF-8', 'PYTHONDONTWRITEBYTECODE': '1'}
    try:
        p = subprocess.run(['make', 'vvfst-install', 'VVFST_BUILDDIR=' + dest + '/b', 'DESTDIR=' + dest + '/out', 'VOIKKO_VARIANT=' + variant] + list(options),
                           cwd=dest + '/src', env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        return 'the build did not end'
    log = p.stdout.decode('utf-8', 'replace')
    shutil.rmtree(dest + '/src', ignore_errors=True)
    shutil.rmtree(dest + '/b', ignore_errors=True)
    d = dest + '/out/5/mor-' + variant
    if p.returncode: return 'the build failed: ' + ' '.join(log.split())[-600:]
    for n in ('mor.vfst', 'autocorr.vfst', 'index.txt'):
        if not os.path.exists(d + '/' + n): return 'the build installed no ' + n
    return None
