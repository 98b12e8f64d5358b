#!/usr/bin/env python3
"""mutsweep.py OUT COUNT SEED [file-regex]: small edits of the sources, one at a time, in a scratch copy; lists those no check reports (development aid, not a check)."""
import glob, os, random, re, shutil, subprocess, sys, time
OUT, COUNT, SEED = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]); RX = re.compile(sys.argv[4] if len(sys.argv) > 4 else '.')
V = os.environ.get('MUT_VERIF', '/tmp/mv'); M = os.environ.get('MUT_REPO', '/tmp/msw')
if not os.path.exists(V): subprocess.run(['bash', '-c', 'git clone -q /verif %s' % V], check=True)
else: subprocess.run(['git', '-C', V, 'pull', '-q'], check=True)
shutil.rmtree(M, ignore_errors=True); subprocess.run(['git', 'clone', '-q', '/repo', M], check=True)
MAP = [('voikkostatistics|gc-pretty', 'P27'), ('voikkoutils', 'P27 P26 P25'), ('tools/pylib|data/', 'P26'), ('voikko-fi/', 'P25'), ('libvoikko_api.js', 'P24'), ('V3DictionaryLoader', 'P13'), ('src/spellchecker/.*Hfst', 'P23 P20 P13'), ('src/fst/', 'P08 P23 P14 P20'), ('src/grammar/', 'P11 P10 P20 P12'), ('src/autocorrect', 'P11 P20'), ('src/hyphenator/', 'P06 P12 P20'), ('src/morphology/', 'P07 P02 P13 P20'), ('src/setup/', 'P13 P01 P14 P02 P15'), ('src/spellchecker/suggestion', 'P03 P19 P20'), ('src/spellchecker/.*Cache', 'P01 P20'),
       ('src/spellchecker/.*(Vfst|Hfst)', 'P23 P02 P14'), ('src/spellchecker/', 'P02 P03 P19 P01 P12 P20'), ('src/tokenizer/', 'P04 P12 P11 P20'), ('src/sentence/', 'P05 P12 P20'), ('src/character/', 'P19 P04 P02'), ('src/utils/', 'P12 P11 P20 P02'), ('src/compatibility/', 'P22'), ('src/tools/voikkovfstc', 'P09'), ('src/tools/voikkospell', 'P16 P17'), ('src/tools/', 'P17'),
       ('libvoikko.py$', 'P18'), ('Old.py', ''), ('java$', 'P21'), ('src/', 'P20 P02 P12')]
files = [f for f in subprocess.run(['git', '-C', M, 'ls-files', 'libvoikko'], capture_output=True, text=True).stdout.split() if re.search(r'(libvoikko/src/.*\.(cpp|hpp)|python/libvoikko\.py|java/src/main/.*\.java)$', f) and not re.search(r'/(Cg|Lttoolbox|V4Dict|utf8)|test|utf8cpp|porting', f) and RX.search(f)]
OPS = [(r'==', '!='), (r'!=', '=='), (r'(?<![<\-])<(?![<=\w:])', '<='), (r'(?<![->])>(?![>=])(?=\s)', '>='), (r'<=', '<'), (r'>=', '>'), (r'&&', '||'), (r'\|\|', '&&'), (r' \+ 1\b', ''), (r' - 1\b', ''), (r' \+ (?=\w)', ' - '), (r' - (?=\w)', ' + '), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'),
       (r'\b(\d+)\b', lambda m: str(int(m[1]) + 1)), (r'\b([1-9]\d*)\b', lambda m: str(int(m[1]) - 1)), (r'(?<=[(\s])!(?=\w)', ''), (r'\bif \((?!.*\bif\b)', 'if (!('), (r'\bbreak;', ';'), (r'\bcontinue;', ';'), (r"L?'(.)'", "L'#'"), (r'0x([0-9A-Fa-f]+)', lambda m: hex(int(m[1], 16) + 1)), (r'\+\+', '--'), (r'DEL', '')]
def mutants():
    r = []
    for f in files:
        for n, l in enumerate(open(M + '/' + f, encoding='utf-8', errors='surrogateescape').read().split('\n')):
            t = l.strip()
            if not t or t.startswith(('//', '*', '/*', '#', 'import', 'namespace', 'using', 'template', 'package', '"""')) or 'static_assert' in t: continue
            for i, (a, b) in enumerate(OPS):
                if a == 'DEL':
                    if re.match(r'[\w:>.\-\[\]*]+(\(.*\)|\s*[-+|]?=.*|\+\+|--);$', t) and not re.match(r'(const |int |size_t |return|wchar_t|char|bool|auto|list|string|vector|delete\[\] \w+;$)', t): r.append((f, n, l, l.replace(t, ';' if not f.endswith('.py') else 'pass')))
                    continue
                for m in list(re.finditer(a, l))[:3]:
                    x = l[:m.start()] + (b(m) if callable(b) else b) + l[m.end():]
                    if a.startswith(r'\bif'):
                        k = x.rfind(')'); x = x[:k] + ')' + x[k:] if k > 0 else x
                    if a.startswith("L?'") and not m[0].startswith('L'): x = x.replace("L'#'", "'#'")
                    r.append((f, n, l, x))
    return r
R = random.Random(SEED); ms = mutants(); R.shuffle(ms)
print(len(ms), 'possible'); log = open(OUT, 'a'); killed = bad = 0; left = []
done = 0
for f, n, old, new in ms:
    if done >= COUNT: break
    checks = next(c for rx, c in MAP if re.search(rx, f))
    if not checks: continue
    p = M + '/' + f; src = open(p, encoding='utf-8', errors='surrogateescape').read(); ls = src.split('\n'); ls[n] = new
    open(p, 'w', encoding='utf-8', errors='surrogateescape').write('\n'.join(ls)); t0 = time.time()
    verdict = 'SURVIVED'
    for c in checks.split():
        try: q = subprocess.run([V + '/check.py', c, '--tier', 'quick'], cwd=V, env=dict(os.environ, VERIF_REPO=M, VERIF_FAILFAST='1', VERIF_EVIDENCE='/tmp'), capture_output=True, text=True, timeout=900)
        except subprocess.TimeoutExpired: verdict = 'TIMEOUT ' + c; break
        if q.returncode == 1: verdict = 'killed ' + c; break
        if q.returncode != 0:
            verdict = 'nobuild' if 'compiling' in q.stdout or 'javac' in q.stdout + q.stderr else 'ERROR %s %s' % (c, (q.stdout + q.stderr)[-200:].replace('\n', ' ')); break
    open(p, 'w', encoding='utf-8', errors='surrogateescape').write(src)
    if verdict != 'nobuild': done += 1
    log.write('%s\t%.0f\t%s:%d\t%s\t=>\t%s\n' % (verdict, time.time() - t0, f, n + 1, old.strip(), new.strip())); log.flush()
