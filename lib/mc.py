"""Enumerator for harnesses written in Python; same files and arguments as lib/mc.hpp."""
import ctypes, hashlib, itertools, mmap, os, struct, sys, threading, time

class Explorer:
    def __init__(self, argv):
        self.thorough = False; self.shard = 0; self.shards = 1; self.out = '.'; self.only = None; self.upto = None; self.hang = 30; self.opt = {}
        i = 1
        while i < len(argv):
            a, v = argv[i], argv[i + 1]; i += 2
            if a == '--tier': self.thorough = v == 'thorough'
            elif a == '--shard': self.shard = int(v)
            elif a == '--shards': self.shards = int(v)
            elif a == '--out': self.out = v
            elif a == '--only': self.only = tuple(map(int, v.split(':')))
            elif a == '--upto': self.upto = tuple(map(int, v.split(':')))
            elif a == '--hang': self.hang = int(v)
            else: self.opt[a[2:]] = v
        self.family = 0; self.index = 0; self.cases = 0; self.steps = 0; self.failures = 0; self.stop = False
        self.states = set(); self.samples = []; self.families = {}; self.name = ''
        f = open('%s/current.%d' % (self.out, self.shard), 'wb+'); f.truncate(28 + 8192); f.flush()
        self.sh = mmap.mmap(f.fileno(), 28 + 8192); self.progress = 0; self.inCase = False
        self.failFile = open('%s/fail.%d' % (self.out, self.shard), 'w', encoding='utf-8', errors='backslashreplace')
        threading.Thread(target=self._watch, daemon=True).start()

    def _watch(self):
        last, stuck = -1, 0
        while True:
            time.sleep(1)
            if self.inCase and last == self.progress:
                stuck += 1
                if stuck >= self.hang: os._exit(78)
            else: stuck, last = 0, self.progress

    def start(self, name):
        self.inCase = False; self.name = name; self.family += 1; self.index = 0; self.families.setdefault(name, 0)

    def take(self):
        self.inCase = False
        i = self.index; self.index += 1
        if self.stop: return False
        if self.only:
            if self.only != (self.family, i): return False
        else:
            if i % self.shards != self.shard: return False
            if self.upto and (self.family, i) > self.upto: self.stop = True; return False
        self.progress += 1; self.inCase = True; self.case = i; self.cases += 1; self.families[self.name] += 1
        struct.pack_into('QQQI', self.sh, 0, self.family, i, self.progress, 1)
        self.sh[28:29] = b'\0'
        return True

    def desc(self, d):
        self.d = d
        b = d.encode('utf-8', 'backslashreplace').replace(b'\0', b'\\0')[:8000] + b'\0'
        self.sh[28:28 + len(b)] = b
        if len(self.samples) < 6 and self.cases & (self.cases - 1) == 0: self.samples.append(self.name + ': ' + d)

    def step(self, n=1): self.steps += n
    def state(self, s):
        if len(self.states) < 3000000: self.states.add(int.from_bytes(hashlib.blake2b(s.encode('utf-8', 'backslashreplace'), digest_size=8).digest(), 'little'))

    def fail(self, msg, d=None):
        self.failures += 1
        c = lambda s: s.replace('\n', ' ').replace('\t', ' ').replace('\0', '\\0').replace('\r', ' ')
        self.failFile.write('%d\t%d\t%s\t%s\t%s\n' % (self.family, self.case, self.name, c(d or self.d)[:1500], c(msg)[:1500])); self.failFile.flush()
        if self.failures >= 200: self.stop = True

    def finish(self):
        self.inCase = False
        with open('%s/stats.%d' % (self.out, self.shard), 'w', encoding='utf-8', errors='backslashreplace') as f:
            f.write('cases\t%d\nsteps\t%d\nfailures\t%d\n' % (self.cases, self.steps, self.failures))
            for k, v in self.families.items(): f.write('family\t%s\t%d\n' % (k, v))
            for s in self.samples: f.write('sample\t%s\n' % s.replace('\n', ' ').replace('\t', ' ').replace('\r', ' ').replace('\0', '\\0'))
        with open('%s/states.%d' % (self.out, self.shard), 'wb') as f:
            for s in self.states: f.write(struct.pack('Q', s))
        self.failFile.close()
        sys.stdout.flush(); sys.stderr.flush()
        return 1 if self.failures else 0

def strings(alphabet, lo, hi):
    for n in range(lo, hi + 1):
        for t in itertools.product(alphabet, repeat=n): yield ''.join(t)
