import glob, hashlib, os, shutil, subprocess
import build, runner
RULE = 'A case is one argument, setting, history or pair of calls for the Java class, running in a virtual machine of its own. Every method call is one transition, compared with the answer of the C interface on an equally treated handle and with the storage that call holds; for two threads, every native call of the first method is a stopping point. A state is a distinct answer.'
def classes():
    src = sorted(glob.glob(build.REPO + '/libvoikko/java/src/main/java/**/*.java', recursive=True)) + [build.VERIF + '/harness/java/Server.java']
    key = hashlib.sha256(b''.join(f.encode() + open(f, 'rb').read() for f in src)).hexdigest()[:20]
    d = '%s/java-%s' % (build.BUILD, key)
    if os.path.isdir(d): return d
    for old in glob.glob(build.BUILD + '/java-*'): shutil.rmtree(old, ignore_errors=True)
    t = d + '.tmp%d' % os.getpid(); os.makedirs(t)
    r = subprocess.run(['javac', '--release', '8', '-nowarn', '-Xlint:none', '-encoding', 'UTF-8', '-cp', '/usr/share/java/jna.jar', '-d', t] + src, capture_output=True, text=True)
    if r.returncode: raise SystemExit('javac failed:\n' + r.stderr[-3000:])
    os.rename(t, d)
    return d
def build_all(tier):
    lib = build.build_shared('opt')
    mk = build.build_harness('mkdicts', 'opt')
    shim = build.build_plain_shared('newcount')
    obj = build.compile_one('g++', ['-std=c++17', '-O2', '-fPIC'], build.VERIF + '/harness/jgate.cpp', build.own_hash())
    gate = build.BUILD + '/gate/libvoikko.so.1'
    os.makedirs(os.path.dirname(gate), exist_ok=True)
    build.link('g++', ['-shared', '-Wl,-soname,libvoikkogate.so', '-Wl,--no-as-needed', '-Wl,-rpath,' + lib, '-L' + lib], [obj], gate, ['-lvoikko', '-ldl', '-pthread'])
    return build.launcher('p21', ['LD_PRELOAD=' + shim, 'PYTHONDONTWRITEBYTECODE=1'], ['python3', build.VERIF + '/harness/p21.py', '--lib', lib, '--classes', classes(), '--gate', gate, '--mkdicts', mk])
def run(tier):
    exe = build_all(tier)
    c = runner.Check('P21', tier, rule=RULE)
    c.harness(exe, [], timeout=840 if tier == 'quick' else 10800)
    return c.finish()
