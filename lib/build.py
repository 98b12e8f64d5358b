"""Builds libvoikko, its tools and the harnesses from /repo's working tree into /verif/build."""
import hashlib, os, subprocess, sys, glob, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = REPO + '/libvoikko/src'
BUILD = VERIF + '/build'
JOBS = os.cpu_count() or 4

BASE = ['-std=c++17', '-DHAVE_CONFIG_H', '-fvisibility=hidden', '-w', '-fPIC', '-I' + VERIF + '/lib/config', '-I' + SRC]
VARIANTS = {
    'opt': ('g++', ['-O2', '-g1']),
    'asan': ('g++', ['-O1', '-g1', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-sanitize=vptr,alignment', '-fno-omit-frame-pointer']),
    'tsan': ('g++', ['-O1', '-g1', '-fsanitize=thread']),
    'sched': ('g++', ['-O1', '-g1', '-fsanitize-coverage=trace-pc']),
}
EXCLUDE = ('Cg', 'Lttoolbox', 'V4DictionaryLoader')

class BuildError(Exception):
    pass

def sources():
    r = []
    for d, dirs, files in os.walk(SRC):
        dirs.sort()
        if os.path.relpath(d, SRC).split('/')[0] == 'tools':
            continue
        for f in sorted(files):
            if f.endswith('.cpp') and not f.startswith(EXCLUDE):
                r.append(os.path.join(d, f))
    return r

_hdr = None
def header_hash():
    global _hdr
    if _hdr is None:
        h = hashlib.sha256()
        for d, dirs, files in os.walk(SRC):
            dirs.sort()
            for f in sorted(files):
                if f.endswith(('.h', '.hpp')):
                    p = os.path.join(d, f)
                    h.update(p.encode()); h.update(open(p, 'rb').read())
        h.update(open(VERIF + '/lib/config/config.h', 'rb').read())
        _hdr = h.hexdigest()
    return _hdr

def compile_one(cxx, flags, src, extra_key=''):
    h = hashlib.sha256()
    h.update(' '.join([cxx] + flags + [src, header_hash(), extra_key]).encode())
    h.update(open(src, 'rb').read())
    obj = '%s/obj/%s.o' % (BUILD, h.hexdigest()[:32])
    if not os.path.exists(obj):
        os.makedirs(BUILD + '/obj', exist_ok=True)
        tmp = obj + '.%d.tmp' % os.getpid()
        p = subprocess.run([cxx] + flags + ['-c', src, '-o', tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise BuildError('compiling %s failed:\n%s' % (src, p.stdout[-4000:]))
        os.rename(tmp, obj)
    return obj

def lib_objects(variant, pool):
    cxx, fl = VARIANTS[variant]
    return [pool.submit(compile_one, cxx, BASE + fl, s) for s in sources()]

def link(cxx, flags, objs, out, libs):
    h = hashlib.sha256(' '.join([cxx] + flags + objs + libs + [out]).encode()).hexdigest()
    stamp = out + '.stamp'
    if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == h:
        return
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = out + '.%d.tmp' % os.getpid()
    p = subprocess.run([cxx] + flags + objs + ['-o', tmp] + libs, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError('linking %s failed:\n%s' % (out, p.stdout[-4000:]))
    os.rename(tmp, out)
    open(stamp, 'w').write(h)

def own_hash():
    h = hashlib.sha256()
    for f in sorted(glob.glob(VERIF + '/lib/*.hpp')):
        h.update(open(f, 'rb').read())
    return h.hexdigest()

def prune():
    """Keep the object cache bounded."""
    d = BUILD + '/obj'
    if os.path.isdir(d):
        fs = sorted((os.path.getmtime(os.path.join(d, f)), f) for f in os.listdir(d))
        for _, f in fs[:-1500]:
            try: os.unlink(os.path.join(d, f))
            except OSError: pass

LIBS = ['-lhfstospell', '-lpthread']

def build_harness(name, variant, extra_flags=(), extra_link=(), whole_lib=True, tool=None, tool_variant=None):
    """name: harness/<name>.cpp; tool: optional tool source compiled with main renamed and linked in."""
    cxx, fl = VARIANTS[variant]
    with ThreadPoolExecutor(JOBS) as pool:
        objs = lib_objects(variant, pool) if whole_lib else []
        # harness code itself is not instrumented for coverage
        hfl = [f for f in fl if 'sanitize-coverage' not in f]
        mine = pool.submit(compile_one, cxx, ['-std=c++17', '-Wall', '-I' + VERIF + '/lib', '-I' + SRC] + hfl + list(extra_flags), '%s/harness/%s.cpp' % (VERIF, name), own_hash())
        tfl = VARIANTS[tool_variant or variant][1]
        tools = [pool.submit(compile_one, cxx, BASE + tfl + ['-DHAVE_PTHREAD', '-pthread'] + list(extra_flags), '%s/tools/%s.cpp' % (SRC, t)) for t in ([tool] if tool else [])]
        objs = [o.result() for o in objs] + [mine.result()] + [rename_main(t.result(), tool) for t in tools]
    out = '%s/bin/%s-%s%s' % (BUILD, name, variant, '-' + tool_variant if tool_variant else '')
    link(cxx, hfl, objs, out, LIBS + list(extra_link))
    return out

def rename_main(obj, tool):
    # the symbol is renamed in the object, so that falling off the end of main() keeps its meaning
    out = obj[:-2] + '.main.o'
    if not os.path.exists(out):
        tmp = out + '.%d.tmp' % os.getpid()
        subprocess.run(['objcopy', '--redefine-sym', 'main=%s_main' % tool, obj, tmp], check=True)
        os.rename(tmp, out)
    return out

def build_shared(variant='opt'):
    """A shared library for the bindings."""
    cxx, fl = VARIANTS[variant]
    with ThreadPoolExecutor(JOBS) as pool:
        objs = [o.result() for o in lib_objects(variant, pool)]
    d = '%s/shared-%s' % (BUILD, variant)
    link(cxx, fl + ['-shared', '-Wl,-soname,libvoikko.so.1'], objs, d + '/libvoikko.so.1', LIBS)
    if not os.path.exists(d + '/libvoikko.so'):
        try: os.symlink('libvoikko.so.1', d + '/libvoikko.so')
        except FileExistsError: pass
    return d

def build_tool(tool, variant='opt', extra_flags=(), extra_objs=(), extra_link=(), suffix=''):
    cxx, fl = VARIANTS[variant]
    with ThreadPoolExecutor(JOBS) as pool:
        lib = lib_objects(variant, pool)
        t = pool.submit(compile_one, cxx, BASE + fl + ['-DHAVE_PTHREAD', '-pthread'] + list(extra_flags), '%s/tools/%s.cpp' % (SRC, tool))
        objs = [o.result() for o in lib] + [t.result()] + list(extra_objs)
    out = '%s/bin/%s-%s%s' % (BUILD, tool, variant, suffix)
    link(cxx, fl, objs, out, LIBS + list(extra_link))
    return out

def build_plain_shared(name):
    """harness/<name>.cpp alone as a shared library (preloaded into a binding's process)."""
    obj = compile_one('g++', ['-std=c++17', '-O2', '-fPIC'], '%s/harness/%s.cpp' % (VERIF, name), own_hash())
    out = '%s/bin/lib%s.so' % (BUILD, name)
    link('g++', ['-shared'], [obj], out, [])
    return out

def launcher(name, env, cmd):
    """A script that runs a harness not written in C++ with the arguments every harness takes."""
    import shlex
    out = '%s/bin/%s' % (BUILD, name)
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = out + '.%d.tmp' % os.getpid()
    with open(tmp, 'w') as f:
        f.write('#!/bin/sh\nexec env %s %s "$@"\n' % (' '.join(map(shlex.quote, env)), ' '.join(map(shlex.quote, cmd))))
    os.chmod(tmp, 0o755)
    os.rename(tmp, out)
    return out
