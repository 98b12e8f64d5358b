import os
import build, runner
RULE = 'A case is one argument, setting, history or opening for the JavaScript binding, running in Node on an emulated 32-bit memory whose blocks are all guarded. Every method call is one transition, compared with the answer of the C interface on an equally treated handle; all memory must be released as it was allocated. States are distinct answers.'
def build_all(tier):
    lib = build.build_shared('opt')
    mk = build.build_harness('mkdicts', 'opt')
    obj = build.compile_one('g++', ['-std=c++17', '-O2', '-fPIC', '-I/usr/include/node', '-I' + build.REPO + '/libvoikko/src', '-DBUILDING_NODE_EXTENSION'], build.VERIF + '/harness/js/addon.cpp', build.own_hash() + build.header_hash())
    addon = build.BUILD + '/addon/voikko.node'
    os.makedirs(os.path.dirname(addon), exist_ok=True)
    build.link('g++', ['-shared', '-Wl,--no-as-needed', '-Wl,-rpath,' + lib, '-L' + lib], [obj], addon, ['-lvoikko'])
    return build.launcher('p24', ['PYTHONDONTWRITEBYTECODE=1'], ['python3', build.VERIF + '/harness/p24.py', '--lib', lib, '--addon', addon, '--api', build.REPO + '/libvoikko/js/libvoikko_api.js', '--mkdicts', mk])
def run(tier):
    exe = build_all(tier)
    c = runner.Check('P24', tier, rule=RULE)
    c.harness(exe, [], timeout=840 if tier == 'quick' else 10800)
    return c.finish()
