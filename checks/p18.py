import os
import build, runner
RULE = 'A case is one argument, setting or history for the Python class. Every method call is one transition, compared with the answer of the C interface on an equally treated second handle (own prototypes) and with the storage that call holds; a state is a distinct answer.'
def build_all(tier):
    lib = build.build_shared('opt')
    mk = build.build_harness('mkdicts', 'opt')
    shim = build.build_plain_shared('newcount')
    return build.launcher('p18', ['LD_PRELOAD=' + shim, 'PYTHONDONTWRITEBYTECODE=1'], ['python3', build.VERIF + '/harness/p18.py', '--lib', lib, '--py', build.REPO + '/libvoikko/python/libvoikko.py', '--mkdicts', mk])
def run(tier):
    exe = build_all(tier)
    c = runner.Check('P18', tier, rule=RULE)
    c.harness(exe, [], timeout=800 if tier == 'quick' else 10800)
    return c.finish()
