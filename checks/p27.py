import build, runner
RULE = 'A case is one text for the readability statistics, one input for the grammar report, one word list (whole, or cut after one line) or one flag list. Every figure, printed error and word handed over is one transition; a state is a distinct answer.'
def build_all(tier):
    lib = build.build_shared('opt')
    mk = build.build_harness('mkdicts', 'opt')
    return build.launcher('p27', ['PYTHONDONTWRITEBYTECODE=1'], ['python3', build.VERIF + '/harness/p27.py', '--lib', lib, '--repo', build.REPO, '--mkdicts', mk])
def run(tier):
    exe = build_all(tier)
    c = runner.Check('P27', tier, rule=RULE)
    c.harness(exe, ['--hang', '10'], timeout=800 if tier == 'quick' else 10800)
    return c.finish()
