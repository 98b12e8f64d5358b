import build, runner
RULE = 'A case is one text, split into sentences to its end with both values of the trailing-dot option; every call is one transition. A state is a distinct sequence of (sentence type, length).'
def build_all(tier):
    return build.build_harness('p05', 'opt'), build.build_harness('p05', 'asan')
def run(tier):
    o, a = build_all(tier)
    c = runner.Check('P05', tier, rule=RULE)
    c.harness(o, timeout=800 if tier == 'quick' else 7200)
    c.harness(a, ['--small'], timeout=800 if tier == 'quick' else 7200, tag='asan:')
    return c.finish()
