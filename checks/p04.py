import build, runner
RULE = 'A case is one text, tokenised to its end with both values of the trailing-dot option; every call is one transition. A state is a distinct sequence of (token kind, length up to 9).'
def build_all(tier):
    return build.build_harness('p04', 'opt'), build.build_harness('p04', 'asan')
def run(tier):
    o, a = build_all(tier)
    c = runner.Check('P04', tier, rule=RULE)
    c.harness(o, timeout=800 if tier == 'quick' else 7200)
    c.harness(a, ['--small'], timeout=800 if tier == 'quick' else 7200, tag='asan:')
    return c.finish()
