import build, runner
RULE = 'A case is one sequence of option changes and queries on one handle, ending in a query; every operation is one transition. The last answer is compared with the answer of a handle opened afresh with only the options in force (every shorter sequence is a case of its own). A state is a distinct (query, answer).'
def build_all(tier):
    return build.build_harness('p01', 'opt'), build.build_harness('p01', 'asan')
def run(tier):
    o, a = build_all(tier)
    c = runner.Check('P01', tier, rule=RULE)
    c.harness(o, timeout=800 if tier == 'quick' else 20000)
    c.harness(a, ['--small'], timeout=800 if tier == 'quick' else 7200, tag='asan:')
    return c.finish()
