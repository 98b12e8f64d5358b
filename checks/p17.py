import build, runner
RULE = 'A case is one run of a tool (built from the tree) with an option sequence and an input; its output, messages and status are compared with the rendering of the answers the library gives in the harness. Every run is one transition; a state is a distinct expected output.'
TOOLS = ('voikkospell', 'voikkohyphenate', 'voikkogc')
def build_all(tier):
    r = []
    for v in ('opt', 'asan'):
        a = []
        for t in TOOLS: a += ['--' + t, build.build_tool(t, v)]
        r.append(a)
    return build.build_harness('p17', 'opt'), r
def run(tier):
    exe, (opt, asan) = build_all(tier)
    c = runner.Check('P17', tier, rule=RULE)
    c.harness(exe, opt, timeout=800 if tier == 'quick' else 10800)
    c.harness(exe, asan + ['--small'], timeout=800 if tier == 'quick' else 10800, tag='asan:')
    return c.finish()
