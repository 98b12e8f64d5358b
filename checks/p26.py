import build, runner
RULE = 'A case is one word with one inflection class and vowel type, one compound of it, one stem of the enumerated shape with one gradation, one string for vowel harmony, or one row of an inflection table. Every form asked of the library is one transition; a state is a distinct combination of class, gradation and set of form names.'
def build_all(tier):
    return build.launcher('p26', ['PYTHONDONTWRITEBYTECODE=1'], ['python3', build.VERIF + '/harness/p26.py', '--repo', build.REPO])
def run(tier):
    exe = build_all(tier)
    c = runner.Check('P26', tier, rule=RULE)
    c.harness(exe, [], timeout=800 if tier == 'quick' else 10800)
    return c.finish()
