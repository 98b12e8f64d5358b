import runner
build_all, run = runner.standard('P06',
    'A case is one word (unknown) or one lexicon and word; it is hyphenated under every option combination through all three interfaces, each call is one transition. A state is a distinct pattern.',
    [('p06', 'opt', [], ''), ('p06', 'asan', ['--small'], 'asan:')])
