import runner
build_all, run = runner.standard('P03',
    'A case is one lexicon with one misspelling in all letter cases and option sets, or one target word with every input over an alphabet; each suggestion call is one transition. The list is compared with the set of dictionary words one supported slip away. A state is a distinct suggestion.',
    [('p03', 'opt', [], ''), ('p03', 'asan', ['--small'], 'asan:')])
