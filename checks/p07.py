import runner
build_all, run = runner.standard('P07',
    'A case is one lexicon (one or more marked-up entries) opened as a Finnish dictionary; the word is analysed in three letter-case forms through both interfaces, each analysis is one transition. A state is a distinct set of grammatical readings.',
    [('p07', 'opt', [], ''), ('p07', 'asan', ['--small'], 'asan:')])
