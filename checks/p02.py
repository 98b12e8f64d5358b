import runner
build_all, run = runner.standard('P02',
    'A case is one word with one lexicon (or one small lexicon with all words of the stated alphabet); the word is checked under every option combination that can matter through both interfaces, each call is one transition. A state is a distinct word and verdict.',
    [('p02', 'opt', [], ''), ('p02', 'asan', ['--small'], 'asan:')])
