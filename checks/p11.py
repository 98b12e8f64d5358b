import runner
build_all, run = runner.standard('P11', 'A case is one text, checked to its last error under each of the selected combinations of the three grammar options; every call is one transition. The errors (code, place, length, suggestions) are compared with those of an independent checker that knows only the lexicon and the rules. A state is a distinct (options, sequence of error codes).', [('p11', 'opt', [], ''), ('p11', 'asan', ['--small'], 'asan:')])
