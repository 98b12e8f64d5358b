import runner
build_all, run = runner.standard('P12', 'A case is one byte string given to every byte-string function of three differently configured handles, and, if it is UTF-8, to the wide-character functions as well; every call is one transition. A state is a distinct (spelling verdict, length).', [('p12', 'opt', [], ''), ('p12', 'asan', ['--small'], 'asan:')])
