import runner
build_all, run = runner.standard('P23', 'A case is one pair of weighted error model and acceptor, written by an independent writer of the file format, with all words asked of it. Every query is one transition, compared with brute-force composition of the two networks; a state is a distinct answer.', [('p23', 'opt', [], ''), ('p23', 'asan', ['--small'], 'asan: ')])
