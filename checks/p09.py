import runner
build_all, run = runner.standard('P09',
    'A case is one network, written as text in two line orders, compiled in every byte order, decoded independently and queried through the library; each compilation and lookup is one transition. A state is a distinct set of weighted readings.',
    [('p09', 'opt', [], '', 'voikkovfstc'), ('p09', 'asan', ['--small'], 'asan:', 'voikkovfstc')])
