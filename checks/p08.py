import runner
build_all, run = runner.standard('P08',
    'A case is one compiled network, opened as a dictionary and queried twice with every word of the family; every lookup is one transition. A state is a distinct set of readings.',
    [('p08', 'opt', [], ''), ('p08', 'asan', ['--small'], 'asan:')])
