import runner
build_all, run = runner.standard('P20', 'A case is one group of hostile strings, one length, one option value, one history or one directory, asked twice from a handle of its own with different contents of fresh memory and with the arguments at either side of an inaccessible page. Every call is one transition; afterwards the process must hold exactly what it held before, and both rounds must agree; a state is a distinct set of answers.', [('p20', 'opt', [], ''), ('p20', 'asan', ['--small'], 'asan: ')])
