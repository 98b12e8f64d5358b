import runner
build_all, run = runner.standard('P22', 'A case is one history of openings, closings, options and questions with handle numbers, or one text, option or language. Every call of the deprecated interface is one transition, compared with the current interface on an equally configured handle; a state is a distinct answer.', [('p22', 'opt', [], ''), ('p22', 'asan', ['--small'], 'asan: ')])
