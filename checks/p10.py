import runner
build_all, run = runner.standard('P10', 'A case is one text, or one sequence of calls; a text is paged through by skip count, with another text in between, from every start position, at every length (also from buffers that end there or go on with other text) and in bytes; every call is one transition. A state is a distinct list of errors or answer.', [('p10', 'opt', [], ''), ('p10', 'asan', ['--small'], 'asan:')])
