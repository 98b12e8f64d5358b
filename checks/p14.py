import runner
build_all, run = runner.standard('P14', 'A case is one damaged dictionary, opened twice (allocated blocks, mapped files and open files are compared), followed by the opening of a good dictionary and queries to a handle opened before; or one history of openings and closings. Every call is one transition. A state is a distinct error message.', [('p14', 'opt', [], ''), ('p14', 'asan', ['--small'], 'asan:')])
