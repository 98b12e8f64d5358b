import runner
build_all, run = runner.standard('P19', 'A case is one block of code points, one letter, or one word of mixed character forms. Every query of the library is one transition, compared with the answer for the plain form or the class and counterpart of the character in the reference (itself compared with the C library\'s Unicode tables); a state is a distinct pair of plain form and answer.', [('p19', 'opt', [], ''), ('p19', 'asan', ['--small'], 'asan: ')])
