import runner
build_all, run = runner.standard('P16', 'A case is one input, option set and thread count with a set of schedules of the workers. Every complete run of the real tool under the controlled scheduler is one transition; a state is a distinct schedule. Output, messages and exit status are compared with the single-threaded run.', [('p16', 'opt', [], '', 'voikkospell', 'sched'), ('p16', 'tsan', ['--no-watchdog', '--small'], 'tsan:', 'voikkospell')])
