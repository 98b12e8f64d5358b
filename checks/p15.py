import runner
build_all, run = runner.standard('P15', 'A case is a pair of operations in two threads with a set of schedules (64 preemption points), or a sequence of operations on two handles in one thread. Every complete execution of the real library under the controlled scheduler is one transition (two for the pairs run in turn); a state is a distinct schedule. The pairs in turn also run under ThreadSanitizer with nothing that orders the two threads, so every conflicting access is reported whatever the schedule.', [('p15', 'sched', [], ''), ('p15', 'tsan', ['--no-watchdog'], 'tsan:')])
