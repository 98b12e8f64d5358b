import runner
build_all, run = runner.standard('P13', 'A case is one population of the search path (user path, two environment directories, home, /etc, two system directories; those outside the scratch area are stood in for by scratch directories); dictionaries and capabilities are listed and every language tag of the list is opened under every selected value of the variant variable; every call is one transition. A state is a distinct listing.', [('p13', 'opt', [], ''), ('p13', 'asan', ['--small'], 'asan:')])
