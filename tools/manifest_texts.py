TRUST = ' Trusts the compiler, libc and the reference written from the documentation in lib/ and harness/.'
X = 'bounded exhaustive exploration of the real code against a reference model'
T = {
 'P04': (X, 'Every text over the stated alphabets up to the stated length is tokenised through both interfaces by the real library and compared with an independent reference tokeniser.' + TRUST),
 'P05': (X, 'Every text over the stated alphabets up to the stated length is split by the real library and compared with an independent reference.' + TRUST),
 'P08': (X, 'Every small network of the stated families is written in the binary format and every short word looked up; results are compared with direct path enumeration.' + TRUST),
 'P09': (X, 'Every small network of the stated families is compiled by the real compiler for both byte orders; the file is decoded and loaded and compared with the text.' + TRUST),
 'P02': (X, 'Every word over the stated alphabets up to the stated length is spelled under every combination of the spelling options with every enumerated lexicon, through the real library; the verdict is compared with a reference written from the documented option semantics.' + TRUST),
 'P03': (X, 'Every misspelling over the stated alphabets is given to the real suggestion generator under each strategy; results are compared with the set of accepted words the documented edit operations reach, for order-independent guarantees (accepted, distinct, reachable, complete when few, bounded).' + TRUST),
 'P01': (X, 'Every sequence of option changes and queries up to the stated depth runs on one handle of the real library; every answer is compared with that of a handle opened afresh with the same options, so caches and leftovers of earlier calls cannot hide. Trusts the compiler, libc and that a fresh handle is right (the other properties decide that).'),
 'P10': (X, 'Every text over the stated token alphabets up to the stated length is paged through by skip count, start position and text length in the real library, from buffers that end there or continue with other text; answers are compared with the list model. All call sequences up to the stated depth are compared with fresh handles.' + TRUST),
 'P11': (X, 'Every text over the stated word and mark alphabets up to the stated length is checked by the real library under the grammar options and the errors (code, place, length, suggestions) compared with an independent reference checker working from the lexicon and the rules.' + TRUST),
 'P06': (X, 'Every word of the enumerated lexicons and every short unknown word is hyphenated under every option combination; the pattern is compared with a reference and the word must survive insertion of hyphens.' + TRUST),
 'P07': (X, 'Every lexicon entry built from the enumerated tag sequences is analysed by the real analyser and each attribute compared with a reference decoder of the documented tag language.' + TRUST),
 'P12': (X, 'Every byte string over the stated alphabets of UTF-8 fragments (valid, cut, overlong, surrogate, out of range) up to the stated length, and every length around the documented limits, is given to each byte-string function of the real library; answers are compared with those of the wide-character functions for the decoded text, or with the documented refusal for malformed input.' + TRUST),
 'P13': (X, 'Every population of the search path within the bounds (locations x language tags x capabilities x scripts) is laid out in scratch directories, listed and opened through the real library; listings and choices are compared with a reference of the documented search order. Home, /etc and system directories are redirected to scratch by interposed file functions.' + TRUST),
 'P14': (X + ' with exhaustive fault enumeration', 'Every cut point, every missing file and every enumerated damage of a dictionary is opened by the real library; the result must be a refusal with a message and no leaked block, mapping or file, and a handle opened before and a good dictionary opened afterwards must answer as always. Runs with counted allocation and under AddressSanitizer.' + TRUST),
 'P15': ('stateless model checking of the real library under a controlled scheduler', 'Two or three threads, each with a handle of its own, run enumerated operations with every schedule up to the stated preemption bound (preemption points: every allocation, mutex, guard and instrumented point); answers are compared with those given alone, and every schedule of the ThreadSanitizer build runs serially without creating order, so each race is reported deterministically.' + TRUST),
 'P16': ('stateless model checking of the real tool under a controlled scheduler', 'The real voikkospell runs with a controlled scheduler that owns thread creation, joining, mutexes and conditions; all schedules up to the stated preemption bound are run for every enumerated input, and output, messages and status compared with the sequential run.' + TRUST),
 'P17': (X, 'Every option sequence up to the stated length and every input over the stated alphabets is given to the real tools, and output, messages and exit status compared with a rendering of the answers of the library.' + TRUST),
 'P18': (X, 'Every text over the stated alphabets, every setter and pair of setters with every value class, every wrong argument, every opening and every history of instances up to the stated depth runs through the real Python class and the built library; answers and held storage are compared with the C interface on a second handle. Trusts CPython, ctypes and the C interface (the other properties decide that).'),
 'P19': (X, 'Every code point, every letter with every combining mark, every word of the stated character forms up to the stated length and every letter case pattern of the stated words is given to the real library; answers are compared with those for the plain form and with Unicode case pairs.' + TRUST),
 'P20': (X, 'Every string over an adversarial alphabet up to the stated length, every length around the internal limits, every option value, every byte string and every short history is put to every function of the real library, with arguments lying at an inaccessible page, fresh memory filled with two different patterns and all storage counted; and again under AddressSanitizer and UBSan. No crash, no hang, no difference between the two fillings, nothing held afterwards.' + TRUST),
 'P21': (X + ' and of its thread schedules', 'Every text over the stated alphabets, every setter and pair of setters, every opening, every history of instances up to the stated depth runs through the real Java class and the built library in a virtual machine; answers and held storage are compared with the C interface. For every pair of methods the first thread is stopped inside each of its native calls while the second one runs: no second entry into the handle, and answers of some order of the calls. Trusts the JVM, JNA and the C interface (the other properties decide that).'),
 'P22': (X, 'Every history of openings, closings, options and questions up to the stated depth, every option and value, and every text up to the stated length is put to the deprecated interface and to the current one in the real library; the answers and what the process holds afterwards are compared.' + TRUST),
 'P23': (X, 'Every error model of the stated shapes with every set of edits, every acceptor over the stated words, every placement of flags and every word up to the stated length is given to the real library; the suggestions are compared with brute-force composition of the two networks, and spelling verdicts with the set of words.' + TRUST),
 'P24': (X, 'Every text over the stated alphabets, every setter and pair of setters, every opening and every history of instances up to the stated depth runs through the real JavaScript interface in Node on an emulated 32-bit memory with guarded blocks, calling the real library; answers are compared with the C interface and every block must be released once. Trusts Node and the emulation of the Emscripten runtime functions.'),
 'P25': ('exhaustive enumeration of the words of the built networks, compared with a reference network and a selection model, replayed on the library', 'The real voikko-fi build runs with 33,500 recovered dictionary words and with invented words in every enumerated configuration. All words of the listed base forms within the stated numbers of parts, derivations, possessives and clitics are enumerated in the built network and in the network of the published dictionary and must agree with their tags; presence of the invented words is compared with the selection rules for every combination of flags and options; forms are also analysed by the real library. Trusts foma, Python, make and the published dictionary as the reference.'),
 'P26': ('exhaustive enumeration of vocabulary, stem and table spaces on the real library, compared with the forms of the dictionary and an executable model of gradation and harmony', 'The real voikkoinfl.py with the real tables inflects every word of the recovered vocabulary; each form is compared with the forms that the published dictionary network accepts for that word, case and number. Gradation and harmony are decided on all stems and strings of the stated shapes by rules written independently; table reading on all combinations of row features. Trusts the published dictionary as the reference; forms for which it differs in free variants are compared one way.'),
 'P27': ('exhaustive enumeration of texts, inputs and list files on the real tools, compared with the C interface and an executable model of paragraphs, lists and formulas', 'The real modules and the real script run in process on every text, input, word list and flag list of the stated pools up to the stated length; every figure, printed line and word handed over is compared with what the C interface answers through own prototypes (a second handle) and with independently written formulas and paragraph rules. Bounded by pools and lengths; the Python 2 front ends are not run.'),
}
NA = {}
