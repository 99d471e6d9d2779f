"""The single source of properties.jsonl and MANIFEST.json (python3 meta/gen.py)."""
H, I, C, P = 'histories', 'inputs', 'configurations', 'programs'
PROPS = []
NA = {}


def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, state=(), na=None, observe=(), design=''):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state:
        d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe:
        d['anchors']['observe_at'] = list(observe)
    assert len(title) <= 80, title
    PROPS.append((d, technique, note, na, design))


prop('C01', 'No result depends on memory that was never given a value',
     'However an object of the library or of one of its programs is constructed, every number, flag or pointer it holds has been given a value before anything reads it. '
     'The same holds of every local variable: no path through a function reads one that nothing has assigned. '
     'Results therefore never depend on what memory happened to hold.',
     [I, C, P], 'for every constructor of every class, every path through every function body, and every order of member initialisation',
     'A test that reads an indeterminate value usually sees zero and passes; the wrong value needs a particular heap or stack history. Constructors that no test calls (older table_search signatures, EPS printing, printmethod) are never exercised.',
     ['ringing', 'apps'],
     [('member initialisers and constructor bodies', 'ringing/table_search.h, ringing/printps.cpp, ringing/printm.cpp, ringing/touch.h, apps/methsearch/search.cpp'),
      ('local declarations', 'ringing/*.cpp, apps/**/*.cpp')],
     'definite-assignment dataflow over the resolved AST (constructor member sets, init order, local paths)',
     'Every constructor of every class with scalar members and every function body in library and programs is analysed on all paths; out-parameters and aliases are treated as assigning, so undecided cases are reported in the evidence and not as violations. A local that only some paths assign is followed again with the outcomes of tests remembered; a loop is taken to run at least once there. An object without a constructor that is filled in part by part has every part that is read unguarded by then when it is used as a whole. Trusts clang\'s AST and the exporter.')

prop('C02', 'Comparison operators obey the laws of equality and order',
     'For every type the library makes comparable, == is an equivalence that agrees with !=, < is a strict weak ordering under which values that compare equal are never ordered, and >, <= and >= (where provided) agree with <; two values that differ in a part the comparison is about never compare equal. '
     'Function objects the library supplies or uses to order sets, maps and sorts are strict weak orderings too. '
     'No comparison between valid values, null handles included, faults.',
     [I], 'for every pair and triple of values, through every combination of orderings of the compared parts',
     'The tests compare a handful of rows and methods; a broken ordering corrupts a std::set or std::sort only for particular triples of values.',
     ['ringing', 'apps'],
     [('operator==, !=, <, >, <=, >=', 'ringing/row.h, ringing/change.h, ringing/method.h, ringing/bell.h, ringing/dimension.h, ringing/touch.h, ringing/group.h, ringing/multtab.h'),
      ('comparators given to ordered containers and sorts', 'ringing/extent.cpp, ringing/falseness.cpp, apps')],
     'exhaustive abstract interpretation of comparison bodies over all orderings of their field comparisons (finite oracle enumeration)',
     'Each comparison body is evaluated from the AST over every consistent assignment of outcomes to its primitive comparisons for up to three symbolic objects, so the laws are decided for all values; bodies outside the evaluator\'s fragment are listed undecided.')

prop('C03', 'Copies are complete, independent and of the same kind as the original',
     'Copying, assigning or swapping an object of the library or its programs carries over every part of its state that can be observed, leaves both objects valid and leaves the source of a copy unchanged; swapping exchanges the two states exactly; assigning an object to itself changes nothing. '
     'Asking a polymorphic object for a copy of itself yields an object of the same class with the same state. '
     'An object that owns a raw resource is never copied memberwise so that two objects own it.',
     [P, H], 'for every class with user-written or implicit copy, swap or clone operations, and every member of it',
     'A forgotten member in a swap or copy shows only when that member differs between the two objects and is read afterwards; tests copy few classes.',
     ['ringing', 'apps'],
     [('copy constructors, assignment, swap members and free swaps', 'ringing/row.h, ringing/method.h, ringing/falseness.cpp, ringing/multtab.cpp, ringing/touch.h, ringing/proof.h'),
      ('clone() overrides', 'ringing/touch.h, ringing/search_base.h, ringing/library.h, ringing/printm.h')],
     'member-complete copy/swap/clone analysis by token evaluation of the resolved AST',
     'swap bodies are evaluated with one symbolic token per member, copy operations must mention every member and take each on every path, clone bodies must construct the dynamic class from *this or rebuild it from every member; classes whose bodies leave the fragment are undecided.')

prop('C07', 'Errors in the input end a program with a report and a failing status',
     'No exception that the library or a program raises over its input (a bad bell, row, place notation, expression, number or library file) escapes main, or a destructor, which would end the program there and then; exhaustion of memory apart, every program ends by returning or exiting. '
     'Once a program has reported an error in its arguments no later path treats them as accepted, and the program ends with a non-zero status. '
     'An exception caught in main likewise ends in a non-zero status.',
     [I, P], 'for every program, every exception type the library raises, every path from main to where it is raised, and every path after an error report',
     'Tests feed each program a few valid command lines; there is one combination of option and bad value per validation, hundreds in all, and an uncaught exception type shows only for input that raises exactly it.',
     ['apps', 'ringing'],
     [('option processing and validation', 'apps/utils/args.cpp, apps/*/prog_args.cpp, apps/*/*.cpp'),
      ('main functions and their handlers', 'apps/*/main.cpp, apps/rowcalc/rowcalc.cpp, apps/splices/splices.cpp, apps/musgrep/musgrep.cpp')],
     'exception-escape fixpoint over the call graph and path-set dataflow of reported errors with function summaries',
     'All call paths from every main are covered, virtual calls included; exceptions of the C++ library other than the string-to-number ones are not modelled, nor is bad_alloc. Messages announcing a default or warning are not errors. expandargv (goto) is undecided.')

prop('C12', 'Every shared or raw resource is released exactly once, after its last use',
     'However the handles to an object are copied, assigned, reset and destroyed, in any order and including assignment to itself, the object lives while any handle refers to it and is destroyed exactly once after the last one goes; a copy-on-write handle never lets a change made through one copy show in another. '
     'Every XML node, file, file descriptor or C memory block a function or class takes is released exactly once on every path, early returns and exceptions included. '
     'An object destroyed through a base class is destroyed as what it is.',
     [H, P], 'for every sequence of operations on up to three handles to an object, and every path through each function that takes a resource',
     'A leak or a double release gives the same output; it shows only after many operations, or as heap corruption elsewhere. The tests run without leak checking and never take the error paths.',
     ['ringing', 'apps/utils'],
     [('owning pointers', 'ringing/pointers.h'), ('XML node references', 'ringing/dom_gdome.cpp'),
      ('descriptors and C memory', 'apps/utils/exec.cpp, apps/utils/argv.cpp'),
      ('handle classes', 'ringing/touch.h, ringing/library.h, ringing/libout.h, ringing/search_base.h')],
     'exhaustive abstract heap exploration of the owning pointers, plus typestate dataflow of raw resources on all paths',
     'Handle states are explored to closure for three handles over a symbolic heap; raw resources, objects made with new included, follow acquire/release typestate with throw edges. Aliasing of raw resources through containers is not followed. One function with goto is undecided.')


prop('C08', 'A search restores its state, keeps to its bounds and stops when asked',
     'Each recursive step of a search leaves the record of the touch under construction and of the leads used so far exactly as it found them, on every way back out of the step. '
     'A touch is output only after its length has been found to be at least the minimum and its end row to be rounds (or any block was wanted), and the search goes deeper only below the maximum length and marks as used only what it found unused. '
     'Once the consumer of the output has asked to stop, nothing more is output and no deeper step is taken.',
     [H, I], 'for every path through every recursive search step of the library and of the method searching program, whatever the method, calls, part ends, flags, and whichever output the consumer stops at',
     'The existing tests run a few complete searches; a state left behind on one early return, or an output after a stop, needs a particular search tree and a consumer that stops part way.',
     ['ringing/basic_search.cpp', 'ringing/table_search.cpp', 'ringing/search_base.h', 'apps/touchsearch', 'apps/methsearch/search.cpp'],
     [('run_recursive and its helpers', 'ringing/basic_search.cpp, ringing/table_search.cpp'),
      ('searcher steps', 'apps/methsearch/search.cpp')],
     'path-set dataflow over recursive search steps (net container growth per key, known conditions, stop-flag typestate)',
     'Helpers are inlined, named predicates and const locals are looked through; exceptions thrown through a step are not considered, and recursive calls are assumed to satisfy the same rule (induction over depth).')

prop('C09', 'A prover\'s verdict, counts and failures follow exactly from its rows',
     'Whatever rows are added to a prover, taken back or shared with the prover it was branched from, it says the touch is false exactly when some row it then holds occurs more often than permitted; its length, its duplicates, the count of each row and the failures listed (each false row with the numbers of all the lines it is on, in order) describe exactly those rows. '
     'Adding a row answers whether the touch is still true, and taking back the last row undoes adding it. '
     'A full proof examines every row it is given; a quick proof may stop only once the touch is false.',
     [H, I], 'for every history of adding, taking back and branching, every number of permitted occurrences and any rows',
     'Tests prove a few touches; wrong counts need a row three times over, more than one extent, a branch of a prover that is already false, or rows taken back and added again.',
     ['ringing/proof.h', 'ringing/proof.cpp'],
     [('adding, taking back and branching', 'ringing/proof.cpp prover::add_row, remove_row, create_branch'),
      ('counting', 'ringing/proof.cpp prover::count_row, size; ringing/proof.h truth, duplicates'),
      ('full and quick proof', 'ringing/proof.h proof<>::prove')],
     'abstract interpretation of one inductive step of each prover operation over a finite partition (occurrences here and in the branch, permitted, recording); typestate dataflow over the proof loops',
     'A prover state is abstracted to how often one row occurs in the prover (0-3) and in those branched from (0-2), the number permitted (none to 2, unlimited), whether failures are recorded and whether other rows are already false; each operation is interpreted from its syntax tree in every abstract state and must reach exactly the state describing one row more or less. Proof loops are decided by dataflow over range positions, verdict and quickness.',
     design='''The step is inductive, so histories of any length follow. `rl/machine.py` interprets the bodies over abstract
containers (a multimap holds the abstract row and one lower and one higher row; the list of failures holds other rows too);
members are told apart by the observers that return them. Comparisons of the number of occurrences with the number permitted
split the integers into finitely many classes, all of which are enumerated. Rules: exactly one row inserted, last among its
equals, with the next line number; the newest erased; verdict, duplicates, line number, listed lines and answer as the rows
demand; refusal leaves the state alone; `create_branch` agrees with its parent; constructors start empty; every overload of
`prove` hands on all its arguments; proof loops add each row once and stop early only when quick and false.''')

prop('C15', 'No answer depends on what earlier calls left behind',
     'Apart from the settings documented as process-wide (bell symbols, the word for untitled methods, the random source, library formats and paths, command line options and running totals), a call\'s answer depends only on its arguments and its object: a variable that outlives the call is neither fixed for good by the first call nor read before this call has given it a value. '
     'A result remembered to save time is used again only for exactly the arguments it was computed from. '
     'A group\'s orbits always describe its present elements.',
     [H, I], 'for every sequence of calls, on any objects, with any arguments, of the library and the programs',
     'Each test program asks one question once per process, with one number of bells; a stale answer needs a second question that differs from the first.',
     ['ringing', 'apps'],
     [('remembered falseness names', 'ringing/falseness.cpp make_table'), ('remembered output properties', 'apps/methsearch/output.cpp get_property'),
      ('music for each number of bells', 'apps/methsearch/music.cpp analyser::instance'), ('orbits', 'ringing/group.cpp calc_orbit_space')],
     'inventory of static-storage variables with definite-assignment dataflow, argument-taint of latched initialisers and of cache keys, staleness dataflow of derived members',
     'Every variable of static storage in the library and programs is enumerated from the type-checked program. Hidden state inside one object, other than derived members, is not judged.',
     design='''Clauses: *latched* (no function-static initialiser is computed from an argument, the object or a local that comes from them);
*process-wide* (each mutable static is given a value by every call that reads it, or belongs to the inventory of settings by file and number);
*remembered* (on every path that returns a remembered value, each argument the other paths use has been compared for equality; keys of
maps that hold results take in all of every argument used); *derived* (a mutable member filled from others is refilled after every change
of those; a fresh object whose derived member is still empty is left undecided, since readers fill it on demand).''')


prop('C10', 'A number from outside is checked before it divides, indexes or moves a cursor',
     'A number that a user writes (in an option, a format, a dimension, a Siril file or a search requirement) is never a divisor unless zero has been excluded first. '
     'It never picks an element of a row, method or table, and never moves an iterator, unless it has first been compared with both ends of what it may reach. '
     'A number that fails is refused with a message, not acted on.',
     [I], 'for every number a user can write, through every path from where it is read to where it is used',
     'The tests never run the programs, and a number out of range usually reads plausible memory; only division by zero would be noticed.',
     ['apps', 'ringing/dimension.cpp', 'ringing/row.h', 'ringing/method.h'],
     [('division in Siril', 'apps/gsiril/expression.cpp div_node::int_evaluate, mod_node::int_evaluate'),
      ('arguments of Siril functions', 'apps/gsiril/functions.cpp'), ('numbers in formats', 'apps/methsearch/output.cpp format_pn, get_property'),
      ('expression arithmetic', 'apps/methsearch/expression.cpp split_expr'), ('dimensions', 'ringing/dimension.cpp read, reduce')],
     'interprocedural taint with flow-sensitive check facts (lower bound, upper bound, non-zero) over the resolved AST',
     'Whether the bound a number is compared with is the right one is not judged, nor overflow of the arithmetic; numbers kept in containers are not followed.',
     design='''Every conversion of text to a number (lexical_cast, ato*, strto*, stream extraction, digit arithmetic) is a source that lacks three
facts: lower bound, upper bound, not zero. Comparisons on the path give facts; assignment, parameters, results and members carry what is missing through the
program to a fixed point. A division or remainder needs *not zero*, an element access or a step of an iterator or pointer needs both bounds. A
number is followed inside one source file of the library, through a whole program and the code programs share, and from a program one call into the
library. Standard divider objects (std::modulus, std::divides) in this code are refused, since they cannot look. Alternatives of a condition that test a mode beside a
number are taken together; flags that record comparisons count as those comparisons; both choices lose detections, never raise alarms.''')

prop('C04', 'Text, token lists and containers are never read past their end',
     'Wherever the library or a program walks text, tokens or a container towards an end it tests for, each place that reads or steps over an element is reached only after the walk has been found short of the end since it last moved; this holds for every input, however it is cut off. '
     'Text that ends with a NUL is not stepped past it, and the result of a search is not used before it is known that something was found. '
     'What a text parser takes from a stack that may be empty is known to be there.',
     [H, I], 'for every input text, of any length and ending anywhere, and every container, the empty one included',
     'A read past the end usually finds a harmless NUL or stale memory, so an input cut off at the wrong place has to meet an unlucky layout before a test sees anything.',
     ['apps', 'ringing'],
     [('place notation', 'ringing/place_notation.h interpret_pn, read_bell_expr'), ('formats', 'apps/methsearch/format.cpp'),
      ('masks', 'apps/methsearch/mask.cpp'), ('tokens', 'apps/utils/tokeniser.cpp, apps/utils/row_calc.cpp'),
      ('Siril', 'apps/gsiril/parser.cpp, apps/gsiril/expression.cpp'), ('options', 'apps/utils/args.cpp')],
     'typestate dataflow over cursors with interprocedural entry needs, exit states and guarantees; branch-correlated flags',
     'A cursor that is never compared with an end (its caller may know how much there is) is not judged; nor are integer indexes, which the rule on numbers covers where they come from outside.',
     design='''A cursor is an iterator or pointer that is compared with an end (`end()`, the other half of a pair of parameters, a local made from
`end()`, or a member always set from one), starts at `begin()`, or holds the result of a search. Its state on each path is *short of the end by n*, *moved since*, *found*,
*at the beginning of a container nobody asked about*, *at the end* or *unknown*; only the known-bad states are reported. Callees contribute what they need on entry, how they leave
cursors handed by reference, and what they guarantee of a pair (an argument check that throws). Boolean locals are split when set, so a flag is exactly the
comparison it recorded. An end that another parameter runs up to is itself never read. The second clause tracks pointers into NUL-terminated text, the third `top`/`pop` of containers whose emptiness the same
function asks about.''')

prop('C06', 'Printed documents are well-formed PostScript or PDF',
     'Every document the printing classes write is syntactically well-formed PostScript or PDF, whatever is printed and in whatever order their public operations are called: '
     'text the caller supplies appears only inside ( ) strings with its brackets and backslashes escaped and other characters written as they are or as exactly three octal digits, '
     'and strings, procedures, dictionaries, streams, text objects and saved graphics states are closed in order, with every operator given its operands. '
     'In PDF the recorded place of every object, the /Length of every stream, the cross-reference table, the page tree and every reference by number agree with what was written; '
     'in PostScript the page comments and totals agree with the pages written and the document ends with %%EOF on a line of its own.',
     [H, I], 'for every text, row and option printed, every number of pages and every sequence of public calls',
     'No test looks at the printed output at all, and one sample document meets neither the odd characters nor the second page nor the empty font list that break the syntax.',
     ['ringing'],
     [('PDF file', 'ringing/print_pdf.cpp pdf_file'), ('PDF pages and rows', 'ringing/print_pdf.cpp printpage_pdf, printrow_pdf'), ('PostScript pages and rows', 'ringing/print_ps.cpp printpage_ps, printrow_ps'),
      ('PostScript prolog', 'ringing/print_ps.cpp def_string')],
     'abstract interpretation of the emitted output against the grammar of the two languages, closed under every order of public calls; effect inference for the PostScript prolog',
     'Assumes that a row printer is finished before its page, that bells print no bracket or backslash and that font names are single words. Fonts named in a stream are not matched with the resources. '
     'Font tables are explored for up to two entries.',
     design='''What each constructor, public operation and destructor inserts into the stream is followed along every path, with helpers inlined, through a machine that lexes and parses PostScript or PDF
(`rl/paper.py`). A piece of output is a character, a number of known form (base, width, fill, sign, linear value in the page number or the iteration) or a text of which only the possible characters and whether the caller
supplied it are known; switch and comparison narrow the character read. The states between calls are closed under all public operations, object and page counters becoming linear in the number of pages, so that offsets,
`/Kids`, `/Contents`, `/Length` and `/Size` are compared symbolically. Rows start from every state a page can rest in. The operand effect of each PostScript procedure is inferred from the prolog's text. What cannot be followed is undecided.''')

prop('C11', 'Every loop makes progress, and a loop that reads a stream ends with it',
     'No trip round a loop, in the library or a program, leaves as it was everything that decides whether the loop goes round again. '
     'Once an input stream has ended or failed, a loop that reads from it stops, rather than trying for ever, and the end of the stream is never taken for a character of the input.',
     [H, I], 'for every path round every loop, whatever the input, and wherever the input ends',
     'A loop that stands still does so only on the input that takes one path through it (an empty component, a comment on the last line, an unterminated last line), and a test that met it would hang rather than fail.',
     ['apps', 'ringing'],
     [('search paths', 'ringing/library.cpp split_path'), ('place notation', 'ringing/place_notation.h interpret_pn'), ('tokens', 'apps/utils/tokeniser.cpp parse'),
      ('library files', 'ringing/litelib.cpp, mslib.cpp, cclib.cpp readentry'), ('rows from a file', 'apps/utils/row_calc.cpp read_node'), ('masks', 'apps/methsearch/mask.cpp parse_block')],
     'path-sensitive effect analysis: what each trip round a loop reads to choose its way against what it writes',
     'Whether progress leads to an end is not judged: a loop that counts the wrong way or runs towards a value it never meets passes.',
     design='''Each `while`, `do` and `for` is taken once round from an arbitrary state along every path. A path carries what its branches read, expressed in values at the head of the loop, and the places it wrote; assignments substitute, so a
value computed afresh from things the trip does not change counts as unchanged, as does a variable given back its own value, or moved by a `find` to where a second `find` leaves it. A path whose reads and writes do not meet is a loop
that stands still. Equalities known on a path (branches and assignments, closed under congruence) discard paths that cannot happen. Callees contribute whether they change anything outside themselves; unknown code counts as progress. For loops that read streams
two further runs start with the stream ended: extractions fail and give the same each time, `get` and `peek` give end-of-file; one run looks for a second trip that stands still, the other for end-of-file appended, inserted or
written as a character. A path that skips an inner `for` altogether is left undecided, since a collection may be known not to be empty.''')

prop('C18', 'Nothing is used after it has gone',
     'An iterator, reference or pointer into a container, string or object is never used after an operation that took away what it leads to: an element erased, a container that may have moved its elements, an object deleted or replaced. '
     'No view, pointer or reference is kept of a temporary beyond the statement that made it, no function hands back a reference, pointer or iterator into its own local objects, and no object keeps one to something that goes before it does.',
     [H, I], 'for every path through every function, and every size of container',
     'Memory that has gone usually still holds what it held, so the test that walks over it gets the right answer and only another input, size or allocator shows the fault.',
     ['ringing', 'apps'],
     [('proof', 'ringing/proof.cpp prover::remove_row'), ('search', 'ringing/search_base.cpp'), ('tokens', 'apps/utils/tokeniser.cpp'), ('rows from a file', 'apps/utils/row_calc.cpp read_node'),
      ('Siril files', 'apps/gsiril/import.cpp'), ('libraries', 'ringing/library.cpp, ringing/litelib.cpp'), ('Siril expressions', 'apps/gsiril/expression.cpp')],
     'flow-sensitive lifetime (typestate) analysis of iterators, views and pointers with interprocedural effects on what they lead to',
     'What is reached through a pointer or reference of unknown origin, or kept by an object nobody in sight owns, is not judged. Space reserved beforehand is not counted, so growth within it is left undecided.',
     design='''Each local, parameter and member that is an iterator, pointer, reference or class holding one carries on each path the places it leads into. Standard containers have their invalidation rules (growth of a vector or string; erasure from a
list or map only of what was erased; `swap`, `clear`, assignment), `delete`/`reset`/assignment of an owner ends the object, the end of a statement ends its temporaries and the end of a scope its locals. Callees contribute which parameters and
members they restructure, so that a reference handed to a function that erases what it refers to is seen. Constructors that keep a reference parameter make the object a view of the argument. Only a path that surely uses a dead place is reported; a place that may
be dead only on a condition the analysis does not follow is undecided.''')

prop('C26', 'Failure is noticed, reported, and never passed off as success',
     'Wherever the library or a program opens a file by name, to read or to write, whether it was opened is found out before anything is read, written or passed on; where it was not, the path tries another file or ends in an exception, an error exit or a failing result, and never carries on as if the file were empty or written. '
     'A result by which a function says that it has reported an error is never thrown away (except by a program that reads commands one at a time, which goes on to the next), and no program that has just reported an error exits with status 0.',
     [H, I], 'for every path from every place that opens a file, and every result that reports an error, whatever the file system holds',
     'Tests run where their files exist; a file that is missing reads exactly like an empty one and an output that cannot be created swallows what is written without a word.',
     ['apps', 'ringing'],
     [('Siril modules', 'apps/gsiril/import.cpp, apps/gsiril/statement.cpp, apps/gsiril/main.cpp'), ('libraries', 'ringing/methodset.cpp import_library, ringing/litelib.cpp, ringing/mslib.cpp, ringing/cclib.cpp'), ('output', 'apps/psline/psline.cpp, apps/methsearch/format.cpp fmtout, apps/spliceplan/spliceplan.cpp'),
      ('rows', 'apps/splices/splices.cpp, apps/utils/row_calc.cpp read_node'), ('arguments', 'apps/utils/args.cpp, apps/*/prog_args.cpp validate'), ('commands', 'apps/utils/exec.cpp')],
     'path-sensitive typestate of opened files (asked, open, failed) with interprocedural summaries; must-use results',
     'Errors after a file has been opened (a full disk, a read error) are not judged, nor are warnings, which use the same functions as errors, unless the path ends there and then.',
     design='''Sources are file streams made or opened with a name, C functions that open (`fopen`, `fork`, `pipe`), library objects made from a file name, and functions found to return one of these unexamined or null. Each is followed through
handles, pointers and members; a test of the stream, of its `good()` or of the handle (where null is how failure is told) settles it on each branch. Using it unsettled, or on the failed branch, is a violation, as is a failed branch that ends normally without a failing value. A member
opened in a constructor obliges its class to offer a truthful `good()` or to ask elsewhere. Functions that report an error and then return false are found by fixpoint; their calls must use the result. `exit(0)`, or `return 0` from `main`, directly after a report or in a handler is a violation.''')

prop('C13', 'Nothing that may be null is followed before it has been asked',
     'No pointer or handle is followed on a path on which it is null, or may be because of where it came from: left null by a declaration, a constructor, a reset or a branch not taken; a cast to a derived class that need not apply; an environment variable that need not be set; '
     'a lookup, or any function, that gives null on some of its paths. A library, outputter, touch, prover, method printer or Siril context with nothing behind it can be used safely: its functions find out whether that is so before they follow it.',
     [H, I], 'for every path through every function, and every state its object can be constructed in',
     'Tests set their environment, load libraries that exist and construct complete objects; the branch where something is missing is the one they do not take.',
     ['ringing', 'apps'],
     [('libraries', 'ringing/library.h library, ringing/libout.cpp, ringing/libbase.h get_impl'), ('touches', 'ringing/touch.h touch, ringing/touch.cpp'), ('proof', 'ringing/proof.cpp prover'), ('method printing', 'ringing/printm.cpp'),
      ('environment', 'ringing/library.cpp, ringing/methodset.cpp, apps/utils/stringutils.cpp, apps/gsiril/import.cpp'), ('Siril', 'apps/gsiril/proof_context.cpp, apps/gsiril/statement.cpp'), ('options', 'apps/utils/args.cpp, apps/methsearch/prog_args.cpp')],
     'path-sensitive nullness analysis with interprocedural summaries of what functions return, follow and change',
     'Pointers of unknown origin are not judged, nor functions that only hand back what is followed (operator*, operator->, operator++), nor classes that let their user ask (null(), conversion to bool), whose users must.',
     design='''Access paths (variables, members, elements, zero-argument accessors without effects, through handles and dereferences) carry null, maybe or not null; tests in any form (conversion, comparison, `!`, `get()`, a member function that
only asks, a flag that holds the answer, a copy of the pointer) refine them, and a branch that contradicts what is known is discarded. Functions that return null on some path, parameters and members that a function follows without
asking, what constructors leave null and what members may be afterwards are found by fixpoint; a null argument for a followed parameter is a violation at the call. A member that a constructor leaves null and that other functions of the class ask about (or that is known to be null in ordinary use)
must be asked about in every function an outsider can call. A parameter that is asked about in one place of a function and followed unasked in another is a violation.''')

prop('C20', 'A value that is refused changes nothing',
     'Where an object of the library (a row, change, pattern, music score, prover, dimension and so on), a setting shared by the process (such as the bell symbols), or a Siril session\'s number of bells or row mask is given a new value, or an operation on it is asked for, and that is refused with an exception, the object is left as it was before the call. '
     'An operation of the library finds out whether what it was given will do before it changes its object, or a variable it was passed to be changed; or it puts back what it had changed before the exception leaves it.',
     [H, I], 'for every path by which an exception leaves a public operation of the library, or a setter of a Siril session',
     'Tests that refuse a value check that it was refused; few look at the object again afterwards, and a program that carries on (gsiril at its prompt, any caller that catches the exception) does.',
     ['ringing', 'apps/gsiril'],
     [('rows', 'ringing/row.h, ringing/row.cpp row::swap, operator=, resize, operator>>'), ('changes', 'ringing/change.cpp change::swappair, change::set'), ('patterns', 'ringing/row_wildcard.cpp set, set_bells'), ('music', 'ringing/music.cpp music_details::set, music::push_back, music::set_bells'),
      ('proof', 'ringing/proof.cpp prover::remove_row'), ('dimensions', 'ringing/dimension.cpp'), ('Siril session', 'apps/gsiril/execution_context.cpp bells, row_mask')],
     'path-sensitive exception-safety analysis: what has been written when an exception over the input leaves',
     'Exhaustion of memory is not counted; nor are exceptions raised by the inner parts an object owns, whose needs it has seen to; constructors make nothing that could be left changed; operations over a range of values may have done some of them.',
     design='''For every public function of the library that is not const, and the setters of the Siril session, each path carries the fields, globals and passed-in objects written so far (calls of own helpers write what they write), whether what was written came from the
arguments, and which arguments a call that may refuse them has already accepted. Which exceptions each call may raise is the call-graph fixpoint also used by C07. An exception that depends on an argument not yet accepted, on a field written from one, or raised directly, and that leaves
(or is caught and not made good) after something was written, is a violation; a catch clause that writes the same things back restores them, and a local object whose destructor may restore them leaves the matter undecided.''')

prop('C17', 'Every option and function name leads to its own effect',
     'Within a program no two options share a letter or a long name. Each option sets (or calls) something of its own, which the program then consults; where a setting bears the option\'s name it is that one which is set; an option uses its argument exactly if it takes one, and is not accepted without having had its effect. '
     'Each function a Siril file can call by name has an implementation of its own, made with the setting that bears its name and known in messages by that name, and every implementation can be called by a name.',
     [H], 'for every option of every program and every function name of Siril, in every combination of arguments',
     'Tests give a small part of the two hundred options, mostly one at a time; a name bound to its neighbour\'s setting is accepted without complaint.',
     ['apps'],
     [('options', 'apps/utils/args.h, apps/utils/args.cpp'), ('programs', 'apps/*/prog_args.cpp bind, apps/*/*.cpp init, apps/psline/psline.cpp setup_args, myopt::process'), ('Siril functions', 'apps/gsiril/functions.cpp register_functions')],
     'name-binding tables extracted from the syntax tree: uniqueness, agreement and use of every binding; path check that options have effects',
     'What a setting then does is the business of the program; options put together by code that the tables cannot be read from are not judged.',
     design='''The objects handed to the argument parser are read with the letter, name and argument name that reach the base constructor through any number of derived ones, and what they refer to (fields, through references and conversions; functions; constants). Letters and names may occur once; two options of one class with the
same targets and constants are the same option; a target whose name differs from that of a field called as the option is, and that is not a text form of it, is the wrong one; a field bound must be read (not only written) somewhere else in the program. `process` functions are followed path by path: a
path that returns true must have written something that outlives the call, tested what it would write, or found the argument left out. A `process` that switches on its own letter must have a case for each letter registered and the other way about, and each case must use
the argument if there is one, and write the field that bears the option\'s name. For Siril, ("name", new Implementation(arguments)) pairs are read wherever they occur.''')

prop('C16', 'What is changed for the time being is put back',
     'A function that is given somebody else\'s stream to read or write, or that keeps one by reference, leaves the stream\'s formatting state (flags, fill character, precision, field width, exception mask) as it found it, whichever way it returns, unless changing it is what a helper is for and its caller puts it back. '
     'A setting, flag or sequence of changes that a function keeps a copy of and puts back at its end is put back on every other way out as well, early returns and exceptions that are handled elsewhere included. '
     'An object that restores things when it goes (the settings of a Siril session around an import, a loop\'s counter, a search\'s number of bells, the flags of a stream) is made before they are changed, lives until the end of what it covers, and writes back every thing it took, each to where it came from.',
     [H, I], 'for every path through every function of the library and programs, exceptions included',
     'Tests look at what a function does, seldom at what it leaves behind in a stream or a session that goes on to be used for something else, and least of all after an exception.',
     ['ringing', 'apps'],
     [('reading', 'ringing/istream_impl.h, ringing/bell.cpp operator>>, ringing/row.cpp operator>>'), ('printing', 'ringing/print_ps.cpp write_string, ringing/multtab.cpp'), ('Siril', 'apps/gsiril/statement.cpp import_stmt, apps/gsiril/proof_context.cpp execute_everyrow, scoped_variable; apps/gsiril/expression.cpp'),
      ('search', 'apps/methsearch/search.cpp filter, try_with_limited_le'), ('output', 'apps/methsearch/format.cpp')],
     'path-sensitive save-and-restore (typestate) analysis over all exits, with summaries of helpers; scope-guard class analysis',
     'Streams a function owns, and the standard streams of a program, are its own business; where a function returns at its very end with something changed that it had kept, it may mean to (commit or roll back) and nothing is decided.',
     design='''`stream`: for every function with a stream by reference (parameter or member) each path carries which aspects of its format have been changed, by manipulators or members; writing back the value an earlier `flags()`, `fill()`... returned, `copyfmt`, or a guard object going out of
scope clears them, and formatted output clears the width. Private and file-local helpers are summarised and judged where they are called. `kept`: a local made from a field, a `x()`/`back()` of something that outlives the call, and later written back to it, makes that place watched; it must be clean on
every early return and every exception (of the call-graph fixpoint) that a try block outside `main` can catch. A kept copy that is never written back while its place changes is a violation. `guard`: classes whose destructor writes through a reference member what their constructor took from it: each member taken is written back on
every path (or is looked at to decide that), under the name it was read under, `undefine` counting as the other half of `define`; the object is declared (not a temporary) and nothing it covers is set before it; each setter called afterwards on the guarded object, with a getter of the same name, is among those restored.''')

prop('C21', 'A row, change or bell made from outside is well made, or refused',
     'Whatever a row is made of or is given (text, a list of bells, what is read from a stream, a new number of bells), it returns either as a permutation of its bells or with an exception: everything that can put foreign bells into a row has the row checked on every path before it returns, and the check looks at every place of the row and refuses any bell beyond the end and any bell the row has already. '
     'A change is made from places, and a pair is swapped in one, only after refusing a place or pair beyond the number of bells, a place below the one before it, and a place that leaves a bell without a partner. '
     'A character or number becomes a bell only if it is a bell symbol, or a number in closed braces from 1 to the largest that a bell can be; a row with which a stream ends is read, not refused.',
     [H], 'for every text, list of bells, stream and number of bells, on every path through the library\'s constructors, readers and setters of rows, changes and bells',
     'Everything else in the library assumes that rows are permutations and that changes swap neighbours that exist; tests hand it rows and place notations that mostly are.',
     ['ringing'],
     [('rows', 'ringing/row.cpp row::row, row::swap, row::resize, operator>>, row::validate'), ('changes', 'ringing/change.cpp change::change, change::swappair'), ('bells', 'ringing/bell.cpp read_char, read_extended, is_symbol, operator>>')],
     'path-sensitive taint analysis (from outside to checked) with difference and parity facts from the conditions on each path; analysis of the check itself',
     'Rows made by the library\'s own arithmetic (products, powers, queens, lead heads) are not judged, nor whether place notation means what was intended; a check written with algorithms of the standard library is undecided.',
     design='''`row`: what comes in by a parameter that is not itself a row or change, or is read as a bell, and is then put among the bells of a row (as is anything that shortens it) must be followed on that path by a call of the row\'s own check, a const member that throws. `check`: each loop of that member over
the whole of the row is run once on an arbitrary element: at the end of the body the conditions passed must imply element < size, and a lookup by the element in a local container must have come out false and then been marked; stopping early, starting late or ending early is a violation, forms that are not recognised
are undecided. `change`: each path collects facts x - y <= k and parities from its conditions (through named conditions and one-line predicates, with contradictory paths discarded); where a place from outside is used they must imply place < n, place >= the one before and an even gap, and where a pair is stored, pair + 2 <= n.
`bell`: likewise 1 <= number <= 256 and a closing brace; a character found by strchr must be known not to be NUL, and where it is not found no bell may be returned. `end`: a reader peeks only where an earlier peek cannot have met the end of the stream.''')
