FH, TC, TCH = 'src/include/falcon/fut/fut.h', 'src/fut/testcase.cpp', 'src/include/falcon/fut/testcase.h'
UT, UTH, TL = 'src/fut/unittest.cpp', 'src/include/falcon/fut/unittest.h', 'src/include/falcon/fut/timelapse.h'
FUT = ' '.join((FH, TC, TCH, UT, UTH, TL))
SCEN = 'Suites of up to three test cases in two components (and the empty one) stand for all suites: the runner treats its elements uniformly. gettimeofday() is assumed to succeed.'
P('C30', 'The verdict of a test case follows from what it did',
  'Running a test case calls SetUp() once, then, if it did not throw, test() and TearDown() once each, in this order, whatever test() does; no exception of the case leaves run(). '
  'The final status is error, with the text of the exception that was thrown first, if any of the three threw; otherwise failed, with description, file and line of the failed check, if one of them failed a check; otherwise the status for output on the error stream if SetUp() or test() wrote on the captured standard error, otherwise success. '
  'A case that runs again starts afresh: nothing of the verdict or description of an earlier run remains; statusDesc() names every status differently.',
  'inputs faults histories', 'every combination of: passing, failing a check, writing on the error stream, throwing a std::exception, throwing anything else, in each of SetUp(), test() and TearDown(); also in a second run of the same case',
  'The tests run a few cases that pass or fail in the body; combinations of steps and kinds of exception are hundreds.',
  FUT, [('TestCase::run / beginTest / fail / checkFail', TC)],
  'abstract interpretation of run() with the virtual steps replaced by every outcome, against the decision table of the statement',
  'Output on the error stream written in TearDown() only is left open. gettimeofday() is assumed to succeed.')
P('C31', 'Captured output is complete, separate and the streams are restored',
  'While a test case runs with capture, everything it writes on the standard output and error goes to two separate buffers, and capturedOut() and capturedErr() then are exactly what this run wrote, nothing of an earlier run; without capture it reaches the streams directly and both are empty. '
  'After every test case, however it ended, both standard streams are the ones from before, in the format they had before, and without an error state the case left.',
  'inputs faults histories', 'every combination of outputs and ways to end of SetUp(), test() and TearDown(), with and without capture, repeated runs of one case, and runs of one case after another',
  'A stream that is not restored after one particular way to fail shows only in later output; tests do not look at it.',
  FUT, [('TestCase::beginTest / endTest / run', TC)],
  'typestate of the stream buffers over all abstract paths of one and of consecutive runs',
  'The buffers of std::cout and std::cerr are modelled as objects that rdbuf() exchanges, format flags, precision, width, fill character, locale and error state as parts of the streams that a case leaves in any state. gettimeofday() is assumed to succeed.')
P('C32', 'The XML report is well-formed and states what happened',
  'For any names, IDs, descriptions and file names, including every character that is special in XML, control characters and bytes that are no UTF-8, the report written with -x is well-formed XML. '
  'It names the unit test and each component and test case performed, once each, with the counts of test cases and of failures per component and in total, and a failure element with message, file and line for exactly the test cases that failed. '
  'Texts appear in it unchanged except for bytes that are no UTF-8 and characters that XML cannot represent; if its file cannot be opened, a message says so.',
  'inputs', 'every selection and outcome of the test cases of a suite; every ASCII character, multi-byte UTF-8 characters, and incomplete, overlong, surrogate and other sequences that are no UTF-8, in every text of the report',
  'The tests never write a report; a missing escape needs one particular character in one particular text.',
  UT + ' ' + TC, [('saveToXML / xmlEscape', UT)],
  'constant propagation of the report text over all abstract paths; the resulting text is parsed and compared with the events of the path',
  SCEN + ' Texts are valid UTF-8; NUL characters and disk errors are outside. The escaping is taken to be independent of the position and context of a character.')
P('C33', 'The command line does what it says, or nothing runs',
  'An unknown option or test case name, an option without its value, a verbosity that is not a number from 0 to 5, and -h perform no test case and end with a status other than 0. '
  'Otherwise -t selects the named test cases, -v N and -q set the verbosity, -c turns the capture off, -n names the report, and -x, and only -x, writes the XML report to exactly this file, in any combination.',
  'inputs', 'options of any text, a level of any text, a name of any text, missing values, and combinations',
  'The tests use a handful of command lines; options that are silently ignored make a test run look successful.',
  UT + ' ' + UTH, [('parseParams / main / detectTestName', UT)],
  'abstract interpretation of main() on symbolic and on concrete command lines; the facts of each path that performs test cases must imply a valid command line',
  SCEN + ' Text following the number of -v is left open.')
P('C34', 'The check macros decide and report correctly',
  'Every EXPECT_ macro passes, without any effect on the verdict, exactly when the stated relation (==, !=, >, >=, <, <= of expected and actual value in this order and by the operator of their types, truth, equality of texts, equality of floating point values to four decimals, throwing or not throwing the stated exception) holds. '
  'Otherwise it marks the test case as failed with the file, the line, the text of the check and, for comparisons, the actual value, and leaves the test body. '
  'A check that passes evaluates its arguments exactly once.',
  'inputs', 'every value of any operand type (witness types with their own operators), every outcome of the comparison and every kind of exception, of every macro',
  'A macro that passes too often makes tests useless without failing any; its own tests use few values.',
  FH + ' ' + TC, [('FALCON_TEST_CHECK_LOGIC / EXPECT_*', FH), ('checkFail', TC)],
  'decision table of the abstract paths of witness tests instantiating every macro with opaque operands',
  'FAIL() does not leave the test body and EXPECT_* evaluate the actual value again to print it when they fail; both are left open.')
P('C36', 'Each verbosity shows what it promises and nothing more',
  'At verbosity 0 a run prints nothing; from 1 on every failed test case is named with description, file and line of the failed check or the text of the exception; from 2 on every test case is shown with its outcome; from 3 on it is named before it begins. '
  'Captured standard error is shown for failed test cases from 1 on and for all from 4 on, captured standard output for failed ones from 1 on and for all from 5 on, for the test case that wrote it. '
  'A test case that passes prints nothing at verbosity 1.',
  'inputs', 'every verbosity and every outcome of every test case of a suite, through performUnitTests() and performTest()',
  'The tests do not look at the printed report at all.',
  UT + ' ' + UTH, [('beginTest / endTest / writeTestName', UT)],
  'abstract interpretation of whole runs: the text reaching the standard output before, between and after the steps of each test case, per verbosity and outcome',
  SCEN)
P('C37', 'The final report names exactly the failed test cases',
  'At verbosity 1 and above the report after the last test case lists each failed test case once and no other. '
  'It states for the whole unit test, under its name, and for every component if there are several, that it passed exactly when none of its test cases failed.',
  'inputs', 'every verbosity, selection and outcome of the test cases of a suite',
  'The tests do not look at the printed report at all.',
  UT, [('report / runAllTests', UT)],
  'abstract interpretation of whole runs: the text reaching the standard output after the last test case',
  SCEN)
P('C39', 'A run performs exactly the selected test cases and reports their failure',
  'performUnitTests() performs every selected test case, or every one if none is selected, exactly once, whatever the others do, and performTest() the named one only; an unknown name performs nothing and throws. '
  'Each is initialised with init() before, performed by SetUp(), test() and TearDown() without another in between, and main() calls destroy() of every test case once after the last. '
  'The result, and the exit status of main(), is 0 exactly when every test case performed has passed, and does not depend on earlier runs of performTest().',
  'inputs faults', 'every outcome (pass, output, output on the error stream, failed check, any exception) of every test case of a suite, every selection, through performUnitTests(), performTest() and main()',
  'Success of a test run that skipped or ignored failures is invisible to the tests run by it.',
  UT + ' ' + TC, [('performUnitTests / performTest / runAllTests / init / main', UT)],
  'abstract interpretation of whole runs with every outcome of each test case',
  SCEN + ' Runs after the first one are judged by C43.')
P('C40', 'Reported times are the milliseconds that really elapsed',
  'A TimeLapse gives the milliseconds from its begin to its end, or to the present, plus a day if the end is before the begin, and marking one end changes nothing else; the present is the clock of the system in milliseconds; waitTime() waits for the milliseconds it is given, whatever their number. '
  'elapsedTime() of a test case spans its test(), however that ended, in its latest run, and that of a unit test the whole run. '
  'The times in the printed report and the XML report are those of the test case, the component and the whole run they stand for, each from before the first to after the last test case of it.',
  'inputs faults', 'every value of begin, end and clock; every outcome of the test cases of a suite; every time printed or written to the XML report',
  'Times in tests are close to zero, where a wrong begin or unit is not seen; the tests compare them with a wide tolerance.',
  TL + ' src/fut/marktime-unix.c++ ' + TC + ' ' + UT, [('TimeLapse', TL), ('markTime / waitTime', 'src/fut/marktime-unix.c++'), ('TestCase::run', TC), ('runAllTests / saveToXML', UT)],
  'linear forms of the clock functions over all abstract paths; constant propagation of an injective sequence of clock readings through whole runs',
  SCEN + ' Whether SetUp() and TearDown() are part of the time of a test case, and how many digits are shown, is left open.')
P('C41', 'Test cases run by component, in the order of their names',
  'The test cases of a component run one after the other without those of another in between, wherever they were added or in whichever order they were selected. '
  'Components run in the lexicographic order of their names, and so do the test cases of a component. '
  'No step of a test case runs before the steps of the one before it have ended.',
  'inputs histories', 'every order in which test cases of any components are added or selected, and every outcome of them',
  'The test programs add their test cases in one order only, and none looks at the order of execution.',
  UT + ' src/fut/Readme.md', [('runAllTests / addTestCase', UT), ('documented order', 'src/fut/Readme.md')],
  'abstract interpretation of whole runs over suites added and selected in different orders, comparing the sequence of test cases with the order of their names',
  'Suites of up to five test cases in three components, with names that are prefixes of each other, in ten orders and three selections. gettimeofday() is assumed to succeed.')
P('C42', 'Declared test cases are registered before main() and main() runs them',
  'Each test case declared with the TEST or TEST_F macro in any source file of a program is registered under its own component and name before main() is entered, whichever source file is initialised first. '
  'It runs in an object of its own, of its fixture if it has one, with the set-up and tear-down of that fixture around it, and its body decides its outcome. '
  'main(), of the macro or of the library, acts on exactly the command line it is given and returns the status of the run.',
  'programs configurations inputs', 'every order of initialisation of the source files of a program, every test case, every command line',
  'Each test program is one source file, linked in one order; a test case that is not registered is simply absent.',
  FH + ' ' + UT + ' src/fut/fut_main.cpp', [('TEST / TEST_F / FALCON_TEST_MAIN', FH), ('singleton / addTestCase / main', UT), ('main', 'src/fut/fut_main.cpp')],
  'abstract interpretation of whole programs from their static initialisers through main(), on witness source files',
  'Programs of two source files with seven test cases; the test case whose check can fail is each of them in turn. gettimeofday() is assumed to succeed.')
P('C43', 'A unit test can be performed again',
  'Every call of performUnitTests() or performTest() on a unit test performs the test cases it is to perform exactly once each, whatever was performed before: the selection if one was made with -t, otherwise all test cases added so far. '
  'Its status, the text it prints and the report file depend on the outcomes of that call alone: with equal outcomes they equal those of the first call on a fresh unit test.',
  'histories inputs', 'every sequence of two calls of performUnitTests() or performTest(), with every outcome of each test case in each of them, and test cases, selections and verbosities added in between',
  'Every test program performs its test cases once.',
  UT + ' ' + UTH + ' ' + TC, [('performUnitTests / performTest / init / runAllTests', UT), ('init / beginTest', TC)],
  'abstract interpretation of suites performed twice, in all combinations of outcomes; comparison with the only run of a fresh suite',
  'Suites of up to three test cases in two components; three runs in a row in the thorough tier only. gettimeofday() is assumed to succeed; elapsed times are taken to be equal.')
