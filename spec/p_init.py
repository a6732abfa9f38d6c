
IH = 'src/include/falcon'
P('C35', 'Every public header can be included anywhere, alone or with all the others',
  'Each public header compiles on its own, after itself and together with all others in either order, and none hides another. '
  'Including headers in several source files of a program defines nothing twice and gives all of them the same classes, constants and variables, whether or not NDEBUG or another build option is set. '
  'Every public or protected function and static member a header declares can be linked.',
  'inputs', 'every public header, every ordered pair of forward and reverse inclusion, every build option the headers regard; every class, function and variable they declare',
  'A test program includes a few headers in one order, in one source file, and calls a few of the functions.',
  'src/include/falcon', [('all public headers', IH)],
  'compilation of witness sources for every header; linkage, layouts and declarations read from IR, debug information and the syntax tree, compared across sources and against the definitions of the library',
  'Headers of other systems (_vc, win) are not covered. Conflicting values of FALCON_MIN_LOG_LEVEL within a program are the business of its author: the documentation says that the class depends on it.')
P('C38', 'No object or function uses a variable before it has a value',
  'Every constructor of every class gives each scalar field, including atomic ones and those of nested classes, a value on every path before it returns. '
  'No function reads a local variable that may have no value.',
  'inputs', 'every constructor of every class and every path through it, including the implicit ones; every local variable of every function of the library',
  'What an uninitialised variable holds depends on the history of the memory, which is mostly zero in short tests.',
  'src/include/falcon src/engine src/fut', [('LogSystem::LogSystem', 'src/engine/logsystem.cpp'), ('PagedStack', 'src/include/falcon/engine/pagedstack.h'), ('TestCase::Private / UnitTest::Private', 'src/fut/testcase.cpp src/fut/unittest.cpp')],
  'definite assignment: memory written on each abstract path of each constructor against the fields in the debug information; dataflow of the front end for locals',
  'Arrays and fields of the standard library classes other than std::atomic are not covered.')
