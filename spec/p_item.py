I='src/include/falcon/engine/item.h'; D='src/include/falcon/engine/itemdata.h'
HS=' '.join('src/include/falcon/engine/%shandler.h' % k for k in ('', 'flat', 'deep', 'deepflatcopy', 'nil', 'bool', 'int', 'float', 'string', 'bignum'))
P('C24', 'Every item owns its payload alone and releases it exactly once',
  'The text or big number held by an item belongs to that item only: it is duplicated whenever the item is copied, passed by value or assigned, and released exactly once, in the way it was allocated, when the item is destroyed or overwritten. '
  'Copying leaves the source as it was, assignment makes the target equal to the source also when both are the same item, and nothing leaks or is used after release. '
  'A failing allocation leaves the target of an assignment as it was.',
  'histories faults', 'every sequence of constructions, copies, moves, assignments (between all pairs of item kinds, also self assignment) and destructions; every allocation may fail',
  'Leaks, double releases and sharing do not change the results the few item tests look at, and depend on the combination of kinds.',
  I + ' ' + D + ' ' + HS, [('Item copy/assignment/destruction', I), ('Handler::clone / destroy / allocate', 'src/include/falcon/engine/deephandler.h')],
  'ownership ledger (typestate of every allocation) over the abstract paths of each item operation, from the states that the constructors establish',
  'Each operation is analysed from an arbitrary item of each kind, so sequences of any length are covered; direct access to the public fields of Item is not.')
P('C25', 'An item gives back the very value it was built from, or refuses the type',
  'For each supported type, reading an item with the accessor of its kind yields the value it was built from: a boolean, text, big number or floating point value unchanged, and an integer extended to 64 bits by the signedness of its own type. '
  'A type that is not supported is refused with invalid_argument, both when building and when reading, and never silently converted. '
  'All integer types make integer items, both text types make string items, and items of different kinds have different handlers.',
  'inputs', 'every value of every supported type; the unsupported types short, float, char*, and a class',
  'Tests use a handful of small values; truncation and sign errors appear only at the ends of the range.',
  I + ' ' + D, [('Item(T) and Item::get<T>()', I), ('ItemData(T)', D)],
  'symbolic-free abstract execution of construct-then-read with exact integer casts, comparing value terms',
  'The value is a single unknown; every cast on the way is kept exact, so the verdict holds for all values.')
P('C27', 'Conversions of an item follow its kind and never throw or terminate',
  'The text, integer and boolean reading of an item are the documented function of its value for every kind: nil is "nil", 0 and false; booleans are "true"/"false" and 1/0; numbers print as standard streams print them, convert by truncation and are true unless zero; strings are themselves, their leading decimal integer (0 if there is none, saturated when out of range), and true unless empty. '
  'No conversion throws, terminates the program or modifies the item, whatever the value. '
  'Each kind reports its own type name and whether it is flat and copied flat.',
  'inputs', 'every value of every kind (any text, any integer, any finite number)',
  'The tests convert five values; malformed, huge or empty texts and range ends are not among them.',
  HS + ' ' + I, [('toString/toInt/toBool of each handler', HS.split(' ')[-1])],
  'abstract execution of each conversion for an unknown value of each kind, comparing result terms; exception-flow analysis of the noexcept boundary',
  'Rounding of the standard library formatting and the conversion of numbers outside the range of the integer type are not covered.')
P('C28', 'A source text object never writes outside its buffer and always reports its text',
  'However a source text object is built, copied, assigned, moved or destroyed, it reads and writes only its own live buffer, within the allocated size, and releases it exactly once. '
  'It reports the text it was given, and a copy or assignment reports the text of its source even after the source was destroyed. '
  'An object that was moved from can still be read, assigned and destroyed.',
  'histories inputs', 'every text (of any length, without embedded zero bytes) and every sequence of construction, copy, assignment, self assignment, move and destruction',
  'A write one byte past the buffer, a double release or a leak does not make the single test of this class fail.',
  'src/engine/code.cpp src/include/falcon/engine/code.h', [('Code constructors, assignment, destructor, toString', 'src/engine/code.cpp')],
  'abstract execution of object lifetimes with symbolic lengths: bounds, ownership typestate and content of the buffer',
  'Twenty lifetimes that cover each member in each state of the object; lengths are unbounded symbols.')
SG='src/include/falcon/singleton.h'
P('C29', 'A singleton is one instance, built once, whoever asks first',
  'Every accessor of every singleton object of a type leads to the same instance, from every thread, until the program ends. '
  'The instance is built exactly once, on first use, also when several threads use it first at the same time, and each of them gets it fully built.',
  'schedules', 'every order and interleaving of first uses through get(), ->, * and the mutable accessors, of one or more singleton objects',
  'The test uses one thread; a race on the first use needs a particular interleaving.',
  SG, [('Singleton::get and its accessors', SG)],
  'abstract interpretation of the accessors: one-time-guard typestate around construction and publication',
  'Relies on the C++ rule that a guarded static is initialised once; destruction order at exit is not covered.')
P('C44', 'A kind of value describes itself truthfully and makes values it can handle',
  'A kind that says it is flat owns nothing: allocating, cloning and destroying its values have no effect and a clone is the same data; it is flat to copy as well. One that says it is not flat makes a payload of its own for each new value and each clone, and releases it when the value is destroyed. '
  'A newly allocated value, and its clone, can be converted and destroyed without fault; the conversions never depend on data that was not written and give those of the null value of the kind (zero, false, the empty text).',
  'inputs histories', 'every kind of value of the engine and every kind that a program derives from one of the three bases; every value cloned or destroyed',
  'No test calls allocate(), isFlat() or isCopyFlat(), and an unwritten word is mostly zero in a short test.',
  HS + ' ' + D + ' src/include/falcon/engine/handlerfactory.h', [('Handler::isFlat / isCopyFlat / allocate / clone / destroy', 'src/include/falcon/engine/handler.h'), ('ItemData', D)],
  'abstract execution of the operations of each kind through the common interface: effects, ownership of the payloads, dependence of results on unwritten memory',
  'What else "flat to copy" means is not documented; only what the names of the bases promise is checked.')
LGR = 'src/include/falcon/logger.h'
P('C45', 'Objects with an identity cannot be copied, and objects are destroyed whole',
  'Futexes, log systems, listeners, loggers, log statements and blocks, singletons, unit tests and test cases cannot be copied, moved or assigned, so that no program can make a second owner of what they hold; items, source texts and stacks are values that can. '
  'Deleting a listener, a kind of values or a test case through its base destroys the whole object. No destructor throws.',
  'inputs', 'every program that uses the types of the public headers',
  'A missing restriction does not change any program that does not (yet) use it; a test can only call what compiles.',
  'src/include/falcon', [('Futex, RFutex', 'src/include/falcon/futex.h'), ('LogSystem::Listener', 'src/include/falcon/logsystem.h'), ('Logger::AutoEnd / BlockEnd', LGR), ('Singleton', 'src/include/falcon/singleton.h'),
   ('Handler', 'src/include/falcon/engine/handler.h'), ('TestCase, UnitTest', 'src/include/falcon/fut/testcase.h src/include/falcon/fut/unittest.h')],
  'compile-fail witnesses: programs that make a second owner must be rejected by the type checker, those that use values and those that assert virtual and non-throwing destructors must be accepted',
  'Only the types and operations listed; a second owner made through memcpy or a reference is not covered.')
