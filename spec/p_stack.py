F='src/include/falcon/engine/pagedstack.h'
P('C13', 'The paged stack is a stack: every operation leaves the right sequence',
  'Whatever was done before and wherever the page boundaries fall, push and push_emplace add on top, pop removes the top, discard(n) removes exactly n and discarding at a valid plain iterator removes that element and all above it, clear empties, and copies and assignments yield independent stacks of the same content and page size. '
  'size(), empty(), top() and getStats() report exactly the current content and its layout. '
  'No other element is added, lost, changed or reordered, the source of a copy is untouched, and shrink_to_fit and the allocation of pages never alter the content.',
  'histories inputs', 'every history of operations (the states it can reach are described by the page structure that each operation is shown to preserve), every page size and fill of the top page, stacks of up to 3 pages in use plus spare ones (4 in the thorough tier), any element values',
  'Mistakes live at page boundaries and in rarely combined operations; the tests run a few sequences with one page size.',
  F, [('push/pop/discard/clear/resize/copy and the page cursor', F)],
  'abstract interpretation over concrete page-list shapes with symbolic fill and page size; shape invariant (full pages below the top page, empty ones above)',
  'Shapes with up to 3 (thorough 4) used pages; page sizes of at least 1; preconditions (no pop of an empty stack, discard only of existing elements) are assumed.')
P('C14', 'Every paged stack operation holds the lock of its own stack throughout',
  'push, push_emplace, pop, peek and their variants, discard, top, clear, size, empty, getStats, shrink_to_fit, copying from and assigning to a stack, and creating, copying, moving, reading and destroying its synchronised iterators access the pages, elements, cursor and iterator counter only while holding the mutex of that stack. '
  'Each takes that mutex at most once at a time, never while holding the mutex of another stack, and has released it when it returns or throws.',
  'schedules faults', 'every path of each operation, from every stack shape, including each failing allocation and throwing element operation; hence every interleaving of such operations on stacks with a real mutex',
  'The tests use the dummy mutex from one thread; a missing, double or leaked lock needs a particular interleaving or failure.',
  F, [('lock_guard of every operation; nested lock_guard of the synchronised iterators', F)],
  'lockset analysis over the abstract paths of every operation (must-hold locks at each access, lock balance, nesting)',
  'Plain iterators, begin()/end() and get_allocator() are unsynchronised by design and not covered, nor is the use of the reference returned by top(), nor the assertions that call size() before locking.')
P('C15', 'Synchronised iterators never touch elements the stack no longer has',
  'A synchronised iterator (const or not) started from the top reads the element it points to while the stack still has it, also after pushes and shrink requests; when it was discarded in the meantime, reading, and moving, bring it to the current top, and throw runtime_error when the stack is empty. '
  'Moving it without such a change steps to the neighbouring element. '
  'While any synchronised iterator of a stack exists, shrink_to_fit releases no pages and the request is carried out exactly when the last of them is destroyed, also when iterators are copied and assigned.',
  'histories schedules', 'every position of the iterator relative to the current top (same page, lower page, emptied page, empty stack), every history of creations, copies, assignments and destructions up to length five',
  'The outcome depends on what happened between creating and using the iterator; few such histories are in the tests, none with copies.',
  F, [('sync_iterator_base::synchronize, get, ++, --, copy, assignment, destruction', F), ('shrink_to_fit / removeSyncIterator', F)],
  'abstract interpretation from every relative position of iterator and top; counting typestate of the live iterators',
  'sync_end() positions are not covered. Shapes of up to 3 pages.')
P('C16', 'Pushing never moves stacked elements and a failed push changes nothing',
  'The address of an element stays the same from the push until it is removed: insertions only use space already reserved on its page, and no operation other than removal, clear and assignment to the stack relocates or destroys existing elements. '
  'A single push or push_emplace that fails, because memory runs out while adding pages or because constructing the element throws, leaves the content, size and top as they were, and the stack usable. '
  'Every page of a stack, also of copied and assigned ones, has space for a full page of elements from the moment it can be used.',
  'faults histories', 'a failure at each allocation and at each element construction, from every shape of stack (page boundary or not)',
  'Needs an allocation failure or throwing constructor exactly at a page boundary; the tests inject none.',
  F, [('growBase / advance / retreat, internal_push, push_emplace', F)],
  'abstract interpretation with exceptional edges at each allocation and element operation; capacity typestate of the pages',
  'Multi-value push is covered for address stability only (it is not all-or-nothing). Shapes of up to 3 pages.')
P('C17', 'Plain stack iterators visit every element once, in order, in both directions',
  'From begin() a plain iterator goes from the top element down to the bottom one and then equals end(); from rbegin() a reverse iterator goes from the bottom up to the top and then equals rend(), whatever the page boundaries, for mutable and const stacks alike. '
  'Increment and decrement undo each other, the postfix forms return the old position, += and -= n equal n steps, and iterators are equal exactly when they denote the same position. '
  'Dereferencing gives that very element, and iterating never modifies the stack.',
  'inputs histories', 'every position (symbolic index, each page, both sides of a page end) in every shape of stack, all six iterator kinds',
  'The tests walk one stack from begin to end; steps across page boundaries in each direction and kind are not covered.',
  F, [('iterator_base, reverse_iterator_base and begin/end/rbegin/rend', F)],
  'abstract interpretation of each iterator operation at a symbolic position, comparing the resulting position with the index arithmetic',
  'Shapes of up to 3 used pages (4 thorough). end() is formed one before the first element of the first page, which is accepted as an address that is only compared.')
P('C18', 'Multi-value reads and pops give each argument its own element',
  'pop(a, b, ...) and peek(a, b, ...) give their first argument the top element, the next one the element below, and so on; peek_reverse and pop_reverse give the last argument the top; peek_depth(d, ...) starts at the element d places from the top and goes upwards, as does the iterator from_top(d). '
  'The pops remove exactly the elements they deliver and the reads remove nothing. '
  'distribute assigns successive values of its iterator to its arguments in order.',
  'inputs', 'every fill of the top page and every depth, with the elements on one page or spread over several, including page ends',
  'The order and the crossing of page boundaries are exercised by the tests for single cases only.',
  F + ' src/include/falcon/engine/distribute.h', [('pop / peek / peek_depth / peek_reverse / pop_reverse / from_top', F), ('distribute', 'src/include/falcon/engine/distribute.h')],
  'abstract interpretation with symbolic depth and fill; provenance of every assigned value',
  'One to three arguments. The documented preconditions (enough elements) are assumed.')
