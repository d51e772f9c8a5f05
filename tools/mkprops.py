#!/usr/bin/env python3
"""Writes properties.jsonl (the texts live here so that they stay readable)."""
import json, os
D = 'src/duma.c'
P = []
def p(id, title, statement, over, text, why, mech, files=None, state=None, obs=None):
    a = dict(files=files or sorted({m[1].split(':')[0].split(' ')[0] for m in mech}), mechanism=[dict(name=n, where=w) for n, w in mech])
    if state: a['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if obs: a['observe_at'] = obs
    a['hook_needed'] = None
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))
ALL = 'The 21 stable tests allocate a handful of fixed sizes with the default configuration and mostly check that the program survives; '
p('C01', 'An access past the end of a block faults immediately',
  'With the default configuration, every byte of a live block is readable and writable, and the page that begins at the first byte past the block, rounded up to the effective alignment, is inaccessible. The distance between the end of the block and that page is smaller than the effective alignment (zero with the default alignment). This holds for every allocating function and every requested size.',
  ['inputs', 'configurations'], 'every size 1..2^64-1 that is satisfied, every power-of-two default or requested alignment, every allocating entry point, any number of pages the operating system places the mapping at',
  ALL + 'no test tries all residues of a size modulo the page size and the alignment, where the placement arithmetic can be off by one.',
  [('block placement at the end of the page', D + ': _duma_allocate'), ('guard page protection', 'paging.h: Page_DenyAccess'), ('page rounding', D + ': DUMA_PAGE_MASK / internalSize arithmetic')],
  state=[('slot table', 'one entry per mapping: internal address and size, user address and size, guard address', D)], obs=['page protection of the guard page and of the block'])
p('C02', 'With below-protection, an access before the block faults immediately',
  'When protection below the block is selected (environment variable or run-time setting), the byte before a block that starts at a page boundary is inaccessible and every block starts at the first suitably aligned address after the inaccessible page. Every byte of the block is accessible, and the memory handed out never reaches past the mapping obtained for it.',
  ['inputs', 'configurations'], 'every size, every power-of-two alignment up to several pages, every page offset of the mapping',
  ALL + 'below-protection is exercised by one test with one size, and alignments above a page with this mode by none.',
  [('placement at the start of the page', D + ': _duma_allocate (protectBelow branch)'), ('guard page protection', 'paging.h: Page_DenyAccess')], obs=['page protection below and inside the block'])
p('C03', 'Freed memory stays inaccessible and its addresses are not handed out again',
  'After a block is freed with the default configuration, none of its bytes can be read or written, and no later allocation returns memory overlapping it, for the rest of the program run. When keeping freed memory protected is disabled or limited, the memory is either still inaccessible or unmapped, never readable or writable.',
  ['histories', 'inputs', 'configurations'], 'every sequence of allocate/free/reallocate operations up to the stated length with any sizes, every protect-free limit, internal table growth included',
  ALL + 'use after free is only tested for one block immediately after its release, not after later operations that may reuse the mapping.',
  [('protect on free', D + ': _duma_deallocate'), ('slot states', D + ': enum _DUMA_SlotState'), ('best fit search over free internal memory only', D + ': _duma_allocate'), ('reduction of protected memory', D + ': reduceProtectedMemory')], obs=['page protection of freed blocks', 'addresses returned by later allocations'])
p('C04', 'Live blocks never overlap and no operation disturbs other live blocks',
  'At any time the live blocks are pairwise disjoint, and allocating, freeing, reallocating or checking other blocks changes neither a byte of a live block nor its accessibility. This includes the moments when the bookkeeping tables grow.',
  ['histories', 'inputs'], 'every sequence of up to the stated number of operations with any sizes and contents; table growth reached from histories of several hundred blocks',
  ALL + 'no test compares the contents of all other live blocks after each operation or forces the table to grow at an arbitrary history.',
  [('slot search and split', D + ': _duma_allocate'), ('slot table growth', D + ': allocateMoreSlots'), ('slot lookup', D + ': slotForUserAddress, nearestSlotForUserAddress')], obs=['contents and protection of live blocks'])
p('C05', 'Returned addresses honour the alignment contract',
  'A block returned by an aligned-allocation function is a multiple of the requested power-of-two alignment, page allocation is page aligned, and plain allocation is aligned to the configured default alignment (or to the largest power of two not above the size when the size is smaller); requests for zero bytes are governed by the zero-size strategy instead. An alignment that is not a power of two is never honoured silently: the call fails with the documented error or stops the program with a diagnostic.',
  ['inputs', 'configurations'], 'every alignment 0..2^64-1 and every size > 0, every configured default alignment, every page offset of the mapping',
  ALL + 'only a few alignments are tried, none with more than 32 significant bits or above the page size at an odd mapping address.',
  [('alignment validation', D + ': _duma_allocate, _duma_posix_memalign'), ('address rounding', D + ': _duma_allocate')], obs=['address returned'])
p('C06', 'Fresh memory has the documented initial contents',
  'Every byte of a freshly allocated block equals the configured fill value, or zero when filling is disabled; zeroing allocation always yields zero bytes regardless of the fill value. The fill covers exactly the requested block.',
  ['inputs', 'configurations'], 'every size, every fill value -1..255 (and the values normalised to it), every entry point, every byte index',
  ALL + 'the tests look at a few leading bytes of one size.',
  [('fill of new blocks', D + ': _duma_allocate'), ('zeroing', D + ': _duma_calloc')], obs=['bytes of the new block'])
p('C07', 'Reallocation preserves contents and keeps every guarantee of a fresh block',
  'Reallocating a live block returns a block of the new size whose leading bytes (up to the smaller of both sizes) equal the old contents and whose added bytes are zero, with the guarantees of a fresh block, while the old block becomes inaccessible. Reallocating a null pointer allocates, reallocating to size zero frees; when the new block cannot be obtained the old one stays live and unchanged.',
  ['inputs', 'fault_sequences'], 'every old size, new size and content byte, both protection modes, every possible refusal by the operating system',
  ALL + 'reallocation is only called on a few sizes and never with a failing operating system.',
  [('allocate, copy, release', D + ': _duma_realloc')], obs=['contents and protection of old and new block'])
p('C08', 'Releasing anything that is not the start of a live block is always diagnosed',
  'Freeing, reallocating or individually checking a pointer that is not exactly the address returned for a currently live block (interior pointer, already freed block, foreign pointer, internal memory) stops the program with a diagnostic before any state changes; freeing a null pointer does nothing. Releasing a live block is never diagnosed.',
  ['inputs', 'histories'], 'every 64-bit pointer value against every state reached by the explored histories, blocks of any size, zero-size blocks included',
  ALL + 'the tests free a few specific bad pointers; whether an arbitrary value is mistaken for a live block is a statement about all pointers.',
  [('slot lookup and validation', D + ': _duma_deallocate'), ('free state check', D + ': DUMAST_IN_USE')], obs=['diagnostic stop', 'exit'])
p('C09', 'Mismatched allocation and release functions are always diagnosed',
  'A block can be released by the matching function of its allocation family only (C functions, single-object operators, array operators, member operators); every mismatched pair stops the program with a diagnostic, every matched pair is accepted.',
  ['inputs', 'programs'], 'every pair of allocating and releasing entry points, any size',
  ALL + 'a few of the pairs are tried.',
  [('allocator descriptor table', D + ': _duma_allocDesc'), ('allocator check', D + ': _duma_deallocate'), ('operators', 'src/dumapp.cpp')], obs=['diagnostic stop'])
p('C10', 'Slack bytes are checked exactly',
  'Changing any byte that lies between a block and the neighbouring page boundaries is reported when the block is freed, checked individually or checked with all blocks; a program that writes only inside its blocks is never reported. The checks themselves change no byte and leave protections as they were.',
  ['inputs', 'histories', 'configurations'], 'every slack byte index, every corrupting value, every size, alignment and both protection modes',
  ALL + 'a single underrun byte is tested; whether every slack byte on both sides is covered is not.',
  [('slack fill', 'duma_hlp.h: _duma_init_slack'), ('slack check', 'duma_hlp.h: _duma_check_slack'), ('explicit checks', D + ': duma_check, duma_checkAll')], obs=['diagnostic stop'])
p('C11', 'Zero-size requests follow the configured strategy',
  'A request for zero bytes returns what the configured strategy documents: null, the same inaccessible address for all, an address inside an inaccessible page, or a stop with a diagnostic; for the last address strategy addresses are distinct. The returned address is never accessible and can always be freed, reallocated and queried.',
  ['configurations', 'histories'], 'every strategy value 0..3 for C allocation and 2..3 for the operators, both protection modes, every allocating entry point, repeated requests, later free / realloc / usable size',
  ALL + 'only the default strategy of one function is exercised.',
  [('size zero strategies', D + ': _duma_allocate'), ('shared null block', D + ': _duma_init')], obs=['address returned', 'protection at the address'])
p('C12', 'Every configuration variable takes effect exactly as documented',
  'Each documented environment variable, whatever integer in the range of int it holds, selects the documented behaviour: values in the documented range are applied, values outside are normalised or ignored, and an unset variable leaves the documented default. A default alignment that is not a power of two stops the program with a diagnostic as soon as it would be applied; no other value makes the library misbehave.',
  ['configurations'], 'every 32-bit integer value of each variable; observed through the behaviour of later allocations',
  ALL + 'the tests set a few variables to one value each.',
  [('environment parsing', D + ': duma_getenvvars')], obs=['behaviour of allocations made afterwards'])
p('C13', 'Impossible sizes never yield an undersized block',
  'A request whose total size (count times element size, or size plus the necessary overhead) does not fit the address space or is refused by the operating system ends with null, an error code or a diagnostic stop. Whenever a pointer is returned, the full number of requested bytes is accessible.',
  ['inputs', 'configurations'], 'every 64-bit size, every pair of 64-bit count and element size, every alignment, both protection modes',
  ALL + 'no test requests sizes near the top of the address space or products that overflow.',
  [('size arithmetic', D + ': _duma_allocate, _duma_calloc'), ('mapping size', 'paging.h: Page_Create')], obs=['accessibility of the first, last and any byte'])
p('C14', 'A refusing operating system never corrupts the allocator',
  'When the operating system refuses any request for memory, for a change of protection or for unmapping, the operation either stops the program with a diagnostic (the default) or, for memory requests when configured not to, returns null with the library still fully usable: all live blocks stay intact, allocations succeed again once the system delivers, and the lock is not left taken.',
  ['fault_sequences', 'configurations'], 'every subset of the memory requests in the explored histories being refused, once or for good, with every setting of the fail-exit and protect-free options',
  ALL + 'none makes the operating system refuse memory.',
  [('failure handling', D + ': _duma_allocate (chunk creation, retry)'), ('table growth', D + ': allocateMoreSlots'), ('mapping', 'paging.h: Page_Create')], obs=['null result', 'errno', 'usability afterwards'])
p('C15', 'Memory limits are respected and accounting stays exact',
  'The amount of freed memory kept protected never exceeds the configured limit. When new memory would push the total over the configured maximum, protected freed memory is released first; the maximum never makes a request fail. Neither limit drifts with the number of operations performed.',
  ['histories', 'configurations'], 'every limit value and every sequence of allocations and releases of any sizes within the bounds',
  ALL + 'limits are not tested.',
  [('protected memory limit', D + ': reduceProtectedMemory, _duma_deallocate'), ('allocation limit', D + ': _duma_allocate'), ('accounting', D + ': sumAllocatedMem, sumProtectedMem, sumTotalAllocatedMem')], obs=['protections of freed blocks', 'results of allocations'])
p('C16', 'Checked copy functions copy exactly or stop on overlap',
  'The checked memory and string copy functions give exactly the result of their standard counterparts when source and destination do not overlap, touch no byte outside the destination, and return the destination. When the regions overlap and the standard forbids it they stop with a diagnostic or copy exactly as if the source had been read first (backward memory copies only when so configured), and they never stop when the regions are disjoint; memory moves handle every overlap correctly.',
  ['inputs'], 'every length, every relative position of source and destination, every content byte and string length within the bounds',
  ALL + 'one overlapping and one disjoint case per function are run.',
  [('copy functions', D + ': _duma_memcpy, _duma_memmove, _duma_strcpy, _duma_strncpy, _duma_strcat, _duma_strncat, _duma_strdup')], obs=['bytes of destination and surroundings', 'diagnostic stop'])
p('C17', 'The usable size of a block is exactly its requested size',
  'For every live block the reported usable size equals the number of bytes requested, null has size zero, and a pointer that is not the start of a live block is diagnosed. The query changes nothing.',
  ['inputs', 'histories'], 'every size, every allocating function, every pointer value',
  ALL + 'usable size is asked once.',
  [('usable size query', D + ': _duma_malloc_usable_size')], obs=['return value'])
p('C18', 'The library lock provides mutual exclusion under every interleaving',
  'After start-up, at most one thread holds the library lock at any time, a thread that holds it may take it again, and it becomes available exactly when the outermost holder releases it. No interleaving leads to deadlock, to a lost release or to two holders.',
  ['schedules'], 'two and three threads, each with nested acquire and release, every interleaving of memory accesses and lock operations up to the stated number of preemptions',
  ALL + 'the thread test runs one schedule per run and cannot force a switch inside the lock functions.',
  [('recursive lock', 'src/sem_inc.c: DUMA_get_sem, DUMA_rel_sem, lock, unlock')], obs=['critical section occupancy'])
p('C19', 'Concurrent calls behave as if executed one after the other',
  'When several threads call the library at the same time, every call gives a result it could give in some sequential order: blocks are disjoint and correct, double releases are diagnosed once, and no call fails or faults because of another. Outside calls the bookkeeping memory is inaccessible, so stray writes cannot damage it.',
  ['schedules', 'inputs'], 'two threads with one or two calls each out of every public entry point, every interleaving at lock, protection and mapping operations up to the stated number of preemptions',
  ALL + 'the thread test runs one schedule per run.',
  [('locking around the slot table', D + ': all public functions'), ('table protection', D + ': Page_AllowAccess / Page_DenyAccess on the slot table')], obs=['results of the calls', 'protection of the bookkeeping pages'])
p('C20', 'The leak report names exactly the blocks still live',
  'On request or at exit the leak report lists every block that the program allocated with a known source line and did not free, no other block, with its size, kind, file and line, and announces that number and the number of further leaks. With all leaks requested, blocks of unknown origin are listed as well; when nothing leaked nothing is written.',
  ['histories', 'configurations'], 'every subset of the allocated blocks freed before the report, every allocating function, any size and line number, both settings of the report option',
  ALL + 'a leak count is compared for one fixed history.',
  [('leak report', D + ': DUMA_delFrame, _duma_exit')], obs=['text of the report'])
p('C21', 'Diagnostic text renders every number and string exactly',
  'Every number, size, pointer and string a diagnostic prints appears exactly as the value it has, whatever the value. A message that does not fit the text buffer is cut; building it never writes outside the buffer.',
  ['inputs'], 'every 64-bit value for each supported conversion, strings up to the stated length around the buffer limit',
  ALL + 'the texts are not compared.',
  [('formatter', 'src/print.c: DUMA_vsprintf, sprintAddr, sprintLong')], obs=['text written'])
p('C22', 'C++ allocation operators follow the language rules',
  'A failing throwing operator calls the installed new-handler until it gives up and then throws, a failing nothrow operator returns null, and requests for zero bytes give a non-null address. Deleting null does nothing.',
  ['inputs', 'fault_sequences', 'configurations'], 'every size, every operator form, handlers absent, throwing or freeing memory after any number of calls within the bound',
  ALL + 'handlers and failure are not tested.',
  [('operators', 'src/dumapp.cpp: duma_new_operator'), ('strategies', D + ': _duma_allocate')], obs=['exception or null', 'number of handler calls'])
p('C23', 'Periodic checking detects corruption within the configured number of operations',
  'With a check frequency of N, a corrupted slack byte of any live block is reported at the latest during the N-th following allocation or release, and never is a healthy heap reported.',
  ['configurations', 'histories'], 'every frequency up to the bound, any corrupted byte, any mix of operations',
  ALL + 'the frequency option is not tested.',
  [('operation counter', D + ': _duma_allocate, _duma_deallocate (checkFreq)'), ('check of all blocks', D + ': duma_checkAll')], obs=['diagnostic stop'])
p('C24', 'Diagnostics reach exactly the selected outputs, complete',
  'Every diagnostic text (up to the size of the text buffer) is passed completely to each selected output (standard output, standard error, log file) and to no other; the log file is appended to, and with the banner disabled nothing is written unless there is something to report.',
  ['configurations', 'inputs'], 'every combination of output selections and message lengths up to the buffer size',
  ALL + 'outputs are not captured.',
  [('output', 'src/print.c: DUMA_Print'), ('selection', D + ': duma_getenvvars')], obs=['write calls'])
p('C25', 'A diagnosed error always ends the program after telling why',
  'Every diagnostic stop first writes its message and then terminates the process, also when signals are ignored or the output cannot be written; it never returns to the faulty program and maps no memory to do so.',
  ['inputs', 'fault_sequences'], 'every diagnostic call reached in any check, signal delivered or not, output refused or not',
  ALL + 'only the default signal disposition is run.',
  [('abort', 'src/print.c: DUMA_Abort, DUMA_Exit')], obs=['termination and prior output'])
p('C27', 'Any entry point may be the very first call',
  'Whatever public function a program calls first, even before the library constructor has run, it behaves as after regular start-up: the library initialises itself exactly once and the configuration of the environment applies.',
  ['histories', 'configurations'], 'every public entry point as first call with the constructor run before, later or not at all, followed by further calls',
  ALL + 'the order of constructors is fixed in the test programs.',
  [('lazy initialisation', D + ': _duma_init, duma_init')], obs=['result of the first and later calls'])
p('C28', 'Diagnostics attribute each block to the call that allocated it',
  'When a block is reported, the size, the source file and the line printed are those of the call that allocated it, and a double release names the file and line of the first release.',
  ['histories', 'inputs'], 'every history of allocate, reallocate and release within the bound, any line number',
  ALL + 'the texts are not compared.',
  [('slot recording', D + ': _duma_allocate, _duma_deallocate'), ('messages', D + ': DUMA_Abort texts')], obs=['text of the diagnostic'])
p('C29', 'Run-time settings act on later allocations only',
  'Setting alignment, protection side or fill value at run time changes the placement and contents of later allocations and reallocations as documented. It does not affect earlier blocks: they stay accessible and guarded as they were, and checking, reallocating and releasing them works as before.',
  ['configurations', 'histories'], 'every alignment, protection and fill value, allocations before and after, switched back and forth',
  ALL + 'each setter is called once with one value.',
  [('setters', 'duma.h: DUMA_SET_ALIGNMENT, DUMA_SET_PROTECT_BELOW, DUMA_SET_FILL'), ('settings record', 'duma.h: GET_DUMA_TLSVARS')], obs=['placement and contents of later blocks'])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        f.write(json.dumps(x) + '\n')
print(len(P))
