"""What each check explores and within which bounds (evidence and MANIFEST are written from this)."""
ST = ('The real functions (LLVM IR of the unoptimised build of /repo with the harness crate /verif/h) are executed '
      'symbolically; every branch, index, length and item is a solver variable unless a bound below says otherwise. ')
ANYN = ('any buffer length n (heap u8 buffers up to 2^46 bytes, so up to 2^46 slots), any position, any fill of every '
        'stage and any remembered availability (states are reached by public calls from the split buffer); ')
TH = ('Threads: each thread is executed symbolically on its own (a load from memory another thread writes yields a fresh variable and an event), '
      'all paths of all threads go into one query in which the solver chooses the paths, reads-from, modification orders and happens-before '
      'under the release/acquire (RC11) axioms; executions may stop anywhere. Counterexamples are replayed under Miri with many schedules. ')
T = {
 'C02': ('every value consumed is compared with the accepted value (worked on once) at its place in the sequence, in the consuming thread; after joining, '
         'positions, availabilities and what is left in the buffer are compared with what the threads accepted, worked and consumed; data races are violations',
         TH + 'programs of 2-3 threads with 2-3 operations each (single-item, slice, two-step, detached, async, reset; each operation of each iterator occurs), buffers of '
         '2-4 slots, heap and stack, starts before, at and after the physical end, various fills; items 2 bytes, any value; thorough: all pairs of producer x consumer operations'),
 'C03': ('any two accesses of different threads to the same byte, one a write and one non-atomic, are ordered by happens-before; granted slots are read '
         'or written in full, also after part of the grant was advanced past; windows handed out are checked against the slots of the iterator',
         TH + 'programs as in C02, chosen so that grants come from remembered availability, are used in two steps and cross the physical end'),
 'C10': ('every operation returns within a step bound with the other threads frozen (arbitrary state, alone) and within a bound on its atomic '
         'operations in programs with running peers; after joining, everything published is found by the iterator behind; published positions after every single operation',
         'single operations: buffers of 3 slots, any state, loops of at most 4000 branches; ' + TH + 'programs of 1-3 threads, at most 28 atomic operations per thread'),
 'C01': ('one arbitrary operation of any iterator from an arbitrary reachable state, and histories of 2-3 arbitrary '
         'operations on small buffers; an arbitrary tracked slot is compared with a reference queue before and after, '
         'every obtained value is compared with the reference',
         ANYN + 'slices handed to push/copy/clone: every length up to 3 (and symbolic length for the *_slice calls in optional jobs); '
         'histories: 2 operations (n=1..4), 3 operations (n=3); thorough: 3-4 operations and other item sizes'),
 'C04': ('positions after every operation against the reference; available() against the true distance; sum of availabilities len-1; '
         'a push onto a full buffer is refused; detached windows',
         ANYN + 'one arbitrary operation; histories of 2-3 operations on small buffers'),
 'C05': ('every request with an arbitrary count succeeds exactly when count <= true distance (count >= 1); a refused one '
         'leaves indices, tracked slot, destination buffers and the pushed value unchanged',
         ANYN + 'request counts: any usize; slice lengths up to 3'),
 'C06': ('every slice pair handed out: total length, head up to the physical end, tail from slot 0, element k at slot '
         '(index+k) mod n for an arbitrary k, addresses inside the storage; slice-wise pushes/copies leave the tracked slot as '
         'item-wise ones would; every load and store is checked against the bounds of its object',
         ANYN + 'item sizes 0, 1, 3, 4, 8; heap and stack storage with n=2,3 (quick), n=1,2,3,5 (thorough) for sizes other than 1'),
 'C08': ('ledger items (identity masked by an arbitrary value so that every non-zero representation occurs) with a destructor; '
         'at the end every identity has been destroyed exactly once and no destructor ran on anything else',
         'buffers of 1-4 slots, 0-2 rounds of arbitrary fill/consume operations before the selected operation; loop counts are split, data symbolic; '
         'item sizes 1,2,3,8,9,16,24 bytes'),
 'C09': ('as C08 on buffers made by new_zeroed and slots vacated by pop_move; reading or dropping an all-zero slot is caught by the ledger; '
         '*_init on occupied slots destroys the old value exactly once',
         'buffers of 1-4 slots, 0-2 rounds of operations; item sizes 1,2,3,8,9,16,24 bytes'),
 'C11': ('reset_index of consumer and worker (plain, detached, async) from an arbitrary state with an arbitrary remembered '
         'availability, then an arbitrary further operation: nothing available until the stage ahead publishes, everything skipped is '
         'available behind, never a grant beyond the stage ahead',
         ANYN + 'one reset followed by publication and one selected operation'),
 'C12': ('two arbitrary local moves of a detached iterator with moves of the other iterators in between; published positions of '
         'others unmoved, index exact, every getter against the true distance, then sync or attach publishes exactly the position',
         ANYN + 'pairs of local moves; Detached<ProdIter>::reset_index is excluded (it needs an empty buffer to be meaningful)'),
 'C13': ('the same arbitrary history on two variants in one symbolic run; every result, index, availability and the tracked slot are equal: '
         'concurrent/local (any length), heap/stack (n=3), plain/detached/async forms',
         ANYN + 'one operation plus a following arbitrary state; slices up to length 2; heap/stack n=3 (thorough 1..4)'),
 'C14': ('each async operation polled twice, the stage ahead publishing an arbitrary amount (possibly nothing) in between: Ready exactly '
         'when the synchronous operation would succeed, with its result; Pending leaves everything unchanged; push payloads with ledger items',
         ANYN + 'two polls (payload futures: up to 3)'),
 'C15': ('each async operation polled by an executor that polls only on wake-up; the waker may change between polls and the stage ahead '
         'may publish in the middle of a poll (when the waker is cloned) or after it; whenever the operation has become possible the latest waker was woken',
         ANYN + '2 polls (thorough 3)'),
 'C18': ('every constructor (from Vec/array with spare capacity, default, new_zeroed) and every split; wrong sizes panic; '
         'splitting a stack buffer again after arbitrary use and drops',
         'n=0..3 (thorough 0..4) per constructor with an arbitrary tracked slot, any n for heap From<Vec>; re-splits with n=1..3 (5)'),
 'C07': ('all drop orders of plain, detached and async iterators: live heap blocks, liveness flags, exactly one release, no use after it; '
         'stack buffers are never freed; threads: drops that race in every guise, survivors that find the buffer intact and drop it later, observers '
         'that see a peer as dead find all it published (positions, availability and plain memory it wrote)',
         'one thread: six drop orders x seven forms, with and without worker, concurrent and local. ' + TH + 'programs of 2-3 threads, each up to three '
         'operations and a drop, buffer of 4 slots, 1-2 items before; loops in the code under test unrolled until they end'),
 'C17': ('feature vmem: the system calls (memfd/shm, ftruncate, mmap, munmap, close, sysconf) are encoded as what they do to files and mappings, every access '
         'is translated through the mappings; contents of any data it was built from through both views, a write at any slot through either view is seen '
         'through both, lengths of every constructor, single slices across the physical end, ledger items destroyed exactly once, bytes mapped before and '
         'after; the single-operation harnesses of C01/C04-C06 (every operation), some of C11-C14 and C18, and histories run in this configuration with every assertion '
         'of every property counting',
         'page of 4096 bytes; any number of pages (buffers up to 2^46 bytes) for u8, u16, u32 and three-byte items; constructors: minimum 1, page-1, page, page+1, 2 pages; '
         'get_page_size_mul: any argument up to 2^47; destruction of all items: a page size of 4 bytes in the model (the code reads it from sysconf; '
         'counterexamples are replayed with the real one); histories of 2 operations (thorough 3); one thread; system calls do not fail; items without padding'),
 'C16': ('every iterator and everything that safe methods of an iterator hand out with an iterator inside (detached, async, futures; found by closing '
         'the set of iterators under public methods) is instantiated with every buffer and storage over an item type about which nothing is assumed; '
         'its Send/Sync is unfolded into a formula over the facts about the item type from all impls rustdoc reports for the current tree (written and '
         'synthesised by rustc from private fields); the solver looks for a sendable instance of a local buffer or of an unsendable item, and for a '
         'shareable instance of a local buffer. Models are programs, compiled by rustc before they are reported; the formulas are compared with '
         "rustc's verdict for every instance and item with/without Send/Sync",
         'features async and async+vmem; storages of the crate; generic parameters of methods (payloads of futures) are the item type'),
}
