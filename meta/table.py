SIMNOTE = ('Seeded search over schedules of the real code at the granularity of single memory '
           'accesses (sequentially consistent); sampling, not enumeration. ')
TECH = 'deterministic simulation: seeded thread schedules (random walk and PCT) with '

prop('C04', 'Garbage collection never frees or moves live memory and reclaims the rest',
     'An object in the managed heap that is reachable from a root, a thread\'s stack or registers, '
     'a thread-local allocation buffer or another reachable object keeps its address and contents, '
     'whatever other threads do and whenever a collection runs. '
     'Memory that is no longer reachable becomes available again, so a program with a small live '
     'set never runs out of memory; while a collection runs, every other thread is stopped.',
     ['schedules', 'histories', 'configurations'],
     'every interleaving of allocating, exiting and collecting threads, every heap size and object graph',
     'The unit tests allocate from one thread in a handful of patterns; a collection racing with '
     'another thread\'s allocation, start or exit is never exercised.',
     ['src/rt/mspace.c', 'src/thread.c', 'src/mask.c'],
     [('stop the world by signal and scan stacks conservatively', 'src/rt/mspace.c mspace_gc, src/thread.c stop_world'),
      ('free list rebuilt from the mark mask', 'src/rt/mspace.c')],
     [('headmask', 'first line of every object', 'src/rt/mspace.c'),
      ('stack_limit', 'bottom of each thread\'s stack', 'src/rt/mspace.c')],
     ['contents of every object still held', 'allocation success', 'progress of other threads while stopped'],
     technique=TECH + 'virtual suspend signals against an object-graph oracle',
     note=SIMNOTE + 'Up to 6 allocating threads; signal delivery at schedule points.')

prop('C05', 'Locks exclude each other and never lose a waiter',
     'At most one thread is ever inside a critical section protected by a given lock, '
     'writes made inside it are seen by the next holder, and a try-lock never blocks. '
     'Every thread that waits for a lock acquires it once the holders ahead of it have released it, '
     'also when wake-ups are spurious or many locks share the same waiting place.',
     ['schedules', 'histories'],
     'every interleaving of lock, try-lock and unlock by up to 8 threads over several locks',
     'Stress tests see whatever interleavings one machine produces; a lost wakeup needs a '
     'preemption between two particular instructions.',
     ['src/thread.c', 'src/thread.h'],
     [('parking bays: waiters sleep on a condition variable keyed by address', 'src/thread.c thread_park'),
      ('two bit lock word', 'src/thread.c nvc_lock')],
     observe=['critical section occupancy', 'deadlock and progress'],
     technique=TECH + 'spurious wakeups; mutual exclusion and progress monitors',
     note=SIMNOTE)

prop('C06', 'Every queued task runs exactly once and waiting for tasks is complete',
     'Every task given to a work queue or queued to run in the background is executed exactly once, '
     'also when tasks queue further tasks, and background tasks run without anybody waiting for them. '
     'When draining a queue or waiting for background tasks returns, all tasks it covers have '
     'finished; a barrier releases nobody before everybody has arrived and then releases everybody.',
     ['schedules', 'histories', 'configurations'],
     'every interleaving of queueing, stealing, sleeping and waking workers, any number of processors',
     'The unit tests run fixed task sets on the real scheduler, where a worker going to sleep just as '
     'a task arrives is practically never seen.',
     ['src/thread.c'],
     [('global queue plus per-thread stealing deques', 'src/thread.c globalq_poll, steal_task'),
      ('wake-up of idle workers', 'src/thread.c create_workers')],
     observe=['execution count of every task', 'state of all tasks when a wait returns'],
     technique=TECH + 'spurious wakeups; exactly-once and completion oracles',
     note=SIMNOTE)

prop('C07', 'Equal names have one identifier, different names have different ones',
     'Interning the same character sequence always gives the same identifier, whichever thread does '
     'it, however the name was built and however far the table has grown, and different sequences '
     'never share one; the text read back from an identifier is the text that was interned. '
     'Generated unique names are never handed out twice.',
     ['schedules', 'histories', 'inputs'],
     'every interleaving of interning threads across table growth',
     'Unit tests intern names from one thread; a race between insertion and growth of the table '
     'is out of their reach.',
     ['src/ident.c'],
     [('lock-free open addressing table grown by a competing copy', 'src/ident.c')],
     observe=['identifier handles and their text'],
     technique=TECH + 'canonicity oracle', note=SIMNOTE)

prop('C08', 'The concurrent hash table behaves like an atomic map',
     'Concurrent lookups, insertions, replacements and compare-and-swap operations on the shared '
     'hash table take effect atomically in an order consistent with real time, also while the table '
     'grows; no entry is ever lost, duplicated or invented. Every operation terminates.',
     ['schedules', 'histories'],
     'every interleaving of up to 6 threads over a table that grows underneath them',
     'The unit test checks the final contents of one stress run; a lost update needs a replacement '
     'to land inside the copy of one slot.',
     ['src/hash.c', 'src/hash.h'],
     [('per-slot marker protocol and cooperative resize', 'src/hash.c chash_copy_table')],
     [('tagged key', 'free, busy, in use or moved', 'src/hash.c')],
     ['results of every operation'],
     technique=TECH + 'linearizability checking of recorded histories against a sequential map',
     note=SIMNOTE + 'Histories up to 60 operations per key.')

prop('C09', 'Intermediate types are canonical under parallel code generation',
     'Asking for the same intermediate-code type always yields the same handle and different types '
     'never share one, whichever threads ask and however far the type table has grown, and the '
     'properties of a type (class, element, pointer) read back as they were defined.',
     ['schedules', 'histories'],
     'every interleaving of threads creating overlapping sets of types while the table grows',
     'The tests build types from one thread at a time in a fixed order.',
     ['src/mir/mir-type.c', 'src/mir/mir-unit.c'],
     [('lock-free type table with competing resize', 'src/mir/mir-type.c')],
     observe=['type handles and their attributes'],
     technique=TECH + 'canonicity oracle', note=SIMNOTE)

KTECH = ('deterministic simulation: seeded random designs run by the whole compiler and kernel in a '
         'simulated process with virtual time, random process order and allocation faults, compared with ')

prop('C01', 'Simulation follows the standard\'s cycle: drivers, events, delays, waits',
     'What a legal VHDL design reports is what the language standard defines: assignments with inertial, '
     'transport and rejecting delays edit the projected waveform correctly; signals change, become active '
     'and quiet in exactly the cycles they must; waits with sensitivity, condition and timeout resume '
     'exactly when they must; postponed processes see the last cycle of a time step; signal attributes '
     'and implicit signals tell the truth. '
     'The order in which the processes of one cycle run never changes the result.',
     ['inputs', 'schedules', 'histories'],
     'every design, every order of process execution, every sequence of transactions',
     'The regression tests are a few hundred fixed designs; the interactions of waveform editing, null '
     'transactions, postponed processes, implicit signals and partial assignment of composites are '
     'combinatorial.',
     ['src/rt/model.c', 'src/lower.c', 'src/jit/jit-interp.c', 'src/jit/jit-irgen.c', 'src/mir/mir-vcode.c'],
     [('event queue, delta cycles and workqueues', 'src/rt/model.c model_cycle'),
      ('projected waveforms', 'src/rt/model.c sched_driver')],
     [('waveforms', 'pending transactions of each driver', 'src/rt/structs.h'),
      ('nexus', 'run of signal elements that change together', 'src/rt/structs.h')],
     ['text of every report with time and cycle', 'exit status and diagnostics'],
     technique=KTECH + 'an independent executable reference model of the simulation cycle',
     note='About 150 designs a second. Deviations listed as known findings are reproduced by the model '
          'or avoided by the generator; interpreter only.')

prop('C02', 'Signal networks resolve and propagate values as the standard defines',
     'Every signal and port has the driving and effective value that the standard derives from all of its '
     'sources: resolution functions see exactly the values of all connected drivers and output ports, '
     'disconnected drivers of guarded signals drop out, forced values replace and releases restore, and '
     'values reach every port of the hierarchy in the same cycle however arrays and records are sliced '
     'by port maps and whether or not ports are merged with their actuals.',
     ['inputs', 'schedules', 'configurations'],
     'every hierarchy, every slicing of composites over ports, every sequence of assignments, '
     'disconnections, forces and releases',
     'Splitting and merging of signal storage depends on the order in which the parts of the design '
     'refer to elements; the tests exercise a few dozen shapes.',
     ['src/rt/model.c', 'src/elab.c', 'src/lower.c'],
     [('splitting of a signal into nexuses', 'src/rt/model.c split_nexus, clone_nexus'),
      ('collapsing of ports', 'src/rt/model.c collapse_nexus, x_map_signal'),
      ('ordered propagation of driving and effective values', 'src/rt/model.c update_driving, update_effective')],
     [('sources', 'drivers, ports and force values of a nexus', 'src/rt/structs.h')],
     ['text of every report with time and cycle', 'exit status and diagnostics'],
     technique=KTECH + 'a reference model of sources, resolution, ports, forces and disconnection',
     note='Profile with deep hierarchies, guarded and forced signals, composite resolution; ports collapsed '
          'or kept apart at random.')

IOTECH = ('deterministic simulation: seeded histories of nvc commands in simulated processes over a simulated '
          'file system layer with injected faults, compared with ')

prop('C10', 'Processes sharing a library neither lose nor mix up units',
     'When several nvc processes analyse, elaborate, run and list at the same time in one library, under any '
     'interleaving of their file operations and with some of them killed anywhere, none of them hangs or '
     'crashes; every command that does not need a unit another process is writing succeeds with the same '
     'result as alone; afterwards the library lists every unit that was analysed, with its right kind; '
     'designs of units written by at most one process elaborate and run with the versions that process '
     'analysed; a run never mixes versions of units; and analysing everything again works.',
     ['schedules', 'crashes', 'histories'],
     'every interleaving of the file operations of two to four processes, every granularity of file times, '
     'every clock jump and every point of a crash',
     'A lost update of the index needs two processes in the few operations between reading and writing it.',
     ['src/lib.c', 'src/fbuf.c', 'src/cgen.c', 'src/jit/jit-pack.c', 'src/util.c'],
     [('library lock', 'src/lib.c lib_save'),
      ('index merged with what others wrote', 'src/lib.c lib_read_index'),
      ('race to create a library', 'src/lib.c lib_new')],
     [('library directory', 'lock file, index, units, elaborated designs and packs', 'src/lib.c')],
     ['exit status, messages and reports of every process; --list'],
     technique=IOTECH + 'a model of which units and versions each process and the final library may show',
     note='Locks are taken to work on the file system and to vanish with the process. Running a design while '
          'another process elaborates it again may fail with a message.')

prop('C11', 'A library survives crashes and damaged files without lying',
     'If nvc is killed or the machine stops at any file operation of any command that reads or writes a '
     'design library, with the last write torn anywhere, or a file of a unit in the library is truncated, '
     'altered, emptied, deleted or replaced by an earlier version of itself, then no later command crashes, '
     'hangs or fails without a message; commands that need only units whose analysis completed still '
     'succeed, every run that succeeds shows one of the versions of each unit that was analysed, and '
     'analysing everything again always leads back to a working library with the newest versions.',
     ['crashes', 'faults', 'histories'],
     'every point of every file operation of every history of analyse, elaborate, run and list commands; '
     'every damage to a unit file',
     'A crash leaves files that no test ever sees; the number of points is the number of operations times '
     'the ways to tear a write.',
     ['src/lib.c', 'src/fbuf.c', 'src/object.c', 'src/jit/jit-pack.c'],
     [('index and unit files written to temporary names and renamed', 'src/lib.c lib_save'),
      ('checksum of unit files', 'src/fbuf.c fbuf_decompress'),
      ('pack header written last', 'src/jit/jit-pack.c jit_write_pack')],
     [('library directory', 'serialised units, index, elaborated designs and JIT packs', 'src/lib.c')],
     ['exit status, messages and reports of every command'],
     technique=IOTECH + 'a model of which versions of which units may be seen',
     note='Files of JIT packs and the index have no checksum and are not damaged, only torn by crashes. '
          'Renames are taken to be atomic and writes to reach the disk in order. Up to five generated files '
          'in a history.')

prop('C12', 'No I/O error is ignored: success means complete output',
     'When a system call on a file fails (no space, quota, I/O error, permission, too many files, file too '
     'big) or transfers less than asked for, at any point of any analyse, elaborate, run or list command or '
     'a chain of them, including waveform dumps, files written and read by the design and coverage '
     'collection, merging, report and export, the command either produces the same output and files as '
     'without the error or fails with an error message; it never crashes or hangs; and the same command '
     'run again without errors produces exactly the usual output and files.',
     ['faults', 'inputs'],
     'every system call of every command and every error or short transfer it may report',
     'Tests hardly ever meet an error from the system; a missing check shows only when the one call it '
     'follows fails.',
     ['src/lib.c', 'src/fbuf.c', 'src/rt/fileio.c', 'src/rt/wave.c', 'src/rt/cover.c', 'src/rt/cov-report.c',
      'src/rt/cov-export.c', 'src/jit/jit-pack.c', 'src/util.c', 'thirdparty/fstapi.c'],
     [('errors of library files', 'src/fbuf.c fbuf_close'),
      ('errors of files of the design', 'src/rt/fileio.c x_file_write'),
      ('errors of waveforms', 'thirdparty/fstapi.c fstWriterClose'),
      ('errors of coverage files', 'src/util.c checked_fclose')],
     [('output files', 'library, pack, waveform, coverage and design files', 'src')],
     ['exit status, messages and contents of all files'],
     technique=IOTECH + 'comparison with the run of the same command without faults',
     note='Temporary files outside the working directory (of the waveform writer) never fail. Removing a '
          'temporary file may fail silently. Reading back own output and seeking do not fail.')

prop('C13', 'Files written and read by a design hold exactly what VHDL says',
     'For every sequence of FILE_OPEN (both forms, all modes), FILE_CLOSE, READ, WRITE, FLUSH and ENDFILE on '
     'any number of file objects of scalar, enumerated, physical, floating and array types and of text, '
     'shared between processes or local to subprograms, and every sequence of textio WRITE, HWRITE, OWRITE, '
     'WRITELINE, READLINE, READ, HREAD and OREAD, under any short transfers by the system: every value, status '
     'and end-of-file answer is the one the language defines; files still open when the simulation ends in '
     'any way are complete; misuse stops with a message; and after a kill at any point every file is a prefix '
     'of what was written and holds at least what was flushed or closed before.',
     ['inputs', 'faults', 'crashes'],
     'every sequence of file operations, every transfer that is cut short and every point of a crash',
     'Buffering, handle reuse and short transfers only matter in combinations that no test writes down.',
     ['src/rt/fileio.c', 'lib/std/textio-body.vhd', 'src/lower.c'],
     [('handles with generations', 'src/rt/fileio.c decode_handle'),
      ('files closed at the end of a subprogram', 'src/lower.c'),
      ('text formatting', 'lib/std/textio-body.vhd')],
     [('handle table', 'open files of the design', 'src/rt/fileio.c')],
     ['reports, final contents of the files, exit status'],
     technique=IOTECH + 'a model of the files in memory',
     note='VHDL-2008 operations only. Files are not read while another object has unflushed data for them. '
          'Malformed text is not read.')

PTECH = 'deterministic simulation: seeded schedules of the compiler threads and collector, compared with '

prop('C19', 'Programs compute what VHDL says, however and whenever they are compiled',
     'For every program of processes, nested functions and procedures, packages and constants over integer, '
     'enumerated, physical, floating, array (also multi-dimensional and unconstrained), record and access types, '
     'with every sequential statement, operator, attribute, aggregate, slice, conversion and parameter mode: the '
     'values observed are those the language defines, and a program that violates a range, index, length, '
     'overflow, division or null-access check stops with an error at that point and at that time, and no other '
     'program does. The results are the same whether code is interpreted, compiled when it becomes hot, compiled '
     'in the background at any moment, compiled ahead of time at any optimisation level, run with intrinsics '
     'on or off, and wherever garbage collections happen.',
     ['inputs', 'schedules', 'configurations'],
     'every program, every moment at which compiled code replaces interpreted code or a collection starts',
     'Tests compare a few fixed programs in one configuration; miscompilation needs one particular combination '
     'of operations, and races between compilation and execution one particular schedule.',
     ['src/simp.c', 'src/lower.c', 'src/vcode.c', 'src/mir', 'src/jit'],
     [('constant folding', 'src/simp.c, src/vcode.c, src/mir/mir-node.c, src/jit/jit-optim.c'),
      ('removal of checks by value ranges', 'src/vcode.c emit_range_check, src/mir/mir-node.c'),
      ('code generation', 'src/jit/jit-irgen.c, src/jit/jit-llvm.c, src/jit/jit-interp.c'),
      ('replacement of interpreted by compiled code', 'src/jit/jit-core.c')],
     [('entry point of a function', 'interpreted or compiled code, replaced while running', 'src/jit/jit-core.c')],
     ['every reported value, time, error and exit status'],
     technique=PTECH + 'a reference evaluator of the language',
     note='Overflow of physical arithmetic, parameters read before they are set, the order of errors within one '
          'statement and aliasing of composite parameters are left open. Protected types, generics and pointers '
          'to composites with cycles are not generated.')
