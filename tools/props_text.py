prop('C01', 'A build that fails changes no file',
     'When a command line build does not get through assembling and linking - a rejected statement, an unresolved, '
     'misaligned or out-of-range reference, an input file that is missing, unreadable or fails half way through being '
     'read, an interrupt or memory exhaustion at any instant before the image is complete - the tool fails with an '
     'exception. The destination, its symbol files, the sources and every other file are then exactly what they were '
     'before: nothing is created, truncated, replaced or deleted.',
     ['inputs', 'fault_sequences', 'crash_points'],
     'every source set and tool (generic CPU front ends and all platform front ends), every failing statement or '
     'reference at any position, every failing open/read of any input, an interrupt at any executed line before saving, '
     'every prior state of the destination',
     'The tests never run a front end and never make a read fail; no sampled test can place a failure at every point '
     'of the pipeline and compare the whole directory.',
     [A] + PLATS,
     [('the destination is opened only after link() returned', A + ' Assembler.main / save'),
      ('platform mains save after link and post processing', P + '*.py main()')],
     observe=['directory contents after the build', 'mutating file operations issued by the process'])

prop('C02', 'A build reported as successful has written its complete image',
     'If a front end finishes without an error then the destination file holds exactly the linked image (and each symbol '
     'file exactly its full text) - every byte, nothing missing at the end, nothing left over from a previous longer file - '
     'however the operating system splits, interrupts or delays the writes. If any part of the output cannot be written, '
     'flushed or closed, the front end ends with an error instead of reporting success.',
     ['fault_sequences', 'inputs', 'histories'],
     'every program and platform, every sequence of short writes, EINTR, ENOSPC, EIO, quota and close errors on any '
     'output operation, every prior content of the destination, every history of earlier builds to the same path',
     'The tests do not save files except once per fixture on a healthy disk; write faults cannot be produced by a unit test input.',
     [A, P + 'nes.py', P + 'psx.py', P + 'gba.py', P + 'genesis.py'],
     [('save() writes the whole image through one context-managed handle', A + ' save'),
      ('symbol files and headers are written through context-managed handles', P + 'nes.py, psx.py main')],
     observe=['bytes of the destination and symbol files', 'how the front end ended'])

prop('C03', 'External data enters the image exactly or the build fails',
     'The bytes contributed by a source file, .include, .incbin, .inccsv, .inccsv_le16, .incjson or tile/pattern image are '
     'exactly the conversion of the content the named file has at the moment the directive is processed - complete, in order, '
     'at the position of the directive and once per directive. If the file is missing, cannot be opened or read, '
     'or holds data that cannot be represented, the build fails; it never goes on with missing, truncated, stale or '
     'substituted data.',
     ['inputs', 'fault_sequences', 'histories'],
     'every file content and size (empty, larger than any buffer, binary, CRLF, no final newline), every pattern of short reads '
     'and interrupted reads, every open/read error, every history of the file changing between builds or between two directives '
     'of the same build, relative to any working directory',
     'The tests include one fixture per directive, always small, healthy and unchanged; short reads, failing reads and '
     'files that change between directives are not reachable from them.',
     [A, P + 'gameboy.py', P + 'sms.py', P + 'nes.py'],
     [('each directive opens, reads completely and converts the file at once', A + ' directive_incbin/_inccsv/_incjson/_include, assemble_file'),
      ('tile directives convert every cell of the image', P + 'gameboy.py, sms.py, nes.py')],
     observe=['bytes appended per directive', 'image on disk', 'how the build ended'])

prop('C04', 'A crash during a build never leaves a hybrid output',
     'If the process dies at any instant of a build, each output file afterwards holds either what it held before the build '
     'or a prefix (possibly empty) of what the complete build would have written - never a mixture of old and '
     'new bytes or bytes from an intermediate stage - and no other pre-existing file is changed. Running the same build again '
     'to completion then gives the complete image, as if the crash had not happened.',
     ['crash_points', 'histories'],
     'death before, during (torn at any byte) or after any file operation of a build, for every front end and any prior '
     'destination content, followed by a restart',
     'No test kills a build; crash points are invisible to tests that inspect a finished result.',
     [A] + PLATS,
     [('the destination is opened with truncation and written front to back after linking', A + ' save; ' + P + 'psx.py main')],
     observe=['directory contents after the simulated death and after the restart'])

prop('C05', 'Splitting a program over files, includes and calls changes nothing',
     'A program gives the same image, label addresses and exported names whether it is one text, is cut at statement '
     'boundaries over nested .include files, over several source files on the command line, or over several assemble() calls '
     'of one session; sections, macros, repeats, defines and forward references may span the cuts. A region opened by a bounded .org may span include cuts; the end of a source file or assemble() call closes '
     '(fills) it.',
     ['programs', 'histories', 'configurations'],
     'every program and every way of cutting it over includes (nested, empty files, repeated reads), source arguments and assemble() calls '
     '(cuts between calls only outside open bounded regions), and every pattern of short reads or retried failing reads while the pieces are loaded',
     'Tests use one string per case; the interaction of end-of-input processing with every possible cut of every program is a quantification over programs.',
     [A, T],
     [('.include assembles the file in place, in the same session', A + ' directive_include'),
      ('end-of-input padding and section closing', A + ' assemble')],
     observe=['image', 'label table', 'sections'])

prop('C06', 'Assemblers do not influence each other under any interleaving',
     'Any number of assembler objects - of the same or of different CPUs and platforms, used alternately or from different '
     'threads, with any interleaving of their work - each produce the image, label addresses, defines, macros and errors they would produce '
     'alone in a fresh process. What one of them defines, records, rejects or links is never visible in another one, '
     'even if both read the same text or files.',
     ['schedules', 'histories', 'configurations'],
     'every interleaving of the steps of two to four sessions down to single executed lines, over all CPU and platform classes, '
     'sharing file names, source text, label, macro and define names',
     'Every test uses one assembler at a time, single threaded; leakage needs two sessions and a particular interleaving.',
     [A, S, M, T] + CPUS + PLATS,
     [('per-instance tables and copies of class-level configuration', A + ' Assembler.__init__'),
      ('statement tokens are rewritten only on private objects', S + ' / ' + M)],
     state=[('defines', 'textual substitutions, copied from the class per instance', A),
            ('macros', 'recorded macros per instance', A)],
     observe=['image, labels and error of every session'])

prop('C07', 'A rejected statement leaves no trace',
     'After an instruction, label, macro call or directive has been rejected with an error and the caller goes on with the session, '
     'everything assembled and linked later is as if that statement had never been submitted: no bytes, no location change, no label, '
     'no pending reference, no change to macros or defines, no effect at link time. (What a macro call, a multi-value data directive or an include '
     'completed before the failing element stands.)',
     ['histories', 'fault_sequences', 'programs'],
     'every session history that mixes accepted statements with rejected ones (bad operands after a label operand, unknown names, duplicate labels, overlapping '
     'origins, failing macro bodies, missing or unreadable files, exhausted memory inside a handler) on every CPU',
     'Tests stop at the first expected error; none continues the session and links after it.',
     [A, S, M] + CPUS,
     [('bytes are appended only after the handler returned', S + ' Instruction.assemble'),
      ('label references are registered with the index they patch', A + ' add_label_translation')],
     observe=['final image', 'label table', 'location counter'])

prop('C08', 'Failed, repeated and incremental linking converge',
     'Linking is repeatable: whatever sequence of successful or failed link() calls is interspersed with further assembling, '
     'once every referenced label is defined a successful link() produces the image that a single link at the end of the whole program produces, and '
     'linking again changes nothing. (With the default linker, which leaves the image in place, and link() called between complete blocks, not inside an open .repeat or macro definition.) A failed link() (unknown label, range, alignment) does not corrupt the session: it can be '
     'repaired by assembling the missing label and linked again.',
     ['histories', 'fault_sequences'],
     'every history of assemble / failing link / link / assemble-more / link-again on every CPU and platform, including checksum passes and interrupts during a link',
     'Tests link once, at the end.',
     [A, P + 'gameboy.py'],
     [('label values are merged into zeroed fields', A + ' _resolve_labels'), ('post-link passes recompute checksums', P + 'gameboy.py _fix')],
     observe=['image after each link'])

prop('C09', 'The location counter always agrees with the bytes emitted',
     'At every moment of a session the current address equals the last origin plus the bytes emitted and .ram space reserved since; '
     'a label gets exactly the address current at its definition; .org regions with an end address are filled up to and including that '
     'end, .goto/.upto/.align/.fill/.repeat produce exactly the documented number of bytes; and bytes already emitted are never moved, lost or altered before linking.',
     ['histories', 'programs', 'fault_sequences'],
     'every history of layout and data statements (also with rejected statements and failing includes in between), every CPU fill value and endianness',
     'Tests check isolated directive examples; the invariant is over all sequences of directives and calls.',
     [A],
     [('append_assembled_bytes advances bytes and counter together', A + ' append_assembled_bytes'),
      ('change_org pads the previous region', A + ' change_org'), ('end-of-input fill', A + ' assemble')],
     state=[('org_counter', 'bytes/space since the last origin', A), ('current_org/current_org_end', 'current region', A)],
     observe=['pc after each statement', 'len and content of the image', 'label addresses'])

prop('C10', 'Every reference receives the final value of its label, or linking fails',
     'After a successful link each operand that named a label, or an expression starting with one, holds exactly what the same statement would hold had the '
     'final address (or its distance, for relative operands) been written as a number - whether the label was defined before, after, in another file, '
     'section or call - and only that operand\'s own bits differ from the unlinked bytes. A reference whose label is never defined, whose value does not fit its field or '
     'violates the alignment the instruction needs makes the link fail; it is never silently truncated.',
     ['programs', 'histories'],
     'every order and placement of definitions and references across the calls, files and link attempts of a session, for data directives and the label-taking instructions of every '
     'CPU, both endiannesses, values at and beyond the edges of each field',
     'Tests check a few label examples per CPU with a fixed order and small values.',
     [A] + CPUS,
     [('references are recorded at the position of their field', A + ' add_label_translation / parse_integer_or_label'),
      ('range, sign and alignment are checked at link time', A + ' _resolve_labels')],
     observe=['image after link', 'error raised by link'])

prop('C11', 'Builds are reproducible',
     'The same sources and arguments always produce byte-identical outputs: independent of hash seed, clock, process and thread identity, random numbers, '
     'environment and locale, working directory and absolute location of the tree, logging being on, an older destination being present, other builds before it in the '
     'same process, and the way the OS delivers file data. A build that fails fails with the same error (only printing the log to a stream that cannot show its text may fail on its own).',
     ['configurations', 'schedules', 'fault_sequences', 'histories'],
     'every program and front end under every combination of those environment factors',
     'A test run is one environment; it cannot compare environments.',
     [A, S, L] + PLATS,
     [('ordered tables, no use of time, randomness or identity', A), ('logging only prints', A + ' assemble/_resolve_labels')],
     observe=['output files of paired builds'])

prop('C12', 'No file stays open after a session, whether it worked or failed',
     'When assemble, assemble_file, an include directive, save or a front end returns or raises - also after a failing open, read, write or conversion, and after interrupts - every '
     'file it opened has been closed; repeating builds in one process therefore never exhausts descriptors. ',
     ['fault_sequences', 'histories'],
     'every sequence of builds with failures and I/O faults at any operation, on every file-reading directive and writer',
     'Tests do not count descriptors and do not inject I/O faults.',
     [A, P + 'nes.py', P + 'psx.py'],
     [('files are opened with context managers', A + ' directive_inc*, assemble_file, save')],
     observe=['open descriptors of the process on the simulated disk'])

prop('C13', 'Console front ends write valid headers, checksums and symbol files',
     'A successful Game Boy build ends with correct header and global checksums over the final image and the fields set by .cartridge_* directives in place; a GBA '
     'build with the correct header complement; a Genesis build with the correct word checksum; a PSX build is padded to 2048 bytes and starts with a header giving its size; '
     'an NES build has the ROM counts in the iNES header and symbol files listing exactly the labels of the ROM and RAM ranges. This holds for whatever the program contains, also after earlier failed or repeated links.',
     ['programs', 'histories', 'fault_sequences'],
     'every program for each platform that the front end accepts, every history of link attempts, every pattern of split writes',
     'There is no test of any platform module.',
     [P + x for x in ('gameboy.py', 'gba.py', 'genesis.py', 'nes.py', 'psx.py')],
     [('post-link checksum pass', P + 'gameboy.py _fix'), ('main() fix-ups before save', P + 'gba.py, genesis.py, psx.py, nes.py')],
     observe=['bytes on disk'])

prop('C14', 'ELF output is internally consistent',
     'An image produced with the ELF linker is a well-formed relocatable object: correct class, endianness and machine, a section header table at the stated offset with one entry '
     'per declared section whose offset and size delimit exactly the bytes assembled in it, string tables that name them, and a symbol table with exactly the exported '
     'labels (after the reserved first entry), each with its section and its distance from the start of that section as its value. The same holds for every image when one linker object is used for several programs.',
     ['programs', 'histories'],
     'every program with sections, exports and labels, 32/64 bit and both endiannesses, every history of reusing a linker',
     'A handful of tests look at ELF output; none reuses a linker or varies layouts.',
     [L, A, P + 'i386_elf32.py', P + 'ppc_elf32.py', P + 'x86_64_elf64.py'],
     [('section table, string tables and symtab are built from the assembler tables', L + ' ELF.link'),
      ('sections are closed with end and size', A + ' directive_section / assemble')],
     observe=['linked image parsed by an independent reader'])

prop('C15', 'Macros, repeats and defines expand to exactly the written-out code',
     'Each use of a macro assembles exactly what its body with that use\'s arguments would assemble if written there, a .repeat block exactly that many copies of its bytes, each with its own '
     'label references (resolved as for written-out copies), and a define exactly what its value would; each use is independent of every earlier use, successful or failed, in the same '
     'or another session.',
     ['programs', 'histories'],
     'every history of definitions and uses, including uses that fail half way, recursive use of macros in macros, re-definition, and uses from several sessions sharing text',
     'Tests expand each macro once or twice, never after a failure.',
     [M, A, S],
     [('macro bodies are substituted on each use and restored', M + ' assemble'), ('repeat duplicates the emitted block', A + ' directive_end_repeat')],
     observe=['image after link'])

prop('C16', 'Every build terminates, cyclic includes and macros included',
     'Every build ends after a number of steps bounded by the size of its (finitely expanded) input; a file that includes itself directly or through others, or a macro that '
     'invokes itself, makes the build fail with an error instead of hanging, crashing the interpreter or producing an image - also while reads are short, interrupted or failing.',
     ['programs', 'fault_sequences'],
     'every include graph and macro call graph with cycles, any interruption pattern of reads',
     'No test has a cycle; non-termination cannot be observed by tests that terminate.',
     [A, M, T],
     [('include and macro expansion recurse through the interpreter stack, which is bounded', A + ' directive_include; ' + M + ' assemble')],
     observe=['how the build ended', 'number of steps and reads'])

prop('C17', 'Errors name the place of the statement that caused them',
     'When an instruction or label, or a directive that is unknown or has the wrong number of arguments, is rejected while assembling, the error message names the line number and file of exactly that statement - inside nested includes, macro bodies (the body '
     'line), after comments, CRLF and blank lines, in any source argument - and its tokens; also after earlier errors in the same session.',
     ['programs', 'histories'],
     'every placement of a rejected statement in every include/macro structure, after any history of earlier failures in the session',
     'Tests check exception types only.',
     [S, T, A, M],
     [('statements carry line and context', T + ' / ' + S), ('exceptions get the statement appended', S + ' Instruction.assemble')],
     observe=['exception text'])

prop('C18', 'Each CPU encodes its instructions as the architecture defines',
     'For each supported CPU every accepted instruction with literal operands assembles to the bytes the architecture manual gives for it.',
     ['inputs'], 'every instruction form and operand value of nine CPUs',
     'Tests sample operand values.', CPUS, [('opcode handlers', 'necroassembler/cpu/*.py')], observe=['assembled bytes'])

prop('C19', 'Numbers and expressions evaluate as documented',
     'Numeric literals in each CPU\'s notations, character literals, negative numbers and operand expressions evaluate to the documented value or are rejected when out of range.',
     ['inputs'], 'every literal and expression', 'Tests sample values.', [A, 'necroassembler/utils.py'],
     [('parse_integer / apply_math_formula / range helpers', A + ', necroassembler/utils.py')], observe=['assembled bytes'])

prop('C20', 'Source text is tokenized as documented',
     'Comments, strings, character literals, brackets, separators and label colons split a source text into the statements and tokens the documentation describes.',
     ['inputs'], 'every source text', 'Tests sample texts.', [T], [('tokenizer state machine', T)], observe=['token lists'])


prop('C21', 'Builds running at the same time do not disturb each other',
     'When several front end builds run at the same time as processes on one machine - over the same sources to different destinations or to the same one, or in directories of their own, '
     'and whatever any of them suffers (errors, a full disk, an interrupt, death at any point) - every other build succeeds and writes exactly the image and symbol files it writes alone, and '
     'no other file of the tree changes.',
     ['schedules', 'fault_sequences', 'crash_points'],
     'every interleaving of the file operations of two or three builds of any front ends, neighbouring destination names, any older outputs, and a fault or death of one of them at any operation',
     'Tests run one thing at a time; shared scratch names, locks or caches only show under a particular interleaving of processes.',
     [A] + PLATS,
     [('every build writes its destination directly; no shared scratch files, caches or locks', A + ' save; ' + P + '*.py main')],
     observe=['all outputs and the rest of the tree after all builds ended'])

prop('C22', 'Handlers, passes and hooks of an own assembler are called exactly once',
     'For an assembler class made by a user, each accepted use of an own instruction or directive calls the handler registered for it (the most derived override, under any of its names, by decorator, '
     'register call or on the object) exactly once, in source order, with the tokens, line and context of that use after define substitution; pre-link passes run exactly once per link before any reference '
     'is resolved, post-link passes exactly once after all were resolved and never when the link failed before; filters and hooks of a reference are called once per resolution with its value, an own linker '
     'is asked for each unresolved label; main() does assemble, link and save with them. Failures in a handler or pass make that call fail and nothing else: later calls behave as specified.',
     ['programs', 'histories', 'fault_sequences'],
     'every generated assembler class (bare or derived from a CPU) and every history of sources, includes, macros, failing handlers and passes, failing and repeated links, on several objects of it',
     'Tests of the framework use fixed classes with a handful of statements, no history and no failure.',
     [A, L, M, S, 'necroassembler/__init__.py'],
     [('opcode/directive decorators and registration tables', A + ' register_instructions/register_directives/opcode/directive'),
      ('pre/post link pass lists', A + ' link'), ('reference attributes filter, hook, bits', A + ' _resolve_labels')],
     observe=['recorded calls with arguments and visible bytes', 'image'])

prop('C23', 'The log tells exactly what is emitted and resolved',
     'While .log is ON every processed statement adds exactly one line (in processing order) to the log which shows exactly the bytes it emitted at the offset they start at (or that it emitted none), and '
     'a link adds exactly one line per label reference with the offset and the bytes of its final value; while it is OFF nothing is logged. This holds through includes, macros, repeats, several '
     'calls and failures in between; .log with another argument than ON or OFF is rejected and changes nothing.',
     ['programs', 'histories', 'fault_sequences'],
     'every program and session history with the log switched on and off anywhere, rejected statements, failing links, any delivery of the text',
     'No test reads the log.',
     [A, M],
     [('assemble prints each statement after it was processed', A + ' assemble'), ('_resolve_labels prints each reference', A + ' _resolve_labels')],
     observe=['standard output of the session', 'image'])

prop('C24', 'Conflicting and impossible statements are rejected in every history',
     'Whatever was assembled, included, rejected or linked before, an assembler never accepts a second definition of a label, a section or an export, an .org or .section origin inside or below what is emitted '
     'in an open bounded region (or an end before its start), a .goto or .upto to before the end of the output, an .endrepeat or .endmacro without its block, a value its data directive cannot hold (also '
     'through a define or a macro), an unknown instruction, directive or mode, a section with permissions that do not exist, a string that is not closed, a directive with more or fewer arguments than it takes (.log, .cartridge and the block ends ignore further ones), a macro used with fewer arguments than it takes, or a file that is missing or cannot be read: the call raises, the front end fails, '
     'and address, bytes and labels stay as they were.',
     ['programs', 'histories', 'fault_sequences'],
     'every generated program and state of a session (regions, sections, labels from other files and calls, links in between), every conflict that the state offers with its boundary values, any delivery',
     'Tests try a rejected statement on an otherwise empty assembler; whether it conflicts depends on everything that came before.',
     [A, S, 'necroassembler/exceptions.py'],
     [('label, section and export tables', A + ' register_label/directive_section/directive_export'), ('overlap checks', A + ' change_org/directive_goto/directive_upto'),
      ('value ranges', A + ' parse_integer, utils.py')],
     observe=['exception', 'address, bytes and labels after it'])

prop('C25', 'A link that fails for a reference blames one that is at fault',
     'When references of a program cannot be satisfied - a label that is unknown (or not defined yet), a value beyond the field, a misaligned target, a negative address - linking fails, and the error names the '
     'label of one of exactly these references: never only labels whose references are fine or belong to statements that were rejected, in every history of calls, includes, rejected statements, earlier '
     'failing links and definitions that came later; the same for the front ends.',
     ['programs', 'histories', 'fault_sequences'],
     'every generated program with unsatisfiable references in any number and place, links at any point of the session',
     'Tests have one reference in an otherwise empty program; whether the right one is blamed depends on all the others.',
     [A, 'necroassembler/linker.py', 'necroassembler/exceptions.py'],
     [('the checks of each reference', A + ' _resolve_labels'), ('unknown labels', 'necroassembler/linker.py Dummy.resolve_unknown_symbol, apply_math_formula')],
     observe=['exception of the link'])
