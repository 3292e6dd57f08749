S = 'Seeded search, not exhaustive: what was not sampled is not covered. Trusts the simulated disk (libc interposition) and '
M = 'the hand-written reference model and instruction tables in /verif/dst.'
LEVEL_NOTE = {
    'C01': S + 'the tree snapshots. Failure causes: bad statements, unlinkable references, missing/unreadable/bad inputs, include cycles, an exception at any executed line before the output is opened.',
    'C02': S + M + ' ELF images are compared with a healthy build of the same tree.',
    'C03': S + M + ' Pillow is a stub; text sources are ASCII.',
    'C04': S + M + ' Death is process death: what was written stays (no power loss model, the code never syncs).',
    'C05': S + M,
    'C06': S + 'line granularity of the thread switches (sys.settrace); the oracle is the same session alone in a fresh process.',
    'C07': S + 'the metamorphic oracle: the same history without the rejected statements.',
    'C08': S + M,
    'C09': S + M,
    'C10': S + M + ' Recorded findings: mips32/psx j/jal to unaligned labels, undefined symbols with the ELF linker.',
    'C11': S + 'the pairing of builds: the oracle is equality of outputs.',
    'C12': S + 'descriptor accounting of the simulated disk; an interrupt is delivered at function entry.',
    'C13': S + 'an independent recomputation of every header field from the documented formats.',
    'C14': S + 'an independent ELF reader.',
    'C15': S + 'the oracle is the program with every use written out, and the reference model.',
    'C16': S + 'a budget of executed lines proportional to the finitely expanded input.',
    'C17': S + 'the line bookkeeping of the program generator.',
    'C21': S + 'lock step of real processes at file operations (libc interposition); the model and, for ELF, a build alone.',
    'C22': S + 'a model of the framework written from its documentation.',
    'C23': S + M + ' Only the parts of a log line that tell bytes, offsets and references are read.',
    'C25': S + M + ' The references at fault are those that the model cannot satisfy; any of them may be named.',
    'C24': S + M + ' The conflicts that a state offers are taken from the model.',
}
NOT_APPLICABLE = {
    'C18': 'A pure function from one instruction text to bytes: no schedule, time, I/O, crash or history for a simulator to decide; it needs architecture tables compared by enumeration. (Literal forms of the '
           'tables in dst/backends.py are still compared in passing by the runs of C05, C09 and C10.)',
    'C19': 'A pure function from a token to a number: nothing in it depends on scheduling, faults, time or history; input enumeration against an evaluator is another technique.',
    'C20': 'A pure function from a text to token lists: no nondeterminism to simulate; it is exercised only as a side effect of every simulated build.',
}
