EDIT = 'TLA+ trace validation (TLC) of key sequences and screens against an executable editor specification, TLC-generated key sequences replayed, model checking of the editor specification'
for i in ('C08', 'C09', 'C15', 'C16', 'C17', 'C20', 'C23'):
    TECH[i] = SESS
    NOTE[i] = 'Every answer and a snapshot of all tables after every line are compared with the specification; TLC enumerates the short behaviours that are replayed, seeded long ones beyond. Trusts TLC, the emulator and SQLite as a reader.'
TECH['C18'] = 'TLA+: crash model checked by TLC; the program killed before every disk operation and the recovered tables and later answers validated against the specification'
NOTE['C18'] = 'Kills fall between system calls (SIGKILL); loss of power, with writes that were not synced, is C26. Trusts the LD_PRELOAD shim to see every disk operation.'
TECH['C19'] = 'TLA+: interleavings model checked by TLC; chosen interleavings of the real transactions, stops between read and write, and free contention validated against the specification'
NOTE['C19'] = 'Interleavings at the granularity of transactions and lock requests, by gates in an LD_PRELOAD shim; free-running rounds accept any interleaving of the specification.'
for i in ('C12', 'C13', 'C14', 'C21'):
    TECH[i] = EDIT
    NOTE[i] = 'Keys go to the unmodified program on a pseudo-terminal; TLC decides from the specification what has to be submitted or visible. Exhaustive for short sequences, seeded for long ones. Trusts the small xterm emulator in harness/term.py.'
NOTE['C21'] = 'Ends by keys, by failures at the start and later, and by narrow terminals, in both screen modes. Ends by other signals are not part of the property.'
TECH['C22'] = 'TLA+ trace validation (TLC): pairs of a one-shot run and a session answer against the specification'

TECH['C24'] = 'TLA+ trace validation (TLC): every error line against the set of true sayings the specification derives; model checking that the transcribed parser reports only true causes'
NOTE['C24'] = 'A message is accepted if what it says is true of the line and, for failed evaluations, is the first cause. Trusts TLC and the terminal emulator.'
TECH['C25'] = EDIT
NOTE['C25'] = 'Keys and lines written in pieces without waiting for prompts; TLC decides from the specification what all rows, the saved lines and the last screen are. Which arrival times occur is up to the scheduler and seeded pauses.'

TECH['C26'] = 'TLA+: the commit protocol under loss of power model checked by TLC; disks that a loss of power may leave are derived from the recorded writes and syncs of the real program, opened, and validated against the specification'
NOTE['C26'] = 'At every disk operation: no, all and seeded subsets of the unsynced writes (whole, or torn at sectors), directory operations in order. Directories themselves are taken to last once made. Trusts the LD_PRELOAD shim to see every disk operation; it checks that the recorded operations explain the files.'

TECH['C27'] = 'TLA+: a transaction on a failing disk and its recovery model checked by TLC; every disk operation of the real program made to fail in turn, answers and tables validated against the specification'
NOTE['C27'] = 'One LD_PRELOAD shim makes operations fail with EIO, ENOSPC, EROFS or EACCES, once, twice or from then on. Failing operations on the terminal are not part of the property.'
