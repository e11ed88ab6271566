CORE = 'TLA+ operational semantics (Core.tla): TLC validates every recorded command of generated sessions of the real code'
LAWS = CORE + '; the specification itself is checked against the declarative definitions of the operators (CoreLaws.tla, exhaustive)'
for p in ('S01', 'S02', 'S03', 'S04'):
    TECH[p] = (LAWS, 'model_checking', 'Specification exhaustive over all inputs up to the bound and all pairs of operators; implementation bound to it by generated sessions (about 3000 commands quick, 40000 thorough).')
for p in ('S05', 'S06', 'S07', 'N01', 'N02'):
    TECH[p] = (CORE, 'model_checking', 'Every command of every generated session is judged by TLC against the specification; sessions are generated randomly from VERIF_SEED (3000-9000 commands quick).')

TECH['R01'] = ('TLA+ state machine of variables, streams and their files (Streams.tla): exhaustive invariants, and every simulated behaviour replayed on the real code; Core.tla judges recorded store/load sessions',
               'model_checking', 'Model exhaustive for 3 commands over 2 variables; about 900 simulated behaviours of 10 commands replayed (quick), with what every variable holds compared after each.')
TECH['F01'] = ('TLA+ definition of the file formats (Files.tla): round trip checked exhaustively (FilesLaws.tla), recorded sessions of writes and reads of the real code judged by TLC (FilesTrace.tla)',
               'model_checking', 'Round trip exhaustive over the bounds; 90 generated sessions (4000 commands) quick.')
TECH['J01'] = ('TLA+ state machine of jobs (Jobs.tla: foreground, background, paused, ended jobs and what they change): invariants checked exhaustively, simulated behaviours replayed on the real shell with real processes and signals; behaviours of Streams.tla and Scopes.tla replayed with every command run as a job',
               'model_checking', 'Model exhaustive for 3 jobs and 7 actions; 40 behaviours of 8 actions over 4 jobs replayed in real shells (quick).')

WS = 'TLA+ state machine of workspaces and the processes using them (Workspaces.tla: operations in several steps, which interleave and can be cut short by the death of the process); invariants checked exhaustively; recorded sessions of several real shells judged by TLC (WorkspacesTrace.tla)'
TECH['N03'] = (WS, 'model_checking', '400 generated sessions (10000 operations) of shells opening, closing and restarting, with variables of every kind tried out after each; random from VERIF_SEED.')
TECH['W01'] = (WS, 'model_checking', 'Model exhaustive for 2 shells, 2 names, 6 operations; 360 sessions of up to 3 real shells, in which a shell is held before any one of its file changes while others go on (quick).')
TECH['W02'] = (WS, 'model_checking', 'Model exhaustive for 2 shells, 2 names, 6 operations; 400 sessions of real shells killed before any one of their file changes, and between them (about 600 deaths, quick).')
TECH['W03'] = (WS, 'model_checking', '350 generated sessions of up to 3 shells with valid and invalid commands (quick).')
TECH['W04'] = ('TLA+ specification of damage to workspaces and what becomes of them (Damage.tla), checked exhaustively; sessions in which files of workspaces are damaged, with the trees before and after compared, judged by TLC (DamageTrace.tla)',
               'model_checking', 'Model exhaustive for 2 named workspaces, 3 kinds of damage, 7 actions; 300 sessions with about 2500 damages of 14 kinds (quick).')
TECH['K01'] = ('TLA+ model of branches, channels and the merging process (Fork.tla): safety and termination checked exhaustively, simulated schedules (crashes included) replayed on real processes; recorded fork commands judged by TLC (ForkTrace.tla: the output is an interleaving of what Core.tla gives for the branches)',
               'model_checking', 'Model exhaustive for 2 (thorough: 3) branches of 2 steps; 60 schedules and 240 generated commands replayed (quick), plus large, slow, dying and refused ones in process and in the real shell.')
TECH['A01'] = ('TLA+ operational semantics (Core.tla) as the meaning of pipelines composed with the Python API: TLC validates what every way of consuming them gave (ApiTrace.tla)',
               'model_checking', '100 generated sessions, 1800 pipelines (quick), consumed by run, gather, first, complete, partial and repeated iteration; fixed families for laziness of first and for reuse of pipelines within pipelines.')
TECH['D01'] = ('TLA+ state machine of the current directory and the directory stack in a changing file system (Dirs.tla), checked exhaustively; simulated behaviours replayed in sessions of an unprivileged user and in the real shell',
               'model_checking', 'Model exhaustive for 6 actions over 6 arguments (thorough: 8); 120 behaviours of 24 actions over 38 arguments replayed in sessions, 16 in the real shell with commands run as jobs (quick).')
TECH['M01'] = ('TLA+ specification of the storage layouts of all versions and of the migrations between them, with death at any step (Storage.tla), checked exhaustively, termination included; starts of marcel on the trees which the specification gives, killed before any change of the file system, judged by TLC (StorageTrace.tla)',
               'model_checking', 'Model exhaustive for 214 combinations of layout and files present, 2 deaths; 520 real sequences of starts with up to 3 deaths each (quick).')
TECH['B01'] = ('TLA+ model of a shell, a program and the bounded pipes between them (Bash.tla), model checked for order, completeness and termination under all schedules; real pipelines with programs generated from its steps judged by TLC (BashTrace.tla), with texts and arguments judged by a TLA+ definition of lines and words',
               'model_checking', 'Model exhaustive for all programs of 3 steps and 3 units of input (thorough: 4) with failures of the operators around; 48 sessions of 12 commands and 48 commands in the real shell (quick), units up to 200 KB.')
TECH['P01'] = ('TLA+ specification of the lexer and the grammar of commands over code points (Text.tla), with laws of quoting checked exhaustively; texts (sentences in random layout and quoting, mutations of them, every short sequence of tokens and every way of quoting every short string) run as commands and judged by TLC: text -> tokens -> command -> result (TextTrace.tla, on Core.tla)',
               'model_checking', 'Laws exhaustive for texts of up to 3 (thorough: 5) of 13 characters; about 13000 texts in 900 sessions (quick).')
TECH['P02'] = ('TLA+ specification of the declared arguments of 40 operators and of binding argument vectors to them (Args.tla); bindings generated from the declarations, in all spellings, with mutations, run as commands; TLC judges binding or refusal, that nothing ran before a refusal, the meaning of what is bound (on Core.tla), and that equivalent spellings do the same (ArgsTrace.tla)',
               'model_checking', 'About 2600 argument vectors for 43 operators (quick), half of them refused for 9 different reasons.')
TECH['C01'] = ('TLA+ specification of reading commands from the lines of a text, and of what runs of them do to workspaces, variables and startup scripts (Script.tla), with laws checked exhaustively (ScriptLaws.tla); series of runs of the real program in its three input modes, sharing a home directory, judged by TLC (ScriptTrace.tla)',
               'model_checking', 'Laws exhaustive for all texts and command sequences of 3 lines (thorough: 4); 110 series of 2-4 runs, about 6000 lines (quick).')
TECH['L01'] = ('TLA+ specification of resolving names and patterns in a tree of directories, files and links, and of traversing it (Listing.tla), checked exhaustively against declarative laws on all small trees (ListingLaws.tla); ls commands on generated trees, some with denied directories, judged by TLC (ListingTrace.tla)',
               'model_checking', 'Laws exhaustive for all trees with 4 (thorough: 5) slots, links, 2 arguments of 5, 5 sets of flags; 160 trees with 2240 commands (quick).')
TECH['H01'] = ('TLA+ specification of what typing at the shell records, and of what !, !!, run and edit make of it, per workspace and across runs (History.tla), with laws checked exhaustively (HistoryLaws.tla); sessions typed through a pseudo-terminal at the real program, judged by TLC after each command (HistoryTrace.tla)',
               'model_checking', 'Laws exhaustive for all sequences of 3 (thorough: 4) of 26 inputs; 56 sessions of 1-3 runs, about 1200 typed commands (quick).')
TECH['T01'] = ('TLA+ specification of the tokens a typed text denotes and of the candidates that continue it (Complete.tla; flags as declared in Args.tla), with laws checked for all short names and ways of typing them (CompleteLaws.tla); candidates of the real completer in generated directories, judged by TLC (CompleteTrace.tla)',
               'model_checking', 'Laws exhaustive for all names of 2 (thorough: 3) of 7 characters, 3 quotings, cut anywhere; 60 trees with 3600 lines (quick).')
