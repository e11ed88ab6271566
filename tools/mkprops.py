#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    d = {'id': id, 'title': title, 'statement': ' '.join(statement.split()),
         'quantifier': {'over': over, 'text': ' '.join(text.split())},
         'why_tests_cant': ' '.join(why.split()),
         'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}}
    if state: d['anchors']['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe: d['anchors']['observe_at'] = observe
    assert len(title) <= 80, title
    P.append(d)

prop('S01', 'Row-wise and ordering operators deliver exactly their defined output',
 '''For every pipeline built from generation, map, select, head, tail, sort, reverse, unique, expand and squish,
 the output is exactly the sequence of rows those operators define, each row once, in the defined order, with
 the row structure (single values, tuples, lists) they define. This holds for every input sequence, including
 empty ones, and for every composition of the operators.''',
 ['inputs', 'programs'],
 'All finite input sequences of values, tuples and lists, and all pipelines composed of these operators with any arguments.',
 '''The tests run each operator alone or in one fixed composition on one fixed input; nothing samples compositions,
 empty inputs at every stage or argument boundary values (0, 1, -1, length).''',
 ['marcel/core.py', 'marcel/pipeline.py', 'marcel/op/gen.py', 'marcel/op/map.py', 'marcel/op/select.py', 'marcel/op/head.py',
  'marcel/op/tail.py', 'marcel/op/sort.py', 'marcel/op/reverse.py', 'marcel/op/unique.py', 'marcel/op/expand.py', 'marcel/op/squish.py'],
 [('push of a row and wrapping of single values', 'marcel/core.py: Op.send, Op.receive_input'),
  ('end of stream', 'marcel/core.py: Op.propagate_flush; marcel/pipeline.py: PipelineExecutable.flush'),
  ('per-operator receive/flush', 'marcel/op/*.py')],
 ['what the pipeline prints', 'what the API iterator yields'])

prop('S02', 'Union, intersect, difference, filter and join follow bag and join algebra',
 '''Combining the current stream with the output of another pipeline behaves as bag algebra: union concatenates,
 intersect keeps each row the minimum number of times it occurs on both sides, difference removes one occurrence per
 occurrence on the other side, filter keeps (or with the discard option drops) the rows whose key occurs on the other side.
 join pairs each row with every row of the other side having an equal first value, in the order produced by the other side, and with
 keep also passes unmatched rows.''',
 ['inputs', 'programs'],
 'All pairs of finite streams with duplicates, misses, None keys and empty sides, for one or several argument pipelines, used at top level or nested and re-executed.',
 '''Tests use one pair of inputs per operator, at top level only: multiplicities, empty sides, None keys, and a second execution
 of the same operator instance are never exercised.''',
 ['marcel/op/union.py', 'marcel/op/intersect.py', 'marcel/op/difference.py', 'marcel/op/filter.py', 'marcel/op/join.py', 'marcel/pipeline.py'],
 [('argument pipelines loaded into a map/counter on first receipt', 'marcel/op/{intersect,difference,filter,join}.py: receive, customize_pipelines'),
  ('appending the loader to the argument pipeline', 'marcel/pipeline.py: append_immutable')],
 ['what the pipeline prints'])

prop('S03', 'Reduction computes exact totals, groups and running totals',
 '''A reduction yields the fold of the input with the given functions: without grouping markers, one row for the whole stream;
 with grouping markers, exactly one row per distinct group value, in order of first appearance, reduced over exactly the rows of that group.
 In incremental mode every input row is passed on, in order, extended with the reduction (of its group, if grouped) of everything up to and including that row.''',
 ['inputs', 'programs'],
 'All finite streams of rows, all reduction functions offered (arithmetic, min/max, count, concat, logical, user functions), all placements of grouping markers, incremental or not.',
 'Tests try a few fixed inputs per reduction; they cannot cover the combinations of marker placement, group interleaving, incremental mode, and empty or one-row streams.',
 ['marcel/op/red.py', 'marcel/reduction.py', 'marcel/core.py'],
 [('group accumulators keyed by grouping columns', 'marcel/op/red.py: GroupingReducer'), ('single accumulator', 'marcel/op/red.py: NonGroupingReducer'),
  ('symbolic reductions', 'marcel/reduction.py')],
 ['what the pipeline prints'])

prop('S04', 'Windows partition or slide over the stream exactly as specified',
 '''Overlapping windows of size N start exactly one window at every input row and contain that row and the N-1 following ones, padded with None after the last row;
 disjoint windows partition the stream in order into groups of N, padding only the last one; predicate windows start a new group exactly at the rows satisfying the predicate.
 The stream of windows ends properly (also for empty input) so that downstream operators produce their final output.''',
 ['inputs', 'programs'],
 'All finite streams (shorter than, equal to, longer than the window), all N >= 1, all predicates, any position in the pipeline, also nested.',
 'Tests use one ten-row input; streams shorter than the window, empty streams, and what a downstream operator sees at the end are not covered.',
 ['marcel/op/window.py'],
 [('window generators', 'marcel/op/window.py: PredicateWindow, OverlapWindow, DisjointWindow')],
 ['what the pipeline prints'])

prop('S05', 'Running a pipeline again gives what a first run would give',
 '''A pipeline value, however it is executed (by name, as argument of args/case/union/join and other operators, from another pipeline,
 through the API) produces on every execution what a freshly written copy of it would produce on the same input.
 No row, counter, group, position number or cached side input of one execution is visible in another, whether the executions follow each other,
 are nested, or the earlier one failed.''',
 ['inputs', 'programs', 'histories'],
 'All pipelines with stateful operators, executed any number of times, with different parameters, after errors, nested in each other.',
 'Tests execute a pipeline value once or twice with stateless operators; operator instances keep state between executions, so the failure needs a second execution of a stateful operator.',
 ['marcel/pipeline.py', 'marcel/core.py', 'marcel/op/args.py', 'marcel/op/case.py', 'marcel/op/runpipeline.py', 'marcel/op/*.py'],
 [('copy before execution', 'marcel/pipeline.py: PipelineExecutable.copy, PipelineMarcel.run_pipeline, prepare_to_receive'),
  ('reset of operator state', 'Op.setup of every operator')],
 ['what each execution prints'])

prop('S06', 'A failing row becomes one error in the stream and harms no other row',
 '''When evaluating a user function on a row fails, exactly one error appears in the output for that row, at the point of the stream where the row was processed, and every other row
 is processed as if the failing row had not been there; errors travel through all later operators unchanged.
 After any command, failed or not, the session accepts the next command and its output is what it would be without the failed one.''',
 ['inputs', 'programs', 'fault_sequences'],
 'All pipelines, all subsets of rows failing at any operator, at any nesting depth, followed by any further command.',
 'Tests have one failing row in one operator; which combinations of failing row, operator, nesting and later commands corrupt state cannot be sampled by hand.',
 ['marcel/core.py', 'marcel/object/error.py', 'marcel/pipeline.py', 'marcel/main.py', 'marcel/function.py', 'marcel/op/*.py'],
 [('conversion of an exception to an error row', 'marcel/core.py: Op.call, fatal_error, non_fatal_error, receive_input'),
  ('propagation', 'marcel/core.py: Op.receive_error, send_error'), ('command level handling', 'marcel/main.py: parse_and_run_command')],
 ['what commands print'])

prop('S07', 'Nested pipelines receive exactly the rows and arguments meant for them',
 '''args executes its pipeline once per input row (or per row group matching the pipeline's parameter count) with the parameters bound to that row's values, in order, and passes on all output in order;
 case sends every row to the first branch whose predicate holds, else to the default branch, and to no other.
 Pipelines called by name bind named and positional arguments to their parameters as a function call does (a parameter without argument is None, surplus or unknown arguments are refused), and nested pipelines see the parameters of the pipelines they are written in.''',
 ['inputs', 'programs'],
 'All parameter lists (0..n parameters), call forms, row shapes, branch predicates and nesting depths.',
 'Tests have a handful of fixed calls; combination of arity, nesting depth, case inside args inside a named pipeline, and row shapes is open ended.',
 ['marcel/op/args.py', 'marcel/op/case.py', 'marcel/op/runpipeline.py', 'marcel/pipeline.py', 'marcel/nestednamespace.py'],
 [('row to parameter binding', 'marcel/op/args.py: receive'), ('branch dispatch', 'marcel/op/case.py: receive'), ('call binding', 'marcel/op/runpipeline.py')],
 ['what the pipeline prints'])

prop('N01', 'Running a pipeline leaves all variables outside it as they were',
 '''Parameters of a pipeline are visible only inside that pipeline and while it runs, shadowing outer variables of the same name; when it ends, normally or by an error, every variable visible before has its previous value again.
 Variables assigned inside a running pipeline behave the same at every nesting depth, and nothing of an inner scope remains.''',
 ['inputs', 'programs', 'histories'],
 'All sequences of assignments, deletions and (nested, failing) parameterized pipeline executions over all coincidences of variable and parameter names.',
 'Tests never let a parameter coincide with an existing variable and look at the variable afterwards; it needs a particular name coincidence and a subsequent observation.',
 ['marcel/nestednamespace.py', 'marcel/pipeline.py', 'marcel/env.py'],
 [('scope stack', 'marcel/nestednamespace.py: push_scope, pop_scope'), ('scope per execution', 'marcel/pipeline.py: run_pipeline')],
 ['values of variables printed afterwards', 'env'])

prop('N02', 'Variables behave as a map, and protected variables cannot be changed',
 '''Assignment, deletion and listing of variables behave as a map from names to values for values of every kind (data, functions, pipelines, command output): a read gives the last value assigned, deleted names are undefined, and a command that is refused leaves all variables as they were.
 Variables supplied by marcel or by the startup script are refused for assignment, deletion and storing of command output, with their values unchanged.''',
 ['inputs', 'histories'],
 'All sequences of assign, redirect-to-variable, delete, list and failing commands over all variable kinds and protected names.',
 'Tests look at short fixed histories and at one or two protected names.',
 ['marcel/env.py', 'marcel/nestednamespace.py', 'marcel/op/assign.py', 'marcel/op/env.py', 'marcel/op/store.py', 'marcel/object/workspace.py'],
 [('assignment', 'marcel/op/assign.py; marcel/env.py: setvar'), ('protection', 'marcel/env.py: enforce_var_immutability, VarHandler.check_mutability'), ('deletion', 'marcel/env.py: delvar')],
 ['env output', 'values printed'])

prop('N03', 'A workspace restores exactly the variables it had when it was closed',
 '''After closing and reopening a named workspace, in the same or a new process, its variables (data, functions, pipelines, imports and stored streams) are exactly those that existed at close: each with an equal, working value, none missing, and none that had been deleted or overwritten coming back.
 Variables of one workspace are never visible in another, and those of the default workspace vanish with the session.''',
 ['histories', 'inputs'],
 'All histories of assign, overwrite, delete, open, close, switch and process restart over several workspaces and kinds of variables.',
 'The persistence test runs one history with assignments only; deletion, overwriting with another kind of value, and switching between several workspaces are not covered.',
 ['marcel/object/workspace.py', 'marcel/nestednamespace.py', 'marcel/env.py', 'marcel/main.py', 'marcel/op/ws.py'],
 [('saving', 'marcel/object/workspace.py: close, write_environment; marcel/nestednamespace.py: persistent_state'), ('loading', 'marcel/nestednamespace.py: reconstitute; marcel/env.py: EnvironmentInteractive.create')],
 ['env output and values after reopening', 'files in the data directory'])

prop('R01', 'Stored streams return exactly what was stored, and appends accumulate',
 '''Storing the output of a pipeline in a variable or a file and loading it back yields the same rows in the same order; storing again replaces, appending adds at the end, and reading never changes what is stored.
 A stored stream that is being read cannot be overwritten or appended to by the same command: that is refused and leaves it intact.''',
 ['inputs', 'histories'],
 'All histories of store, append, load and overwrite operations (operator, arrow and assignment forms) over several variables and files, including a pipeline that reads and writes the same one.',
 'Tests run one store/append/load sequence; interleavings of several stores, kinds of target and self-referencing pipelines are not covered.',
 ['marcel/op/store.py', 'marcel/op/load.py', 'marcel/op/redirect.py', 'marcel/picklefile.py', 'marcel/reservoir.py', 'marcel/parser.py'],
 [('reader/writer exclusion', 'marcel/picklefile.py'), ('store', 'marcel/op/store.py: StoreToVar'), ('load', 'marcel/op/load.py')],
 ['rows printed on loading', 'file contents'])

prop('F01', 'Written files read back to the same rows in every format',
 '''Writing rows with a given format (default, CSV, TSV, pickle) to a file and reading that file in the same format yields the same rows, with the documented conversions, one output row per line or record and none lost.
 Overwriting replaces the file, appending extends it, several files are read one after the other, each completely, and headings/labels are attached or skipped exactly as requested.''',
 ['inputs', 'programs'],
 'All rows of strings (quotes, delimiters, empty values, blank lines, unicode) and numbers, all format and option combinations, all overwrite/append sequences.',
 'Tests read a few hand written files; fields with delimiters and quotes, blank lines, empty files, multiple files with headings are not combined.',
 ['marcel/op/read.py', 'marcel/op/write.py', 'marcel/op/redirect.py', 'marcel/op/filenamesop.py'],
 [('readers', 'marcel/op/read.py: *Reader'), ('writers', 'marcel/op/write.py: *Writer')],
 ['file contents', 'rows printed'])

prop('W01', 'A workspace is open in at most one process at a time',
 '''At any time at most one live process has a given named workspace open; any other process trying to open or delete it is refused with a message and leaves it untouched.
 A process that fails to open a workspace keeps its current one open and usable.''',
 ['schedules', 'histories'],
 'All interleavings of open, close, create, delete and exit by several processes, at the granularity of file system operations.',
 'The tests use one process at a time (or strictly alternating ones); the interleaving inside the locking protocol is never exercised.',
 ['marcel/object/workspace.py', 'marcel/op/ws.py', 'marcel/locations.py', 'marcel/main.py'],
 [('ownership marker renamed atomically', 'marcel/object/workspace.py: Marker, lock_workspace, unlock_workspace, owner')],
 ['marker files', 'output of ws in each process'])

prop('W02', 'A crash never loses, locks or corrupts a workspace',
 '''If the process owning a workspace dies at any point, the workspace remains listed, can be opened again by another process, and has the variables of its last completed close (or, if the crash happened while saving, either the old or the new ones).
 No crash leaves a workspace permanently in use, and none damages another workspace.''',
 ['crash_points', 'histories'],
 'Every point (every file system effect) at which the owning process can die during create, open, use, close, switch and delete.',
 'No test kills a process between two file system operations; the recovery code for abandoned locks is reached only after a crash.',
 ['marcel/object/workspace.py', 'marcel/persistence/persistence.py', 'marcel/main.py'],
 [('abandoned markers', 'marcel/object/workspace.py: Marker.owner, delete_abandoned_markers'), ('saving the environment', 'marcel/object/workspace.py: write_environment')],
 ['directory tree after the crash', 'behaviour of the next process'])

prop('W03', 'Workspace commands follow the workspace life cycle',
 '''create, open, close, delete, list and home commands follow the life cycle: a name can be created once, only existing workspaces open, closing returns to the default workspace, only workspaces that are not open can be deleted, and invalid names or inapplicable commands are refused and change nothing.
 The current workspace reported by every means is the same, and opening goes to the home directory set for the workspace.''',
 ['histories', 'inputs'],
 'All sequences of workspace commands over several names, valid and invalid, with files and directories changing in between.',
 'The life cycle test follows one sequence; the property is about every sequence of commands.',
 ['marcel/op/ws.py', 'marcel/object/workspace.py', 'marcel/main.py', 'marcel/locations.py'],
 [('commands', 'marcel/op/ws.py: WsImpl subclasses'), ('switching', 'marcel/main.py: ReconfigureException handling')],
 ['ws and ws -l output', 'WORKSPACE variable', 'directories on disk'])

prop('W04', 'Damaged workspaces are set aside and undamaged ones untouched',
 '''Starting with any subset of workspaces damaged in any recognised way (missing or additional files or directories, a file in place of a directory, a marker that is missing or of a process which died) moves exactly the damaged ones aside with their remaining contents preserved, reports them, and leaves every other workspace unchanged and usable.
 A session always starts, in the default workspace (replaced by a new one if that is damaged) when the chosen one is damaged.''',
 ['inputs', 'configurations', 'fault_sequences'],
 'All combinations of damage kinds over sets of workspaces, for every starting workspace.',
 'The validation test damages one workspace at a time in one order.',
 ['marcel/object/workspace.py', 'marcel/persistence/persistence.py', 'marcel/main.py', 'marcel/locations.py'],
 [('validation', 'marcel/object/workspace.py: WorkspaceValidater, WorkspaceDefaultValidater'), ('quarantine', 'marcel/object/workspace.py: mark_broken')],
 ['directory tree before and after', 'messages'])

prop('D01', 'Directory commands keep PWD, the process directory and the stack consistent',
 '''After any sequence of cd, pushd, popd and dirs commands, valid or failing, the current directory printed, the directory in which relative paths and external programs are resolved, the PWD variable and the top of the directory stack are the same directory.
 pushd/popd act as a stack (pushd without argument exchanges the top two entries, popd returns to the directory below), and a failing command (missing, not a directory, no permission) leaves everything unchanged.''',
 ['histories', 'inputs', 'fault_sequences'],
 'All sequences of directory commands with valid, relative, missing, removed and file arguments.',
 'The tests follow one sequence of valid commands plus a few failing ones in isolation.',
 ['marcel/directorystate.py', 'marcel/op/cd.py', 'marcel/op/pushd.py', 'marcel/op/popd.py', 'marcel/op/dirs.py', 'marcel/op/pwd.py'],
 [('stack and PWD updates', 'marcel/directorystate.py: DirectoryState')],
 ['pwd, dirs and PWD output', 'directory seen by an external program'])

prop('J01', 'Every job is tracked, controllable, and hands its variables to the shell',
 '''Every command run as a job is listed while alive in its true state (foreground, background, paused), moves between states exactly by the documented actions, disappears once it ends or is killed, and at most one job is in the foreground.
 Variable changes made by a job are applied to the session when it completes, in completion order and before the next command that follows it in the foreground, and are lost only if the job was killed.''',
 ['schedules', 'histories', 'fault_sequences'],
 'All interleavings of job creation, pausing, resuming, killing and completion with commands of the session.',
 'No stable test runs jobs at all: tests execute commands in the main process.',
 ['marcel/job.py', 'marcel/main.py', 'marcel/op/jobs.py', 'marcel/op/bg.py', 'marcel/op/fg.py', 'marcel/op/jobop.py'],
 [('job state machine', 'marcel/job.py: Job'), ('tracking', 'marcel/job.py: JobControl'), ('transfer of changes', 'marcel/job.py: ChildListener; marcel/main.py: update_namespace')],
 ['jobs output', 'process states', 'values of variables afterwards'])

prop('K01', 'fork runs every branch to completion and delivers all its output',
 '''fork executes its pipeline exactly once per requested value (or number of times), with the parameter bound to that value, and delivers every row produced by every branch exactly once, in order within a branch, regardless of how fast the branches are; it terminates when all have ended.
 Errors of a branch are delivered as its output and do not affect other branches.''',
 ['schedules', 'inputs'],
 'All relative speeds and finishing orders of the branches, all branch counts and output sizes.',
 'Tests use branches which finish at once; the merging of outputs depends on the order in which branches produce and finish.',
 ['marcel/op/fork.py', 'marcel/op/forkmanager.py'],
 [('worker processes and merge loop', 'marcel/op/forkmanager.py: ForkManager, ForkWorker')],
 ['what the pipeline prints', 'termination'])

prop('P01', 'Text of a command determines its structure, independent of layout',
 '''Command text is tokenised and parsed to the structure the grammar defines: quoting and escaping yield exactly the intended strings (every string can be written, and is passed unchanged to the operator), nested pipelines and expressions nest properly, adjacent strings and expressions concatenate, and whitespace that is not inside a token does not matter.
 Text that is not a sentence of the grammar is refused with a message, executes nothing, and never crashes the session.''',
 ['inputs', 'programs'],
 'All strings as arguments in all quoting styles, all token sequences, all layouts and nesting depths, malformed text included.',
 'Tests parse a fixed list of sentences; the set of texts is infinite and failures sit in token boundaries and quote/escape combinations.',
 ['marcel/parser.py', 'marcel/stringliteral.py', 'marcel/main.py'],
 [('lexer', 'marcel/parser.py: Lexer and Token subclasses'), ('parser', 'marcel/parser.py: Parser'), ('string literals', 'marcel/stringliteral.py')],
 ['output of the parsed command', 'error messages'])

prop('P02', 'Operator arguments are bound by the declared flags or refused',
 '''For every operator, flags in short, long and combined forms bind exactly the declared options with their values, remaining arguments bind to the positional parameters in order, and equivalent spellings are equivalent.
 Unknown or repeated flags, missing or surplus arguments and excluded combinations are refused with a message before anything is executed.''',
 ['inputs', 'programs'],
 'All argument vectors over declared and undeclared flags in all spellings, positions and multiplicities, for every operator.',
 'Tests cover typical vectors; the space of combinations and orders of flags and values is not sampled.',
 ['marcel/argsparser.py', 'marcel/op/*.py'],
 [('flag and anonymous argument parsing', 'marcel/argsparser.py: ArgsParser.parse'), ('constraints', 'marcel/argsparser.py: at_most_one, exactly_one')],
 ['output or error message of the command'])

prop('L01', 'Listing visits every matching file exactly once and nothing else',
 '''Listing files for any set of names and patterns yields exactly the files that exist and match, each exactly once however many arguments denote it, to exactly the depth requested (the names only, one level, all levels), restricted to the requested kinds, ancestors before descendants.
 A link to a directory is followed only if that directory was not listed before, so that the listing always terminates.
 Names that match nothing, and directories that cannot be read (which are reported), do not prevent the others; only if nothing is denoted at all is the command refused.''',
 ['inputs', 'configurations'],
 'All directory trees (with symbolic links, cycles, hidden files, odd names), all argument lists with overlapping names and patterns, all flag combinations.',
 'The ls test is not among the reliably passing tests, and uses one fixed tree.',
 ['marcel/op/ls.py', 'marcel/op/filenamesop.py', 'marcel/op/filenames.py', 'marcel/util.py', 'marcel/object/file.py'],
 [('traversal', 'marcel/op/ls.py, marcel/op/filenamesop.py'), ('pattern expansion and deduplication', 'marcel/op/filenames.py')],
 ['printed paths'])

prop('H01', 'History records every command once, in order, and recalls it exactly',
 '''Every command typed in an interactive session is recorded, numbered in order, with exactly its text (a repetition of the command before it once), in the history of the workspace it was typed in, which later sessions continue.
 The history command lists the commands its arguments select; !N, !!, run and edit run exactly the recorded text (as changed by the editor), ! and edit recording what was run in place of what was typed.
 Recalling a command that does not exist runs nothing.''',
 ['histories', 'inputs'],
 'All sequences of commands (multi-line, failing, recall commands) and sessions.',
 'History is only exercised through a terminal; tests bypass it.',
 ['marcel/reader.py', 'marcel/op/history.py', 'marcel/op/run.py', 'marcel/op/edit.py', 'marcel/object/historyrecord.py'],
 [('recording', 'marcel/reader.py'), ('recall', 'marcel/op/run.py, marcel/reader.py')],
 ['history output', 'history file'])

prop('T01', 'Completion offers exactly the valid continuations of the text',
 '''The candidates offered for a partial command are exactly the operators (programs, if there is no such operator), flags of the operator, help topics, users or files that continue the typed text, each once.
 Replacing the text by a candidate for a file gives a command in which that argument denotes that file, whatever its name and the quotes and escapes typed so far.
 Completion never changes the session and never fails, whatever the text.''',
 ['inputs', 'configurations'],
 'All partial command lines over all directory contents, with all quoting styles.',
 'The tests try fixed lines over one directory.',
 ['marcel/tabcompleter.py', 'marcel/parser.py', 'marcel/argsparser.py'],
 [('candidates', 'marcel/tabcompleter.py: TabCompleter')],
 ['candidates returned'])

prop('B01', 'External programs exchange lines with pipelines losslessly',
 '''An external program in a pipeline receives on its standard input one line per input row, in order, and then end of input; each line it prints becomes exactly one output row, in order, with nothing lost, for any amount of data in either direction and without deadlock.
 Its arguments reach it exactly as quoting and pattern expansion define, and a failing or missing program is reported and leaves the session usable.''',
 ['inputs', 'programs', 'schedules'],
 'All input and output volumes (also larger than pipe buffers), argument texts, programs that stop reading or exit early.',
 'Tests run small outputs through one or two programs.',
 ['marcel/op/bash.py', 'marcel/op/sudo.py', 'marcel/parser.py'],
 [('process streams', 'marcel/op/bash.py')],
 ['rows printed', 'lines seen by the program'])

prop('A01', 'The Python API computes what the command line computes',
 '''A pipeline composed with the API functions and the same pipeline written as a command produce the same rows, errors included, when run, gathered or iterated, and iterating it repeatedly or partially gives the same rows again.
 first returns the first row without needing the rest of the stream.''',
 ['programs', 'inputs'],
 'All pipelines that can be written both ways; all consumption patterns (run, gather, first, complete and partial iteration).',
 'API and command line have separate hand written tests over different inputs; equality of the two is not tested.',
 ['marcel/api.py', 'marcel/pipeline.py', 'marcel/op/apiop.py', 'marcel/op/gather.py', 'marcel/op/first.py'],
 [('API composition', 'marcel/api.py; marcel/pipeline.py: OpList, PipelinePython'), ('iteration', 'marcel/pipeline.py: PipelineIterator')],
 ['values returned', 'rows printed'])

prop('C01', 'Scripts and here-documents run every command in order, like typed input',
 '''A script file or a here-document executes exactly the commands its lines spell (with continuation lines joined and blank lines ignored), in order, each as if typed, continuing after a command that fails, until the end or an exit command.
 A change of workspace takes effect for the commands that follow, and a change of the startup script of the open workspace for the next typed command, (otherwise when the workspace is next opened), with no command skipped or executed twice.
 Opening a workspace runs its startup script, and the commands that asks for, exactly once, before anything else.''',
 ['programs', 'histories'],
 'All scripts: line layouts, continuation lines, failing commands, workspace switches, exit at any place, in all three input modes.',
 'No test runs the shell on a script or on piped input with failures and workspace switches in it.',
 ['marcel/main.py', 'marcel/util.py', 'marcel/op/exit.py', 'marcel/configscript.py'],
 [('line joining', 'marcel/main.py: commands_in_script'), ('main loops', 'marcel/main.py: main_script_run, main_interactive_run')],
 ['output of the process', 'exit status'])

prop('M01', 'Any older storage layout is upgraded without losing anything',
 '''Starting on the files of any earlier version brings them to the current layout with the startup scripts, the workspaces and their contents preserved, and each history too, unless it is of the readline format, which gives way to a notice; repeating the start, or resuming after a start that died half-way, ends in the same state.
 A current layout is not changed by starting.''',
 ['configurations', 'crash_points'],
 'All earlier layouts with any subset of optional files present, and death of the process at any point of the upgrade.',
 'Tests create only the current layout.',
 ['marcel/persistence/storagelayout.py', 'marcel/persistence/persistence.py', 'marcel/locations.py'],
 [('chain of migrations', 'marcel/persistence/storagelayout.py')],
 ['directory tree after start'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
