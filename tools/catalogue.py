TECH = 'symbolic execution of the real Python source, SMT (z3) verdict per path, counterexamples replayed'
NOTE = (' Holds for every value within the bounds in the evidence file; Python semantics is the engine\'s, floats are '
        'exact reals with nan and infinities, the environment is stubbed nondeterministically; path models are re-run on '
        'the real code under the repository\'s interpreter and must give identical observations.')
NA = {}
P = {}


def add(pid, title, statement, over, text, why, files, mech, **k):
    P[pid] = dict(title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, **k)


add('P15', 'Built-in stopping criteria fire exactly on their documented condition',
    'Each built-in stopping criterion (evaluation budget, optimizers started, optimizers converged, kills, kills after '
    'convergence, target value, total time, session time) answers true exactly when its documented condition holds of the '
    'run, at the boundary value included, whether or not it has been asked before. The latest answer is remembered as the '
    'criterion\'s last result.',
    ['inputs', 'histories'], 'all counter values, limits, targets, tolerances and clock readings; sequences of observations',
    'Tests check one or two hand-picked counter values per criterion; boundary values, nan/infinite results, resumed runs '
    'and repeated queries are not enumerated.',
    ['glompo/convergence/'], [('one class per criterion', 'glompo/convergence/*.py:__call__')])

add('P16', 'Combined conditions evaluate, short-circuit and report correctly',
    'Stopping criteria and hunters combined with & and | in any nesting give the value of the boolean expression, '
    'evaluating operands left to right and only while the outcome is still open. After each evaluation the report text '
    'shows, for every part, the value it had in this evaluation or that it was not evaluated, and iterating a combination '
    'yields its elementary conditions in order; the text of a condition names it with the value of each of its settings.',
    ['inputs', 'histories'], 'all expression shapes up to the leaf bound, all leaf outcomes, repeated evaluations',
    'Tests evaluate a handful of fixed trees once; stale values from a previous evaluation need a history of evaluations.',
    ['glompo/common/corebase.py', 'glompo/convergence/basechecker.py', 'glompo/hunters/basehunter.py'],
    [('_AND/_OR/_CombiCore', 'glompo/common/corebase.py')])

add('P17', 'Function-value hunters decide exactly their documented condition',
    'Each hunter that judges by function values, evaluation counts or optimizer type recommends killing the victim exactly '
    'when its documented condition holds of the logged histories, in particular never before its minimum number of '
    'evaluations. The probabilistic ones never kill a victim whose survival is guaranteed and otherwise use exactly the '
    'documented probability.',
    ['inputs', 'histories'], 'all function-value histories up to the bound (nan and infinities where meaningful), all '
    'parameters, all random draws',
    'Tests use fixed histories; boundary histories, negative values and the random draw are not covered.',
    ['glompo/hunters/'], [('__call__ of each hunter', 'glompo/hunters/*.py')])

add('P18', 'Parameter-space hunters decide exactly their documented condition',
    'The distance hunter recommends a kill exactly when the victim\'s latest point lies within the given fraction of the '
    'domain diagonal of the hunter\'s latest point (or, if asked, of any other optimizer still in memory with results); the '
    'step-size hunter exactly when the mean of the victim\'s last steps is at most the given fraction of the diagonal. '
    'Neither fires without enough evaluations, and optimizers whose history was discarded do not hide the others.',
    ['inputs', 'histories'], 'all points in the bounds, relative sizes, numbers of optimizers and sets of ended optimizers',
    'Tests use one fixed geometry and never purge an optimizer from the log before asking.',
    ['glompo/hunters/parameterdistance.py', 'glompo/hunters/stepsize.py', 'glompo/core/optimizerlogger.py'],
    [('ParameterDistance.__call__', 'glompo/hunters/parameterdistance.py'),
     ('StepSize.__call__', 'glompo/hunters/stepsize.py'), ('n_optimizers', 'glompo/core/optimizerlogger.py')])

add('P19', 'Start points lie inside the bounds, in every state of the run',
    'The random, single-point, incumbent and exploit-explore generators always return one start point with one value per '
    'parameter inside the given bounds, in every state of the run, including before any evaluation has been recorded. The '
    'incumbent generator returns the incumbent when there is one; a fixed start point is returned unchanged every time.',
    ['inputs', 'histories'], 'all bounds, all random draws, all logs within bounds, any point of the budget',
    'Tests sample random points for one set of bounds and never ask before the first evaluation.',
    ['glompo/generators/'], [('generate of each generator', 'glompo/generators/*.py')])

add('P20', 'Exploit-explore and basin-hopping starts follow their documented formulas',
    'An exploit-explore start is the blend alpha*known + (1-alpha)*random with alpha = (evaluations/budget)^focus capped at '
    'one, the known point being a best point of an optimizer that beats the worst of them, chosen with probability '
    'proportional to its improvement over that worst. A basin-hopping start lies within the current step of a known best '
    'point; the step changes only every interval-th start, only by the given factor, and never exceeds the maximum.',
    ['inputs', 'histories'], 'all logs, random draws, budgets and step settings within the bounds',
    'Random choices make the formulas unobservable to sampling tests.',
    ['glompo/generators/exploit_explore.py', 'glompo/generators/basinhopping.py'],
    [('generate', 'glompo/generators/exploit_explore.py'), ('generate', 'glompo/generators/basinhopping.py')])

add('P21', 'Selectors hand out the documented optimizer for every request history',
    'For any sequence of requests the cycle selector hands out the configured optimizers in rotation (not advancing when '
    'the next one does not fit the free slots), the random selector any one that fits, and the chain selector the stage set '
    'by the evaluation thresholds, always with the configured arguments. Nothing is handed out when nothing fits, and the '
    'final "no more optimizers" answer is given exactly when the spawn control forbids it or the last threshold has passed.',
    ['inputs', 'histories'], 'all slot demands, free slots, thresholds, limits and counter histories within the bounds',
    'Tests check single requests on fixed selectors.',
    ['glompo/opt_selectors/'], [('select_optimizer', 'glompo/opt_selectors/*.py'),
                                ('spawn control', 'glompo/opt_selectors/spawncontrol.py')])

add('P01', 'The incumbent is always the best recorded evaluation and is what is returned',
    'At every moment of a run the manager\'s result holds the point and value of the lowest evaluation recorded so far (the '
    'first one among equals; nan never counts), with the number of the optimizer that found it and its type. The result '
    'returned at the end is that incumbent together with the number of evaluations; if nothing was found no point is '
    'invented.',
    ['inputs', 'schedules', 'histories'], 'all values (including nan and infinities) and all orders in which the '
    'evaluations of concurrent optimizers are delivered, within the bounds',
    'Tests look at the final result of a few fixed runs; delivery order, ties and non-finite values are not varied.',
    ['glompo/core/manager.py'], [('_process_results', 'glompo/core/manager.py'),
                                 ('best results', 'glompo/core/optimizerlogger.py')])

add('P02', 'Every evaluation taken from the queue is counted and recorded exactly once',
    'Each evaluation an optimizer makes is run once; each result the manager takes from the results queue is counted and '
    'recorded exactly once in the log of the optimizer that made it, with the point, value and details it was evaluated '
    'with, in the order it was delivered and numbered consecutively. Only results of optimizers already killed by the '
    'manager are dropped. The evaluation counter, the log and the returned statistics always agree.',
    ['inputs', 'schedules', 'histories'], 'all values, all delivery orders, any optimizer killed at any hunt, chunked '
    'queues, detailed results with and without headings, within the bounds',
    'Tests count evaluations of a few serial runs; loss, duplication and misattribution depend on the interleaving.',
    ['glompo/core/manager.py', 'glompo/core/function.py', 'glompo/core/optimizerlogger.py'],
    [('_process_results', 'glompo/core/manager.py'), ('RemoteFunctionWrapper', 'glompo/core/function.py')])

add('P03', 'Worker slots are never over-committed, all free ones are offered, ids ascend',
    'The workers of the optimizers running at any moment never exceed max_jobs; the selector is only asked when slots are '
    'free, is offered exactly the free ones, and is asked again as soon as slots become free, before the run waits for '
    'further results, until it has ended spawning, after which it is never asked again. Optimizers are numbered 1, 2, 3, ... '
    'in the order they start and get the number of workers they were given.',
    ['inputs', 'schedules', 'histories'], 'all optimizer sizes and slot totals (to 1000), all orders in which up to 4 '
    'optimizers end, selectors that decline',
    'Tests use one fixed slot layout; over-commitment depends on which optimizers are alive when a slot is filled.',
    ['glompo/core/manager.py'], [('_fill_optimizer_slots', 'glompo/core/manager.py'),
                                 ('_setup_new_optimizer', 'glompo/core/manager.py')])

add('P04', 'Hunts only ever stop live inferior optimizers, on the decision of the conditions',
    'With killing conditions, a hunt is held after a recorded evaluation exactly when at least the configured number of '
    'evaluations have been recorded since the last hunt (without, nobody is stopped before the end of the run): the optimizer '
    'holding the incumbent hunts, and every other optimizer not yet known to have ended and with recorded results is judged '
    'once, on the complete recorded histories. It is stopped exactly when the conditions say so (by message, or by ending its '
    'process if aggressive killing is set for processes), and its record names the hunter and the conditions. A killed '
    'optimizer is never judged again and none of its later results are recorded.',
    ['inputs', 'schedules', 'histories'], 'all values, all delivery orders, all combinations of hunt decisions, hunt '
    'frequencies 1..1000, optimizers that end by themselves meanwhile, within the bounds',
    'Tests run a few hunts with fixed hunters; who may be judged depends on values, order and on who has ended.',
    ['glompo/core/manager.py'], [('_start_hunt', 'glompo/core/manager.py'), ('_shutdown_job', 'glompo/core/manager.py'),
                                 ('_process_results', 'glompo/core/manager.py')])

add('P05', 'Every started optimizer ends in exactly one recorded outcome',
    'By the end of a run each optimizer that was started has exactly one recorded end condition with a stop time: the reason '
    'it announced itself, "terminated normally" if it ended silently, an error with its exit code if it crashed or '
    'disappeared, a GloMPO kill exactly if it was killed, or being closed with the run if it was still running. Messages it '
    'sent before its end (the traceback of a crash included) are recorded once. The counters of converged and killed '
    'optimizers and the returned statistics equal the numbers of such records.',
    ['schedules', 'crash_points', 'histories'], 'all combinations of 7 ways to end for 2 optimizers, threads and processes, '
    'an optimizer ending between any two operations of the manager, kills at any hunt',
    'Tests let one optimizer end in one way at one moment; lost or doubled ends depend on when it happens.',
    ['glompo/core/manager.py', 'glompo/optimizers/baseoptimizer.py'],
    [('_check_signals', 'glompo/core/manager.py'), ('_inspect_children', 'glompo/core/manager.py'),
     ('_minimize', 'glompo/optimizers/baseoptimizer.py')])

add('P06', 'However a run ends, it ends: optimizers are stopped and the result says why',
    'A run always returns a result (it neither hangs nor raises), whether its criterion is met, no optimizers are left, the '
    'user interrupts it, a user-supplied component or a system operation fails, optimizers crash, disappear or hang, or more '
    'results are pending than fit on the results queue. On return every optimizer still alive was told to stop (and that it '
    'is a crash, if so), those which react are not forced, processes which do not react within end_timeout are terminated, '
    'the log is closed once, and the end condition names the cause. Nothing is started if the criterion is met beforehand.',
    ['schedules', 'crash_points'], 'all endings of 2 optimizers, an error or interrupt at every single operation '
    'of the manager or in any component, all orders, within the bounds',
    'Tests interrupt or crash a run at one or two points; deadlocks need particular queue states and moments.',
    ['glompo/core/manager.py', 'glompo/core/_backends.py'],
    [('start_manager', 'glompo/core/manager.py'), ('_stop_all_children', 'glompo/core/manager.py')])

add('P07', 'Only processes silent for too long are forcibly ended, and only if allowed',
    'While a run goes on, a process is forcibly terminated only if force_terminations_after is positive and nothing (start, '
    'result or message) has been received from it for more than that time (not counting time it was paused for a '
    'checkpoint), or it has not ended that long after being killed; '
    'and such a process is terminated in the next round of the manager, once. Threads are never forcibly terminated.',
    ['inputs', 'schedules', 'histories'], 'all clocks (any time may pass between two readings), all limits from -5 to 60, '
    'optimizers that hang at different moments, killed or not, within the bounds',
    'Tests wait in real time with one or two settings.',
    ['glompo/core/manager.py'], [('_inspect_children', 'glompo/core/manager.py')])

add('P08', 'Shared incumbents: every improvement reaches every other running optimizer',
    'With sharing on, whenever a recorded evaluation improves the incumbent its point and value are sent to every other '
    'optimizer running at that moment, and at no other time and to nobody else; with sharing off nothing is sent. Running '
    'optimizers receive them unchanged and in order, the latest being their incumbent.',
    ['inputs', 'schedules', 'histories'], 'all values (nan and infinities included) and delivery orders, optimizers ending '
    'meanwhile, within the bounds',
    'Tests check that one injected value arrives; which results are shared with whom depends on values and order.',
    ['glompo/core/manager.py', 'glompo/optimizers/baseoptimizer.py'],
    [('_update_best_result', 'glompo/core/manager.py'), ('check_messages, inject', 'glompo/optimizers/baseoptimizer.py')])

add('P22', 'Optimizers are set up and called exactly as selector, generator and user asked',
    'For every answer of the selector exactly one optimizer of the given class is made, with the configured settings, workers '
    'and backend and the next number, and called once with the generated start point, the bounds and the configured call '
    'arguments. The configuration is not altered, not even by optimizers changing their own settings when threads are used. '
    'A selector that declines is asked again, one that ended spawning never.',
    ['inputs', 'histories', 'configurations'], 'all settings, bounds and start points, all sequences of up to 5 answers, all '
    'backends',
    'Tests start single optimizers; leaks between optimizers need several of the same kind.',
    ['glompo/core/manager.py'], [('_setup_new_optimizer', 'glompo/core/manager.py'), ('_start_new_job', 'glompo/core/manager.py')])

add('P23', 'The results queue loses, repeats and reorders nothing, chunking or not',
    'Every item put on the results queue is delivered exactly once and in the order put, an item which is refused is not '
    'delivered at all, and at no moment does the queue hold more chunks than its size. Items are held back only after the '
    'queue has once been full, always fewer than one chunk of them, and a flush leaves none behind.',
    ['inputs', 'histories'], 'all sequences of up to 6 operations (puts that wait or not, gets, flushes, explicit caching), all '
    'queue and chunk sizes up to 100', 'Which of its two modes the queue is in, and what it then holds back, depends on the whole '
    'sequence of operations before.',
    ['glompo/core/_backends.py'], [('ChunkingQueue', 'glompo/core/_backends.py')])

add('P26', 'The log, in memory and on file, holds exactly what happened',
    'At any moment the log returns, per optimizer, every result in the order recorded with its point, value and running '
    'number, and the best evaluations and totals over all and per optimizer; results of cleared optimizers remain readable '
    'from the log file. The closed log file holds every optimizer, result, message and end condition of the run once.',
    ['inputs', 'histories'], 'all values (nan and infinities included), all sequences of up to 3 or 4 operations on 2 optimizers, '
    'cleared at any moment, with and without file, kept for plotting or not, any buffer fill',
    'Tests read back one fixed history; what is in the buffer, file and memory depends on the order of all operations before.',
    ['glompo/core/optimizerlogger.py'], [('BaseLogger', 'glompo/core/optimizerlogger.py'), ('FileLogger', 'glompo/core/optimizerlogger.py')])

add('P09', 'What the user asks for during a run is done, exactly once and nothing else',
    'A STOP_<number> file in the working directory stops exactly that optimizer if it is running (a file for one not running '
    'is kept for it, other names are ignored), a CHKPT file causes one checkpoint, each file being removed when it is acted '
    'upon; neither ends the run. Scheduled checkpoints are made exactly when more than the set number of evaluations or seconds '
    'have passed since the last one, at the beginning and at the end exactly if asked for.',
    ['inputs', 'schedules', 'configurations'], 'any two of 12 file names in any of the first rounds, all frequencies within the '
    'bounds, all clocks, all speeds of the optimizers',
    'Tests drop one file at one moment; whether a checkpoint is due depends on counters, clocks and previous checkpoints.',
    ['glompo/core/manager.py', 'glompo/core/checkpointing.py'],
    [('_is_manual_shutdowns', 'glompo/core/manager.py'), ('_checkpoint_optimizers', 'glompo/core/manager.py')])

add('P10', 'A checkpoint captures one consistent moment, and the run goes on unharmed',
    'Whenever a checkpoint is made, the saved counters, log and optimizer states describe the same moment: every evaluation '
    'made is in the saved log, every optimizer still running (and no killed one) is saved once in the state matching its '
    'logged evaluations, and no optimizer goes on while being paused. Afterwards all optimizers are released, and the run goes '
    'on to the same results without loss, whether optimizers end, crash or are killed meanwhile.',
    ['schedules', 'crash_points', 'histories'], 'a checkpoint after any number of evaluations of 2 optimizers, all delivery '
    'orders, an optimizer ending in 6 ways between any two operations of the manager during the checkpoint, kills, chunked queues',
    'Tests checkpoint a couple of serial runs; losing results in flight or waiting for a dead optimizer needs a particular moment.',
    ['glompo/core/manager.py', 'glompo/optimizers/baseoptimizer.py'],
    [('checkpoint, _checkpoint_optimizers', 'glompo/core/manager.py'), ('_checkpoint, check_messages', 'glompo/optimizers/baseoptimizer.py')])

add('P11', 'A failing or interrupted checkpoint never costs an existing one',
    'If any single file operation of a checkpoint fails, or the process is killed or interrupted at it, then either the new '
    'checkpoint is complete or all existing ones are untouched; no incomplete checkpoint or remnant is left by a mere failure, the '
    'optimizers are released, and the run goes on unless asked to raise. After a successful one exactly the newest keep_past '
    'older checkpoints are kept, by age and not by name, and files that are not checkpoints of this format are never touched.',
    ['fault_sequences', 'crash_points', 'configurations'], 'a failure or kill at every single file operation, overwriting or not, '
    'any keep_past, up to 4 old checkpoints among other files, 3 naming formats',
    'Tests never inject a failure into a file operation and check one retention setting.',
    ['glompo/core/manager.py', 'glompo/core/checkpointing.py'], [('checkpoint, _build_checkpoint', 'glompo/core/manager.py')])

add('P12', 'Checkpoint names are new, numbered on, dated right and exactly recognised',
    'A generated checkpoint name has exactly the form of the naming format: every date and time field shows the moment of the '
    'request, and the count is one more than the largest among the existing names of that format (archives included, 0 if there '
    'are none), padded to three digits, so that no existing name is ever generated again. A name is recognised as a checkpoint '
    'of this format exactly if it has its form, with or without the archive extension, and every generated name is recognised.',
    ['inputs', 'histories', 'configurations'], 'any text of printable characters up to 3 characters around the shortest '
    'name, any moment between 1970 and 2099, 12 formats, up to 2 existing files with any names, successive checkpoints',
    'Tests try one name of one format; what is matched or counted depends on every single character of arbitrary file names.',
    ['glompo/core/checkpointing.py'], [('get_name', 'glompo/core/checkpointing.py'),
                                       ('matches_naming_format', 'glompo/core/checkpointing.py')])

add('P13', 'A resumed run continues exactly where the checkpoint was made',
    'A manager loaded from a checkpoint has the settings, counters, best result and log of that moment; started, it restarts '
    'exactly the optimizers that were running, continues their evaluations without gap or repeat, numbers new ones on, never '
    'revives ended or killed ones and returns the best of both parts. The task is the pickled one if it was pickled, else that of '
    'the loader, else the one given, else a clear error; fewer slots are accepted if every optimizer can be given one.',
    ['inputs', 'schedules', 'crash_points', 'histories'], 'a checkpoint after any number of evaluations, all orders, optimizers '
    'ended in 4 ways or killed before it, all ways to save and load the task, 1 to 7 slots',
    'Tests resume one fixed run; lost, repeated or revived work depends on the state at the checkpoint.',
    ['glompo/core/manager.py', 'glompo/optimizers/baseoptimizer.py'], [('load_checkpoint', 'glompo/core/manager.py')])

add('P14', 'The log file of a resumed run is rolled back to the checkpoint and continued',
    'After a resumed run the log file holds exactly what happened up to the checkpoint and what happened since, once and '
    'numbered consecutively, whatever had been written after the checkpoint by the earlier run, and whether that ended or was '
    'killed. If the file was lost a new one holds everything since. A log file of another run, or of one which has gone on '
    'elsewhere, is refused and left untouched.',
    ['inputs', 'schedules', 'crash_points', 'histories'], 'a checkpoint after any number of evaluations of 2 optimizers, any '
    'values, ended or killed at several moments, buffer full or not, resumed once or twice',
    'Tests resume one run that ended gracefully; what must be removed depends on what was in the buffers and on file.',
    ['glompo/core/manager.py', 'glompo/core/optimizerlogger.py'],
    [('start_manager (log file)', 'glompo/core/manager.py'), ('open, _restore_record', 'glompo/core/optimizerlogger.py')])

add('P24', 'Optimizers answer every message of the manager, and resume as saved',
    'An optimizer confirms a pause before and after saving its state, waits until released, stops exactly when told to with the reason '
    'given, records the shared best result exactly as sent, survives messages it does not know, and handles all messages waiting in '
    'their order. A state saved on file and loaded again is the same optimizer at the same point, connected to the channels of the '
    'new run and marked as resumed; a failure to save is reported and does not end the optimizer.',
    ['schedules', 'inputs', 'histories'], 'any 1 to 4 messages, waiting or arriving later, any saved values',
    'Tests send each message once to one optimizer; what is lost or blocked depends on what else is waiting.',
    ['glompo/optimizers/baseoptimizer.py'], [('check_messages, checkpoint_save, checkpoint_load', 'glompo/optimizers/baseoptimizer.py')])

add('P25', 'The provided optimizers report the best of what they evaluated, and obey',
    'The random optimizer makes exactly the set number of evaluations within the bounds, and the CMA optimizer evaluates exactly the '
    'points its strategy asks for, each once, and tells it each with its own value, whether one by one or in parallel; both end with '
    'the best point evaluated and its value, successful unless stopped by the manager. Neither evaluates anything while paused or '
    'after being stopped, shared best results are injected as set, and a resumed one goes on where it was saved without loss.',
    ['schedules', 'inputs', 'histories'], 'any values, up to 3 evaluations or 3 generations of 2 points, a stop or checkpoint at any '
    'moment, 1 or 2 workers and every order in which they end',
    'Tests use the real strategy on a few runs; misalignment of points and values depends on order of completion and values.',
    ['glompo/optimizers/cmawrapper.py', 'glompo/optimizers/random.py'],
    [('minimize, _parallel_map', 'glompo/optimizers/cmawrapper.py'), ('minimize', 'glompo/optimizers/random.py')])

add('P28', 'Set-up refuses what is invalid, and takes over every setting as given',
    'Bounds are accepted exactly if each is finite with the lower below the upper, the number of slots exactly if it is a positive '
    'whole number, by default one less than the processors but at least one; components of the wrong kind are refused, after which '
    'nothing starts, and missing ones get the documented default. Every accepted setting is taken over as given, once, and loading a '
    'checkpoint with one setting changed changes that one and keeps all others.',
    ['inputs', 'configurations'], 'up to 3 parameters with any bounds (infinite and undefined too), any number of slots and '
    'processors, all component kinds, any values of the settings',
    'Tests try a few invalid values; a setting ignored on loading or an invalid bound accepted needs the particular value.',
    ['glompo/core/manager.py', 'glompo/common/helpers.py'],
    [('setup, load_checkpoint', 'glompo/core/manager.py'), ('is_bounds_valid', 'glompo/common/helpers.py')])

add('P32', 'Old results are only removed if allowed, and nothing else ever is',
    'A run that finds results of an earlier run in its working directory refuses to start, leaving everything untouched and starting '
    'nothing, unless overwriting is allowed, in which case it removes exactly those; files of other names and in subdirectories are '
    'never touched. It leaves exactly the files asked for (a summary, a plot, a log file), and makes its directory if missing.',
    ['inputs', 'configurations'], 'any subset of 6 old results among 9 other files, all settings, fresh and resumed runs, ended '
    'by the criterion or an interrupt',
    'Tests try a few directories; which files survive depends on the combination of files, settings and kind of run.',
    ['glompo/core/manager.py'], [('_purge_old_results, _save_log', 'glompo/core/manager.py')])

add('P33', 'The summary, the log file and the returned statistics tell what happened',
    'However a run ends, its summary file, the log file and the returned statistics agree with what happened: the numbers of '
    'evaluations and of started, killed and converged optimizers, the lowest value with its point and origin, the best of each '
    'optimizer, the end of each, and the reason for the end of the run. The periods and total time reported, and the time used up '
    'when a run is resumed, are those during which it ran, and a summary can be asked for at any time.',
    ['inputs', 'schedules', 'histories'], '2 optimizers with any values ended in 4 ways, killed, or stopped by an error at any moment, '
    'any clocks, one or two sessions, checkpoints during, at and after the end',
    'Tests look at one summary of a run; what is counted depends on how and when each optimizer ended.',
    ['glompo/core/manager.py', 'glompo/core/optimizerlogger.py'],
    [('_save_log, start_manager', 'glompo/core/manager.py'), ('put_iteration, close', 'glompo/core/optimizerlogger.py')])

add('P35', 'The output of every optimizer ends up in its own files',
    'If asked for, what an optimizer (and the task it evaluates) prints is found, complete and in order, in files of its own, with '
    'the error which made it crash, whatever the others print meanwhile; everything else, and everything if not asked for, is printed '
    'as usual. Splitting the log messages of the optimizers puts every message which is dealt with into the file of its optimizer, once '
    'and in order, and into the common log as asked.',
    ['schedules', 'inputs', 'fault_sequences'], '2 optimizers (threads or processes) with up to 2 outputs, ended or crashed, optimizer numbers of up to 5 '
    'digits, any order of 5 steps of 3 threads; 3 log messages',
    'Tests let two optimizers print and look at the files; what gets mixed up depends on the interleaving, on reused threads and on crashes.',
    ['glompo/core/_backends.py', 'glompo/common/wrappers.py', 'glompo/common/helpers.py', 'glompo/core/manager.py'],
    [('CustomThread, ThreadPrintRedirect', 'glompo/core/_backends.py'), ('process_print_redirect', 'glompo/common/wrappers.py'),
     ('SplitOptimizerLogs', 'glompo/common/helpers.py'), ('_start_new_job', 'glompo/core/manager.py')])

add('P31', 'The force field interface scales, stores and evaluates the parameters meant',
    'Scaled and real values of the active (or all) parameters are transformed into one another by the ranges of those parameters, '
    'storing and (de)activating affects exactly the parameters named, warning for values out of range, and evaluations run the jobs '
    'once with the real values, reporting error, residuals and headings of the training and validation sets, infinite on failure. '
    'Set-up from classic files takes activity, ranges and start from them, and a run within the host package passes its settings on '
    'and reports success only if something was found.',
    ['inputs', 'configurations', 'fault_sequences'], 'up to 3 parameters, all active sets, any values, ranges with any position, all '
    'failures, all combinations of files',
    'No test runs this interface here (the host package is not installed); errors depend on which parameters are active.',
    ['glompo/interfaces/params.py'],
    [('BaseParamsError, ReaxFFError, GlompoParamsWrapper, setup_reax_from_classic', 'glompo/interfaces/params.py')])
