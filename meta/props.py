"""The properties: statements, anchors and how each is decided."""
PROPS = []


def P(id, title, statement, over, q, why, files, mech, technique='', note='', na=None):
    d = dict(id=id, title=title, statement=statement, over=over, q=q, why=why, files=files, mech=mech,
             technique=technique, note=note)
    if na:
        d['na'] = na
    PROPS.append(d)


C = 'include/stlab/concurrency/'

P('L01', 'User code never runs while the library holds one of its locks',
  'A callable, process, executor or continuation supplied by the user is never invoked, and a future is never released, while the '
  'library holds one of its internal mutexes. User code may therefore call back into the same future, channel, queue or executor '
  'without deadlocking and never blocks other users of the library.',
  ['schedules', 'programs'],
  'every path of every future, channel, executor, timer and task operation, for every user callable and value type',
  'A test only sees the callables it passes; a callable that re-enters the library from under a lock deadlocks only when it happens '
  'to touch the same object, which the tests avoid.',
  [C + 'future.hpp', C + 'channel.hpp', C + 'default_executor.hpp', C + 'serial_queue.hpp', C + 'system_timer.hpp', C + 'await.hpp',
   'src/pre_exit.cpp'],
  [('continuations detached under the lock, run outside', C + 'future.hpp: shared_base::set_value/proceed/then'),
   ('trigger decided under the guard, run outside', C + 'future.hpp: when_all_shared, when_any_shared'),
   ('broadcast and step outside the process mutex', C + 'channel.hpp: shared_process'),
   ('task popped under the lock, run outside', C + 'default_executor.hpp, serial_queue.hpp, system_timer.hpp')],
  'lockset effect analysis: path-sensitive abstract interpretation of the IR; user calls require an empty lockset',
  'All paths of all instantiated entry points; a mutex only ever try-locked is exempt.')

P('L02', 'Shared state is only touched with its lock held',
  'Every piece of shared mutable state behind futures, channels, executors, serial queues, timers and exit handlers is read and '
  'written only while the mutex of that same object is held, unless it is immutable after construction, atomic, or published by an '
  'atomic flag or count.',
  ['schedules'],
  'every access on every path of every operation, for every interleaving of threads',
  'A missing lock only shows as a data race under a particular interleaving; the tests run a handful of schedules without a race '
  'detector.',
  [C + 'future.hpp', C + 'channel.hpp', C + 'default_executor.hpp', C + 'serial_queue.hpp', C + 'system_timer.hpp', C + 'await.hpp',
   'src/pre_exit.cpp'],
  [('future continuation list under its mutex', C + 'future.hpp: shared_base::_then'),
   ('channel queues and flags under the process mutex', C + 'channel.hpp: shared_process::_queue, _process_running, ...'),
   ('task queues under their mutex', C + 'default_executor.hpp: notification_queue; serial_queue.hpp; system_timer.hpp')],
  'guarded-by (lockset) analysis over all paths of the IR',
  'Locksets are per object: the mutex must belong to the object whose field is accessed.')

P('L03', 'No lost wakeups and no spurious wakeups',
  'A thread of the library that waits for a condition re-tests the condition after every wakeup and tests it under the lock before '
  'waiting; every change that can satisfy the condition is made under that lock and is followed by a notification. A waiting thread '
  'therefore never sleeps through the event it waits for and never proceeds without it.',
  ['schedules'],
  'every wait, every change of the state waited for, every interleaving',
  'A lost wakeup needs the change to fall between the test and the sleep of another thread, a window of nanoseconds that tests hit '
  'by luck only.',
  [C + 'default_executor.hpp', C + 'system_timer.hpp', C + 'await.hpp', 'include/stlab/test/model.hpp'],
  [('worker queues', C + 'default_executor.hpp: notification_queue::pop/push/done/wake, waiter'),
   ('timer queue', C + 'system_timer.hpp: timed_queue_run'),
   ('blocking waits', C + 'await.hpp: await, blocking_get_guarded')],
  'condition-variable typestate analysis over all paths of the IR',
  'The predicate state is derived from the conditions tested before each wait.')

P('L04', 'Locks are ordered; no thread sleeps with a lock it does not wait on',
  'The library never locks a mutex twice in one thread, acquires its mutexes in one global order, and never joins a thread, sleeps or '
  'waits for a condition while holding a mutex other than the one the wait releases. No set of library operations can therefore '
  'deadlock among themselves.',
  ['schedules', 'programs'],
  'every combination of library operations on any threads',
  'A lock-order inversion deadlocks only when two threads are between their two acquisitions at the same time.',
  [C + 'future.hpp', C + 'channel.hpp', C + 'default_executor.hpp', C + 'serial_queue.hpp', C + 'system_timer.hpp',
   'src/pre_exit.cpp'],
  [('combinator guard before input mutex', C + 'future.hpp: when_all_shared, when_any_shared'),
   ('downstream mutex before process mutex', C + 'channel.hpp: shared_process')],
  'lock-order graph from an interprocedural lockset analysis of the IR',
  'The order is over mutex roles (class and field).')

P('F01', 'A continuation attached to a future is neither lost nor run twice',
  'A continuation attached with then, recover or detach to a valid future is handed to its executor exactly once: immediately if the '
  'future is already resolved, otherwise by whoever resolves it. This holds however attaching and resolving interleave, for any number '
  'of continuations on copies of the future.',
  ['schedules'],
  'every interleaving of attaching and resolving, with a value or an error, copyable, void and move-only results',
  'Losing a continuation needs the resolution to fall between the test of the ready state and the insertion of the continuation.',
  [C + 'future.hpp'],
  [('attach decision under the mutex', C + 'future.hpp: shared_base::recover, _detach'),
   ('continuations taken with the ready flag', C + 'future.hpp: shared_base::_set_exception, value_::proceed')],
  'typestate analysis of the attach decision and of the resolution over all paths of the IR',
  'Per test site the outcomes of all paths are tabulated: unresolved => attached once, resolved => run once.')

P('F02', 'A future is ready only once its result is in place, and only read when ready',
  'A future reports that it is ready only after its value or error has been stored, and neither changes afterwards. Polling reads look '
  'at the result only after having found the future ready, and a value is never read from a future that holds an error.',
  ['schedules'],
  'every reader on every thread at any moment relative to the resolution',
  'A reader that sees the flag before the value exists for a few instructions of one interleaving only.',
  [C + 'future.hpp'],
  [('value stored, then published', C + 'future.hpp: value_::set/proceed, shared_base::_set_exception'),
   ('guarded reads', C + 'future.hpp: shared_base::get_try, get_try_r, get_ready, get_ready_r')],
  'publication-order typestate analysis over all paths of the IR, including the memory order of every access of the flag',
  'get_ready() keeps its documented precondition that the future is ready.')

P('F06', 'Reading a shared future never takes the value from its other holders',
  'Getting the value of a copyable future through one of several copies never moves the value out: every other copy and every '
  'continuation still sees it. The value is only moved when the handle it is read through is the only one.',
  ['inputs', 'histories'],
  'every number of copies and continuations, every kind of read',
  'It takes a value type with a distinguishable moved-from state, several copies, and a read through the right overload; tests sample '
  'a few combinations.',
  [C + 'future.hpp'],
  [('move only when unique', C + 'future.hpp: shared_base::get_ready_r, get_try_r, unique_usage')],
  'effect analysis of the stored value over all paths of the IR',
  'Move-only futures, which can have one reader, are exempt.')

P('F03', 'The resolving side resolves its future exactly once',
  'Calling a task or promise resolves its future exactly once and gives up the handle first, so a re-entrant or later call, or the '
  'destruction, cannot resolve it again. Destroying or overwriting a task or promise that was never called resolves its future with the '
  'broken promise error; a moved-from one resolves nothing. No future is left waiting forever because its task was dropped.',
  ['histories', 'inputs'],
  'every sequence of calls, moves, assignments and destructions of tasks and promises',
  'Tests drop a promise in one or two ways; overwriting a live one or calling one that re-enters itself is not among them.',
  [C + 'future.hpp'],
  [('linear handle', C + 'future.hpp: packaged_task, promise'), ('broken promise on destruction', C + 'future.hpp: shared_base::set_exception')],
  'linear-handle typestate analysis of every member of the handle classes over all paths of the IR',
  'The state behind the handle is the weak_ptr field of the class.')

P('F04', 'Exceptions thrown by user functions reach the future unchanged',
  'Whatever type a function attached to a future throws, the very exception object is stored as the error of the future its task '
  'resolves: it neither escapes into the executor, nor terminates the program, nor is it swallowed, replaced or sliced.',
  ['inputs', 'programs'],
  'every throwing function, every type of exception, every kind of task',
  'Tests throw one or two std exceptions; an exception not derived from std::exception, or thrown on one of the rarer paths, is not '
  'exercised.',
  [C + 'future.hpp'],
  [('capture in the task body', C + 'future.hpp: shared<R(Args...)>::operator(), value_::set, reduce')],
  'exception-flow analysis over all paths of the IR, including landing pads and their clauses',
  'Copies and moves of values and executors are taken not to throw.')

P('F05', 'Errors bypass then and reach recover',
  'A function attached with then runs only when the future it is attached to holds a value; if it holds an error the function is skipped '
  'and the same error is passed to the returned future. A function attached with recover runs in both cases. The returned future '
  'receives the result of the function, and a future returned by the function is flattened with its value or error.',
  ['histories', 'inputs'],
  'every chain of continuations, copyable, move-only and void results',
  'The combinations of value kind, attachment function and error are too many for tests to enumerate.',
  [C + 'future.hpp'],
  [('then as recover with forwarding', C + 'future.hpp: future<T>::then, future<void>::then, future<move-only>::then'),
   ('flattening', C + 'future.hpp: reduce, value_<future<R>>')],
  'path analysis of every instantiated task body in the IR',
  'Per task body, the paths with and without an error are tabulated against the user call and the stored outcome.')

P('F07', 'A result nobody holds is not computed, and what it held is let go',
  'Only futures keep a result alive: tasks, promises, queued continuations and the inputs of a join refer to it weakly, so that releasing the '
  'last future of a result cancels the work that leads to it and never leaves a cycle behind. Conversely a continuation keeps the future it is '
  'attached to, and a join keeps its inputs, for as long as their own result is wanted. A task lets go of its function, and of everything the '
  'function holds, once it has run or once it can no longer run.',
  ['histories', 'programs'],
  'every result type, function and join; every point at which the last handle is released',
  'A leak or a cycle changes no result; tests look at values, and count live objects only for a few chains.',
  [C + 'future.hpp'],
  [('weak handles', C + 'future.hpp: packaged_task, promise'),
   ('weak join context', C + 'future.hpp: attach_when_arg_, attach_tasks'),
   ('held continuations', C + 'future.hpp: _holds of when_all_shared, when_any_shared, common_context'),
   ('release of the function', C + 'future.hpp: package, shared::set_exception')],
  'ownership analysis: declared types of every field of every class and closure, capture analysis of attached closures and typestate of the stored function over all paths of the IR',
  'Strong references are followed through copies, moves and captures of closures; _detach is exempt by design (it keeps the result until it is resolved).')

P('F08', 'A continuation runs on the executor it was attached with',
  'A continuation attached with an executor runs by way of that executor; one attached without runs by way of the executor of the future it is '
  'attached to. The future it returns carries the same executor. This holds whether the result is ready when the continuation is attached or '
  'not, for each of several continuations, for every input and the function of a join, and for async, which hands its function to the given '
  'executor exactly once. The resolving thread never runs a continuation itself.',
  ['histories', 'schedules', 'programs'],
  'every way to attach, every executor type, ready and pending results, copies and moves of the executor',
  'Most tests run on one executor, where a continuation on the wrong one is not seen; which one is used also depends on whether the result '
  'is ready at the time.',
  [C + 'future.hpp', C + 'ready_future.hpp', C + 'executor_base.hpp'],
  [('attachment', C + 'future.hpp: shared_base::recover, future::then/recover/operator|/operator^'),
   ('delivery', C + 'future.hpp: shared_base::_set_exception, value_::proceed'),
   ('joins and async', C + 'future.hpp: attach_when_args_, attach_tasks, package, async')],
  'provenance analysis of executor objects through copies, moves and pairs, over all paths of the IR',
  'Moved-from executors are tracked. Reduction of future<future<T>> and _detach use the immediate executor by design.')

P('F09', 'A join runs its function exactly once, at the right moment',
  'when_all resolves its future exactly once: with its function when the last of its inputs holds a value, or with an error at the first '
  'input that fails. when_any resolves exactly once: at the first input that holds a value, or with an error when the last input has '
  'failed. In every other case an input changes nothing; inputs that arrive later, in any order and from any thread, never fire the '
  'join again, and no join is left waiting once its condition is met.',
  ['schedules', 'histories'],
  'every number, order and interleaving of resolved inputs, ready or pending when attached',
  'Tests resolve a few inputs in one or two orders, mostly sequentially; two inputs deciding a join at the same moment are not reached.',
  [C + 'future.hpp'],
  [('counter and first-error latch', C + 'future.hpp: when_all_shared, when_any_shared'),
   ('single and all triggers', C + 'future.hpp: single_trigger, all_trigger, common_context'),
   ('attachment', C + 'future.hpp: attach_when_arg_, attach_tasks, create_range_of_futures')],
  'latch/counter analysis of every instantiated input body over all paths of the IR, with the initial values from the constructors',
  'An input future resolves at most once by F03.')

P('F10', 'A join hands each value to its place and reports the input that won',
  'The function of a when_all gets the value of the i-th non-void input as its i-th argument (for a range: at its position in the '
  'vector); the function of a when_any gets the value of the winning input and the index of exactly that input. Values are in place '
  'before the function can run, the function of a failed join is never called, and the join passes on the error of an input.',
  ['histories', 'inputs'],
  'every arity, mix of value kinds, order of arrival and winning input',
  'Mixed-up slots or indices show only for particular arrival orders and arities, which tests sample.',
  [C + 'future.hpp'],
  [('collection', C + 'future.hpp: when_all_shared::done, value_storer, context_result'),
   ('application', C + 'future.hpp: apply_when_all_args, apply_when_any_arg, result_creator')],
  'field provenance and guard analysis of every instantiated input and end body over all paths of the IR',
  'Copies and moves of values are taken not to throw.')

P('E01', 'Every task handed to an executor runs exactly once',
  'A task handed to the default, low or high executor, to the immediate executor, to the system timer or to a serial queue is put into '
  'exactly one queue (or run at once), is taken out by exactly one thread, and is run exactly once by that thread: no path drops it, runs '
  'it twice, leaves it in the queue after taking it, or overwrites it. A worker of the task system ends only after it has seen its queue empty.',
  ['schedules', 'histories'],
  'every interleaving of submissions, stealing, waking and shutdown, every submitted callable',
  'A lost or doubled task needs a failed try-lock, a steal or a shutdown at one moment; tests sample a few schedules.',
  [C + 'default_executor.hpp', C + 'system_timer.hpp', C + 'serial_queue.hpp', C + 'immediate_executor.hpp'],
  [('queues', C + 'default_executor.hpp: notification_queue'),
   ('workers', C + 'default_executor.hpp: priority_task_system::run, add_thread, execute'),
   ('timer and serial queue', C + 'system_timer.hpp: system_timer; serial_queue.hpp: serial_instance_t')],
  'linear-resource (ownership) analysis of task objects over all paths of the IR',
  'The portable task system and timer are analysed. Tasks still waiting for their deadline when the timer is destroyed are out of scope, '
  'as is work submitted after pre_exit() began.')

P('E02', 'Tasks leave a queue by priority, and in submission order within a priority',
  'Whenever a task is taken from a queue of the task system, it is one of the highest priority in that queue and, among those, the one '
  'queued first; the high executor comes before the default executor and that before the low executor. The timer takes '
  'the task with the earliest deadline first.',
  ['schedules', 'histories'],
  'every history of submissions and removals on a queue',
  'Tests check an order statistically, on few tasks; a wrong key, ordering or heap operation shows only for some histories.',
  [C + 'default_executor.hpp', C + 'system_timer.hpp'],
  [('key and ordering', C + 'default_executor.hpp: element_t, element_t::greater, merge_priority_count'),
   ('heap maintenance', C + 'default_executor.hpp: pop_not_empty, push, try_push; system_timer.hpp: timed_queue_run')],
  'symbolic comparison terms, heap typestate and constant provenance over all paths of the IR',
  'Per queue: each worker has a queue of its own and steals from the others. The sequence number is taken not to reach 2^62.')

P('E06', 'A serial queue runs its tasks one at a time and in order',
  'The tasks of a serial queue are taken in the order in which they were queued, and never two at the same time: at most one drain is '
  'scheduled or running; a submission schedules one exactly if none is, a drain ends by scheduling exactly one more or by declaring '
  'the queue idle, which it does only when it is empty under the lock; after that it runs nothing more. What is scheduled keeps the queue alive.',
  ['schedules', 'histories'],
  'every interleaving of submissions with the drain, both schedule modes, every executor',
  'A second drain or a forgotten one needs a submission in the gap between the last task and the emptiness test.',
  [C + 'serial_queue.hpp'],
  [('token', C + 'serial_queue.hpp: serial_instance_t::enqueue, empty, all, single')],
  'token-protocol analysis (critical sections of test, set and clear of the running flag, schedules) over all paths of the IR',
  'The executor given to the queue runs each task it gets exactly once.')

P('E07', 'Delayed tasks are not run early, and not forgotten',
  'The timer takes a task only after having compared the clock with the deadline of the first task in the same critical section and found '
  'it passed; the deadline is the time of submission plus the delay that was asked for; the timer thread never waits without a time limit '
  'unless it saw that nothing is queued. An executor made by execute_at hands each task over exactly once: to the timer with its delay, or '
  'at once if the delay was tested.',
  ['schedules', 'histories'],
  'every order of deadlines, every wakeup (early, spurious, on a new submission)',
  'Tests wait for a few delays; a wakeup that is not caused by the deadline is what runs a task early, and cannot be provoked on demand.',
  [C + 'system_timer.hpp', C + 'executor_base.hpp'],
  [('timer thread', C + 'system_timer.hpp: system_timer::timed_queue_run'),
   ('deadline', C + 'system_timer.hpp: system_timer::operator()'),
   ('delayed executors', C + 'executor_base.hpp: execute_at')],
  'typestate of the clock comparison over all paths of the IR, terms of the deadline',
  'The clock is monotonic; how late a task runs is not bounded.')

P('E08', 'pre_exit() runs every handler once, last registered first, then ends the tasks',
  'pre_exit() removes and runs every registered handler exactly once, in the reverse order of registration and without holding the lock '
  '(so that handlers can register handlers), and ends only after it has seen the stack empty, closing it in the same critical section. The '
  'task system registers a handler that joins it when it is created, and joining tells every queue and waiting thread to end before it '
  'waits for a thread.',
  ['histories', 'schedules'],
  'every order of registrations, including registrations from handlers and from other threads',
  'Tests call pre_exit() once per process, with a fixed set of handlers.',
  ['include/stlab/pre_exit.hpp', 'src/pre_exit.cpp', 'src/concurrency/default_executor.cpp', C + 'default_executor.hpp'],
  [('stack', 'src/pre_exit.cpp: pre_exit_stack_t::pop, push, stlab_pre_exit'),
   ('task system', 'src/concurrency/default_executor.cpp: pts; default_executor.hpp: priority_task_system::join')],
  'typestate of the handler stack and of join over all paths of the IR',
  'A null handler is out of contract.')

CH = C + 'channel.hpp'

P('C01', 'Senders and receivers of a channel are counted exactly',
  'Every sender holds one unit of the sender count of its process and every receiver that is not yet ready one unit of the receiver count: '
  'copying a handle adds a unit; destroying, closing, setting ready or overwriting it gives exactly its unit back; moving transfers it; a new '
  'process starts with as many units as handles are made for it. So a channel is closed when the last sender goes, not before and not never, '
  'and a process starts when the last receiver is ready.',
  ['histories', 'programs'],
  'every sequence of copies, moves, assignments (also self assignment), close and set_ready on senders and receivers of every value type',
  'Tests copy and drop handles in a few orders; a unit lost or counted twice shows up as a channel that never closes, or closes early, for one '
  'particular sequence of handle operations.',
  [CH],
  [('handles', CH + ': sender, receiver'),
   ('counters', CH + ': shared_process::add_receiver, shared_process_sender_indexed::add_sender, remove_sender'),
   ('initial counts', CH + ': shared_process::shared_process; channel(), merge_channel, operator|')],
  'linear resource accounting: abstract interpretation of every function that deals with handles, units before + added - removed = units after',
  'The standard smart pointers are trusted; a user operation that throws half-way through an assignment is not modelled.')

P('C02', 'A process is run by one thread at a time',
  'A step of a process is scheduled only by whoever wins the right to run it: a send, the last sender or the last receiver that finds the '
  'running flag clear and sets it in the same critical section, or the release of the last suspension. A step gives this right away at most '
  'once, as its last use of the process, and no step is scheduled before all receivers are ready. So two threads never execute the '
  'user\'s process at the same time.',
  ['schedules'],
  'every interleaving of sends, closes, downstream releases, timeouts and steps, on every executor',
  'Two overlapping steps need a send in the few instructions between a test and a store; tests cannot force that.',
  [CH],
  [('latch', CH + ': shared_process_sender_indexed::enqueue, remove_sender; shared_process::remove_receiver'),
   ('step', CH + ': shared_process::step, task_done, broadcast, clear_to_send, try_broadcast')],
  'typestate (token protocol of the running flag and suspension count) over all paths of the IR of every function that can start a process',
  'Known finding: clear_to_send of a process that is not suspended starts it although it may be running.')

P('C03', 'Nothing sent to a process is stranded',
  'Whoever queues a value or a close while no step is running schedules one (once the receivers are ready). A step ends by scheduling the '
  'next one, by leaving the process suspended for exactly one release per receiver and one of its own, counted before the value is sent, or '
  'by clearing the running flag in a critical section in which it saw that nothing is queued, no close is pending and the process does not '
  'want to yield; also when the user\'s code throws or an error is received. The last release starts the process or marks it as idle. So a '
  'value in the queue of a process that is not suspended is always about to be processed.',
  ['schedules', 'histories'],
  'every interleaving of sends, closes, releases and steps; every outcome of the process (value, exception, yield, await)',
  'A lost start leaves a channel silent only if a send falls between the last look at the queue and the clearing of the flag.',
  [CH],
  [('start', CH + ': shared_process_sender_indexed::enqueue, remove_sender; shared_process::remove_receiver'),
   ('end of a step', CH + ': shared_process::step, task_done, broadcast, clear_to_send')],
  'typestate (token protocol of the running flag and suspension count) over all paths of the IR of every step and every function that starts one',
  'The executor runs what it is given; receivers that are kept forever without being set ready keep the process waiting, as documented.')

P('C04', 'A channel closes after its last value, and only then',
  'When the last sender of a process is gone, the process takes the close in a critical section in which it saw that nothing is queued, so every '
  'value sent before is processed first. It takes it once: a process that yields is told by close() exactly once, after that it does not take '
  'another close. When it ends, the user\'s process is destroyed and its receivers are closed, together and once, and never without a close or '
  'an error having ended it.',
  ['schedules', 'histories'],
  'every interleaving of the last sender going away with queued values, running steps and timeouts; every kind of process',
  'A close that overtakes a value needs the sender to go away within a few instructions of a step; a forgotten close leaves the downstream waiting '
  'for ever, which a test only shows as a timeout.',
  [CH],
  [('close', CH + ': shared_process::pop_from_queue, task_done, step'), ('end', CH + ': shared_process::do_run, task_done')],
  'typestate (close protocol) over all paths of the IR of every step of every kind of process',
  'fix 934b01a: a process that yields was not told of a close that arrived while its queue was empty.')

P('C05', 'Errors travel down a channel and end it in order',
  'An exception thrown by the user\'s process does not leave the step and is sent to every receiver in place of a value. An exception that is '
  'received instead of an argument is given to the set_error of the process if it has one (and then the process is not closed by it), and closes '
  'a process that has none; a process is never called with a value when one of its arguments is an error, nor told of an error when there is none.',
  ['inputs', 'histories'],
  'every combination of values and errors in the queues of a process, and exceptions from every call of user code',
  'Tests send one error through one chain; the mixed cases (zip with one bad input, error while suspended or yielding) are not sampled.',
  [CH],
  [('errors', CH + ': shared_process::step, pop_from_queue, process_or_error, await_variant_args'),
   ('handler detection', CH + ': has_set_process_error_v')],
  'typestate over all paths of the IR of every step, with exceptional edges from every call of user code',
  'fix 39f44d7: set_error of a process was never detected. A function process (no set_error) swallows a received error without passing it on: by design of the code, stated in DESIGN.md.')

P('C06', 'Back-pressure: who fills a buffer waits, who empties it wakes',
  'A process goes on without waiting for its receivers only if the smallest free buffer of them was seen to hold more than one value (or it has '
  'no receiver). The free room of a queue is computed without wrapping around, from the queue that the sender feeds, and a process without a '
  'buffer limit reports unlimited room. When a step takes a value from a queue that had no room, it tells the upstream process exactly once to go '
  'on, and it never does so when nothing was taken or the queue is still full.',
  ['schedules', 'histories', 'inputs'],
  'every buffer size, queue length and interleaving of producers and consumers, every merge strategy',
  'A missing release shows as a silent stall only for the right queue length; a spurious one as an unbounded queue or a corrupted suspension count.',
  [CH],
  [('suspend', CH + ': shared_process::broadcast, downstream::minimum_free_buffer'),
   ('room', CH + ': shared_process_sender_indexed::free_buffer'),
   ('release', CH + ': shared_process::pop_from_queue, task_done')],
  'typestate over all paths of the IR of every step, with comparisons tracked symbolically against the buffer size',
  'fix 4efabff: the free room wrapped around when a queue was over-full. The counting of releases against suspensions is C03.')

P('C07', 'Every value is delivered once, in order, to every receiver',
  'A value that is sent is appended exactly once, at the end of the queue of its sender, while the process is alive. A step takes values from the '
  'front of a queue that it saw non-empty, in one critical section in which it also removes them, and gives each exactly once to the user\'s '
  'process: in argument order, one from each queue for zip and from a single queue for the other merges. Each result is sent exactly once to '
  'every one of the receivers that are attached.',
  ['schedules', 'histories'],
  'every interleaving of senders and steps, every number of receivers, every merge strategy, every kind of process',
  'A value dropped, doubled or swapped only in a rare interleaving (a second sender between the look at the queue and the removal) is out of reach of tests.',
  [CH],
  [('enqueue', CH + ': shared_process_sender_indexed::send, enqueue; sender::operator()'),
   ('dequeue', CH + ': shared_process::pop_from_queue, merge strategies'),
   ('broadcast', CH + ': shared_process::broadcast, downstream::send')],
  'typestate and value-origin analysis over all paths of the IR of every sender and step')

P('C08', 'A merge takes what its strategy says',
  'A merge has nothing to do exactly when its strategy has nothing to take: a zip when one of its queues is empty, an unordered merge when all are, '
  'a round robin when the queue whose turn it is is empty, whatever is queued elsewhere. A round robin starts with its first input and after a '
  'value of one input goes on with the next, and after the last one with the first again.',
  ['inputs', 'histories'],
  'every combination of empty and non-empty queues and every turn of a round robin, for three inputs',
  'Tests sample a few arrival orders of values, mostly of two inputs; a merge that looks at the wrong queue stalls or skips only for particular arrivals.',
  [CH],
  [('strategies', CH + ': zip_with_queue_strategy, unordered_queue_strategy, round_robin_queue_strategy: empty, pop_front')],
  'path enumeration of the emptiness test and the removal of each strategy with the turn as a case distinction',
  'That the value taken and the value removed are of the same queue is C07.')

P('C09', 'A process gets the executor and buffer size it was annotated with',
  'However executor, buffer size and function are combined with operator&, in every order and value category, the process that is made runs on '
  'the given executor (the one of the process before it if none was given), has the given buffer size (one if none was given, the last one if two '
  'were) and is made of the given function.',
  ['inputs'],
  'every order and combination of annotations that compiles',
  'The overload set is large and each overload copies a different part of the annotations; tests use a few of them.',
  [CH, 'include/stlab/concurrency/executor_base.hpp'],
  [('annotations', CH + ': operator&, annotations, annotated_process, combine_bs_executor'), ('use', CH + ': receiver::operator|, shared_process::shared_process')],
  'origin analysis (which argument a value comes from) over every path of one program for each way to write annotations',
  'fix 67bc549: an annotation was lost or did not compile for several combinations.')

P('F12', 'await returns what the future gives, never sleeps on or outlives its waiter',
  'await takes the value only of a future that it has seen to be ready, and waits again after a wake-up that came for nothing. The continuation that '
  'wakes it is kept until the wait is over, stores the result and notifies while it holds the mutex of the waiter, and touches nothing of the waiter '
  'after releasing it. await_for decides between result and timeout in one place, under one mutex: a result that came in time is returned, one that '
  'comes later passes to the future that await_for returned instead, the state of the waiter is used only while it is known to exist, and no empty '
  'future is returned. Before a thread waits another thread of the portable task system is woken, or one is added. The other forms (blocking_get, ...) wait once and return what the wait gives.',
  ['schedules', 'histories'],
  'every schedule of the resolving thread, the waiter and the timeout; every path of await, await_for, their continuations and invoke_waiting',
  'The windows between the test, the wait, the timeout and the notification are a few instructions wide; unit tests do not hit them.',
  [C + 'await.hpp'],
  [('await', C + 'await.hpp: await and its continuation'), ('await_for', C + 'await.hpp: await_for, blocking_get_guarded'), ('replacement', C + 'await.hpp: invoke_waiting; default_executor.hpp: wake, add_thread')],
  'typestate of the future taken from, and lock-set / order analysis of the hand-over, over every path of await, await_for and their continuations',
  'fix 795c8b8: blocking_get_for ended without returning its result.')

K = C + 'task.hpp'
P('T01', 'A task owns exactly one callable and destroys it exactly once',
  'Whatever is done with a task<> (made, moved, assigned, assigned to itself, swapped, emptied, called, destroyed), the callable it was given exists '
  'in exactly one task, is destroyed exactly once and by the operations of its own type, nothing is made over a living callable, and a callable that '
  'is kept inside the task has the room and the alignment that it needs. Moving from a task leaves one that can be destroyed and assigned.',
  ['inputs', 'histories'],
  'every operation, for empty tasks, callables that fit in the task and callables that do not, noexcept tasks and tasks that may throw',
  'Lifetime errors show as leaks, double destruction or misaligned access only for particular sizes, alignments and sequences of operations.',
  [K],
  [('storage', K + ': task_, _model, model<F, bool>, model_t'), ('dispatch', K + ': concept_t, _vtable, _vtable_ptr, _invoke')],
  'object-lifetime typestate with the dispatch pointers propagated as constants, over every path of one program per operation and kind of callable',
  'fix c6c0186: assigning a task to itself used the destroyed callable.')

P('T02', 'Calling, testing and inspecting a task give what its callable gives',
  'A call calls exactly the callable that the task was given, or that was moved to it, once, with the arguments as they were passed, gives its result '
  'and lets its exception out. A task that is empty, by default, from nullptr, after nullptr was assigned or made of a null function pointer or an '
  'empty std::function, tests false and throws std::bad_function_call when called (terminates if it is noexcept); any other tests true. target_type() and '
  'target() give the callable, and only for exactly its type.',
  ['inputs', 'histories'],
  'every operation, for empty tasks, callables that fit in the task and callables that do not',
  'The dispatch goes through tables of function pointers into untyped storage; a wrong entry shows only for the kind of callable that uses it.',
  [K],
  [('call', K + ': operator(), invoke'), ('inspection', K + ': operator bool, operator==, target, target_type, is_empty')],
  'constant propagation of the dispatch pointers and origin analysis of arguments, results and exceptions over every path of one program per operation')

P('T03', 'What may be done with a task is decided by its type',
  'A task cannot be copied, by construction or assignment, from any kind of expression; moving, swapping and emptying it is noexcept; a constant task '
  'cannot be called; a noexcept task is made only of callables that are declared not to throw when called, its call is noexcept and the '
  'call of any other is not; a task is made only of what can be called with its arguments; it is tested only explicitly.',
  ['inputs'],
  'every program: each clause is an assertion about types, or a program that must not compile',
  'A constraint that is too weak only shows in programs that should not compile; there is nothing for a test to run.',
  [K],
  [('constraints', K + ': constructors, operator=, operator() of task_'), ('noexcept', K + ': task_<R, NoExcept, Args...>')],
  'type-level assertions and compile-fail witnesses compiled against the header',
  'a copy of a non-constant task compiled and recursed endlessly (fixed).')

R = 'include/stlab/forest.hpp'
P('R01', 'A forest deletes each of its nodes exactly once and loses none',
  'Every node that a forest makes is deleted exactly once, together with its value: when it is erased, when the forest is cleared, assigned to or '
  'destroyed, and not before. Moving, swapping and splicing pass nodes on and delete none. If making or copying a value throws, while inserting, copying '
  'or assigning, no node and no value is lost and none of the nodes that were there is deleted. No node is used after it was deleted.',
  ['inputs', 'histories'],
  'every operation of forest and child_adaptor, every neighbourhood of the place it works at, every copy of a value that throws',
  'A lost or twice deleted node shows only with leak checking, or for neighbourhoods and exceptions that no test tries.',
  [R],
  [('operations', R + ': forest::insert, erase, splice, clear, forest(const forest&), operator=, swap'), ('nodes', R + ': detail::node')],
  'shape analysis (abstract interpretation of the IR over abstract heaps) with the lifetimes of nodes and values',
  'fix a136b57: copying a forest leaked the nodes made so far if a copy of a value threw.')

P('R02', 'Operations on a forest keep its order and change only what they are told to',
  'The edges of a forest are one cyclic sequence, linked consistently in both directions. insert puts a new childless node with the given value before '
  'the given edge and gives its leading edge; erase takes out one node, puts its children in its place and gives the edge that followed; erase of a range '
  'takes out the nodes whose both edges lie in it and gives its end; splice moves the given siblings with everything below them, or nothing if they are '
  'already there, within a forest or from another; insert_parent puts a new node around a range of siblings; reverse reverses a range of siblings, each '
  'with what is below it; push, pop and child_adaptor do this at the ends. A copy equals its source in shape and values; move and swap pass on everything '
  'and leave nothing behind; == holds exactly for forests of the same shape and equal values. No other link changes, and an insertion that throws '
  'changes nothing.',
  ['inputs', 'histories'],
  'every operation, every neighbourhood of its places, for splice also every way that source and destination touch; forests of any size around them',
  'The number of ways in which the places of an operation can touch each other and the root is large; tests take a few of them.',
  [R, 'include/stlab/iterator/set_next.hpp'],
  [('operations', R + ': forest::insert, erase, splice, insert_parent, reverse, operator==, child_adaptor'), ('links', R + ': unsafe::set_next_fn, node_base::link')],
  'shape analysis (abstract interpretation of the IR over abstract heaps): the links after each operation are compared with a model of edge sequences',
  'fix a0a3702: reversing a range of siblings that another sibling follows corrupted the forest.')

P('R03', 'The size of a forest is the number of its nodes',
  'Whatever was done before, size() gives the number of nodes. Every operation leaves the stored size of each forest that it changes either unknown, so '
  'that it is counted when it is asked for, or exactly right, also if the size was unknown before, if nodes move between forests with or without a given '
  'count, within one forest, and if an insertion throws.',
  ['inputs', 'histories'],
  'every operation with every combination of known and unknown sizes, as linear expressions over the sizes before',
  'A wrong size shows only after a particular sequence of operations and an unknown or known size in the right place.',
  [R],
  [('size', R + ': forest::_size, size, size_valid'), ('changes', R + ': insert, erase, splice, copy, move, clear')],
  'shape analysis with sizes as linear expressions (abstract interpretation of the IR over abstract heaps)',
  'Holds on the current tree.')

P('R04', 'The iterators of a forest walk its order, forwards and backwards',
  '++ of each iterator goes to the next place of its order and -- goes back: iterator and const_iterator through all edges, child_iterator from sibling to '
  'sibling and to the end of the parent, preorder and postorder iterators from leading to leading and from trailing to trailing edges, reverse iterators '
  'through all edges backwards with each edge turned, depth iterators through all edges counting the depth. Each gives the value of the node it is at; '
  'iterators are equal exactly if they are at the same place, also after their edge was turned by leading_of, trailing_of or pivot; conversions to const '
  'iterators and base() keep the place. begin, end, root, child_begin, child_end, find_parent, has_children, front, back and empty give what their names say, and '
  'passes over the ranges visit every node, in order; a filtered range leaves out exactly the rejected nodes and what is below them.',
  ['inputs'],
  'every kind of iterator at every kind of edge and neighbourhood, in forests of any size; passes over every forest of up to three (thorough: four) nodes',
  'Each iterator has its own code for each pair of edges; tests walk a few fixed forests forwards.',
  [R],
  [('steps', R + ': forest_iterator, forest_const_iterator, child_iterator, edge_iterator, reverse_fullorder_iterator, depth_fullorder_iterator'),
   ('ranges', R + ': child_range, preorder_range, postorder_range, depth_range, reverse_fullorder_range, filter_fullorder_range')],
  'shape analysis (abstract interpretation of the IR over abstract heaps) of single steps in every neighbourhood',
  'fix be29b22: a reverse iterator whose edge was turned compared unequal to itself; passes over children in reverse order never ended.')

P('R05', 'Algorithms on forests compare, copy and write down shapes exactly',
  'equal_shape gives true exactly if both forests have the same shape, whether their sizes are known or not and whatever their values are. transcribe with a '
  'transcriber puts one new node for each leading edge of its input (or for each edge that the predicate accepts), with the value that the projection gives, nested as '
  'in the input, in front of what the forest has, and returns the place after it; the input is unchanged and nothing else is. flatten writes the value of each leading '
  'edge and nothing for each trailing edge, in order, advancing the output once for each; unflatten makes the forest that flatten has written down. A transcriber '
  'goes into the node that it makes, ++ goes to the next place, and x++ gives the place before.',
  ['inputs'],
  'every forest of up to three (thorough: four) nodes, in front of any forest; the steps of a transcriber in every neighbourhood',
  'The tests transcribe and flatten one fixed forest into an empty one and compare one pair of equal shapes.',
  ['include/stlab/forest_algorithms.hpp', R],
  [('comparison', 'include/stlab/forest_algorithms.hpp: equal_shape'), ('writing', 'include/stlab/forest_algorithms.hpp: transcribe, transcribe_iterator, unflatten, flatten')],
  'shape analysis (abstract interpretation of the IR over abstract heaps): what is written is compared with a model of edge sequences',
  'A forest that is a prefix of another one was given as of equal shape if the sizes were not both known.')

P('N01', 'Delayed tasks and timeouts run at about the time that was asked for',
  'A task given to the timer, a continuation attached with execute_at, and a timeout of a process or of blocking_get_for take effect soon after their time has come.',
  ['schedules'], 'every delay and load', 'Tests use generous tolerances.', [C + 'system_timer.hpp', C + 'channel.hpp'],
  [('timer', C + 'system_timer.hpp: system_timer')], na='Quantifies over real time, the scheduler of the operating system and the load; no static argument bounds how late a thread wakes '
  'up. What is decidable (never early, never forgotten) is E07.')

P('N02', 'Blocking waits never starve the thread pool',
  'However many tasks of the default executor block in await or blocking_get, the pool grows so that the tasks they wait for can run.',
  ['schedules', 'programs'], 'every program whose waits are not cyclic', 'Tests block a few tasks at a time.', [C + 'default_executor.hpp', C + 'await.hpp'],
  [('expansion', C + 'default_executor.hpp: wake, add_thread, limits')], na='Liveness of a pool whose growth depends on run-time counts (threads, waiters, the limit taken from the hardware) and on what '
  'user tasks wait for; neither is in the source. The hand-over of each task and the wake-ups are decided by E01 and L03.')

P('N03', 'Programs built of futures and channels leak no memory',
  'Once a program has dropped its futures, senders and receivers, no state, task or process is kept alive by a cycle of references.',
  ['programs'], 'every graph of continuations and processes', 'Leaks do not fail tests.', [C + 'future.hpp', C + 'channel.hpp'],
  [('ownership', C + 'future.hpp: shared_base; ' + C + 'channel.hpp: shared_process')], na='Whether references form a cycle depends on the graph that a program builds at run time and on what user '
  'functions capture. The direction of every reference that the library itself makes is decided by F07, the units of handles by C01.')

P('N04', 'The other back ends give the same guarantees',
  'With libdispatch, Windows thread pools, Emscripten or Qt the executors run every task once, by priority, and the main executor on the main thread.',
  ['configurations'], 'every supported platform', 'Tests run on the platform they are built on.', [C + 'default_executor.hpp', C + 'main_executor.hpp'],
  [('back ends', C + 'default_executor.hpp: executor_type; ' + C + 'main_executor.hpp')], na='The headers of these platforms are not installed, so that their code cannot be compiled, and what is to '
  'be decided lies in their schedulers. The portable back end is decided by E01, E02 and E08.')

P('P01', 'A progress tracker counts what it tracks',
  'steps() is the number of functions that are tracked: tracking a function or copying a tracked function adds one, moving one adds none, destroying or overwriting one '
  'takes one away from the tracker that it belonged to; a copy, a moved and an assigned function belong to the tracker of the original. completed() is the number of '
  'calls that returned. A call runs the function once with its arguments; after it returned it is counted once, and then the callback, if there is one, is called once '
  'with both counts. Both counts begin with zero; a tracked function whose tracker is gone works on without it.',
  ['inputs', 'histories', 'schedules'],
  'every path of every operation of a tracked function and of a tracker, whether the tracker still exists or not',
  'The tests track a few functions and call them; they neither assign tracked functions nor outlive the tracker.',
  [C + 'progress.hpp'],
  [('units', C + 'progress.hpp: tracker_client'), ('counts', C + 'progress.hpp: tracker_server')],
  'linear accounting of units over every path (path-sensitive abstract interpretation of the IR)',
  'Fixed earlier (cd19b45): assigning to a tracked function did not take one away for the one that was overwritten.')

