#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a program because long JSON lines are painful to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": " ".join(statement.split()),
              "quantifier": {"over": over, "text": " ".join(text.split())}, "why_tests_cant": " ".join(why.split()),
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "observe_at": observe, "hook_needed": hook}})

EV, EP, EX, AR, FU, OS, IO, UD, UX, RP, DQ = ("src/events.c", "src/epoll.c", "src/except.c", "src/arrays.c", "src/future.c",
    "src/os_unix.c", "src/async_io.c", "src/async_udp.c", "src/async_uds.c", "src/rpmalloc.c", "src/deque.c")

p("C01", "Descriptor readiness reaches exactly the registered callback",
  """On every turn of a loop, each registered descriptor that is ready in a direction it is registered for has its current callback
     called once with that descriptor, its current argument and exactly the ready directions it is registered for (plus hang-up).
     A descriptor that is not registered with that loop, was removed earlier (even by another callback of the same turn), or is not
     ready in a registered direction is never reported.  Adding, removing, and changing directions or callback at any moment,
     also from inside callbacks, takes effect from then on, and removing an unregistered descriptor fails without effect.""",
  ["histories", "inputs"], """All sequences of add / remove / re-register / change-direction / change-callback calls over several descriptors and loops,
     made between turns and from inside callbacks, against all readiness patterns.""",
  """test-changelist, test-eof and test-closed each register one or two descriptors and follow one fixed order; the property quantifies over every order,
     including removals of a descriptor whose event has already been collected in the current turn.""",
  [EV, EP], [("registration and removal", "src/events.c:events_add, events_del, events_set_event"),
             ("lazy kernel de-registration and dispatch", "src/epoll.c:events_update_internal, events_poll_once_internal")],
  ["callback invocations (fd, event, argument)", "events_is_registered / events_get_event", "return values of add/del"],
  [("fds table", "per descriptor: owning loop, directions, callback, argument", "src/events_internal.h:events_fd_s")])

p("C02", "Descriptor timeouts fire once, on time, and only when still armed",
  """A timeout armed for N seconds (up to the maximum the loop was created for) on a registered descriptor is delivered as one timeout callback, not before N seconds have passed and
     at the latest on the first turn made one resolution step after that.  Re-arming replaces the previous deadline, clearing or removing the descriptor cancels it,
     and a delivered timeout does not fire again unless re-armed; all of this also when done inside a timeout callback.""",
  ["histories", "inputs", "schedules"], """All sequences of arm, re-arm, clear, remove and turns over many descriptors, any second counts,
     any passage of time between turns and any loop resolution, with calls made inside timeout callbacks.""",
  """The tests arm at most one timeout that never fires; nothing exercises wheel wrap-around, several descriptors in one slot, or callbacks that re-arm.""",
  [EV], [("timeout wheel", "src/events.c:events_set_timeout, events_handle_timeout_internal")],
  ["timeout callbacks and the (virtual) time at which they run"],
  [("timeout.vec / vec_of_vec", "two-level bit set per wheel slot", "src/events_internal.h:events_loop_s")])

p("C03", "Timers run in deadline order, never early, once per arming",
  """A timer started for M milliseconds calls its function exactly once with its argument, never before M milliseconds have elapsed, and is due on the
     first turn after that; several timers run in order of their deadlines, the earliest due one first, each at most once per arming.
     A timer that re-arms itself keeps running until it is cleared, and the loop counts every armed timer as pending work and no other.""",
  ["histories", "inputs", "schedules"], "All sets of timers, durations (including very long ones), moments of starting, repeating and clearing, and turns.",
  "No test starts more than one timer or checks order or earliness; test-time only reads clocks.",
  [EV], [("sorted timer list", "src/events.c:events_actor_timeout, events_execute, events_repeat_actor")],
  ["timer callbacks and the (virtual) time at which they run", "return value of a turn"])

p("C04", "A loop stays alive exactly while work is registered",
  """A loop reports itself running if and only if it has a registered descriptor, an armed timer, a registered signal or an unfinished task,
     and a turn reports the number of registered descriptors and timers; the counts return to zero when everything has been removed, fired or finished.
     Running the program's tasks returns only once every task has finished.""",
  ["histories", "programs"], "All interleavings of registrations, removals, one-shot and repeating timers, signals and tasks, including failed operations.",
  "Tests run their loop to completion along one path; a count that drifts by one on another path (double removal, re-registration) is invisible to them.",
  [EV, OS], [("activity counters", "src/events.c:events_add, events_del, events_is_running, events_once"), ("task count", "src/events.c:task_push, tasks_schedulering")],
  ["events_is_running", "events_once return value", "return of async_run"])

p("C05", "Signal callbacks run for each registered signal until removed",
  """While a signal is registered with a loop, each delivery of it invokes the registered callback with that signal's number and argument and leaves the
     process alive, independently of which other signals are registered; registering the same signal again is refused or replaces it without losing other registrations.
     After removal the callback is never invoked again, the default handling of the signal is in force, and the loop no longer counts it.""",
  ["histories", "schedules"], "All sequences of registrations, deliveries and removals of several signals.",
  "No test registers a signal with a loop.", [EV, OS],
  [("signal table", "src/os_unix.c:events_add_signal, events_del_signal, signal_handler")], ["callback invocations", "process disposition of the signal"])

p("C06", "Cooperative tasks run exactly once, in turn, and none is lost",
  """Every task started in the program runs its function exactly once from start to end with the arguments given, and ready tasks take turns in the
     order in which they became ready, so that no ready task is starved or forgotten however tasks start, yield, sleep, wait or finish.
     A task's local state is untouched by the others while it is not running.""",
  ["programs", "schedules"], "All programs of tasks that start other tasks, yield, sleep, wait for each other, wait on descriptors and finish in any order.",
  "test-yielding and test-task_group run a handful of tasks in one pattern; losing a task needs a specific combination (e.g. re-queuing a task that is already queued).",
  [EV, "src/asm.c"], [("run queue and context switch", "src/events.c:task_push, yield, task_switch, tasks_schedulering")], ["order of task steps", "task locals after each switch"],
  [("run_queue", "FIFO of ready tasks", "src/events.c:events_thread_t")])

p("C07", "Awaiting a task returns that task's own result after it finished",
  """Each started task gets an identifier of its own, unique among all tasks; waiting on it resumes only after that task has finished and returns
     exactly the value that task returned, to every waiter and every time, whatever the other tasks do.  Readiness, results and the cancelled mark read by identifier always describe that task:
     the result is the empty value while it has not finished, and cancelling one marks that one only.""",
  ["programs", "schedules"], "All programs of tasks awaiting each other's results, in any order, any number of times, with any number of tasks.",
  "Tests await one result at a time in creation order; thousands of tasks (growth of the result table) and crossing waits are not reached.",
  [EV], [("result table", "src/events.c:tasks_create_result, tasks_result_set, await_for, results_for")], ["values returned by await_for / results_for / task_is_ready"])

p("C08", "Sleeping tasks wake after their delay and in deadline order",
  """A task that sleeps for M milliseconds resumes exactly once, never before M milliseconds have elapsed, and is not held up by other sleeping tasks with later deadlines; tasks whose deadlines have
     passed resume in deadline order.  While tasks sleep, other ready tasks keep running, and the program does not end before every sleeper has woken and finished.""",
  ["programs", "schedules", "inputs"], "All sets of sleeping tasks, durations, and interleavings with tasks that run, start and finish.",
  "test-yielding sleeps with one or two tasks; ordering among many deadlines and earliness are never checked.",
  [EV], [("sleep queue", "src/events.c:delay, add_timeout, task_wait_system")], ["wake order and (virtual) time of wake-up"])

p("C09", "Generators hand over every yielded value once, in order",
  """The consumer of a generator receives exactly the values the generator yields, in the order yielded, none lost, none twice, for any interleaving with other tasks and generators;
     the generator never runs ahead by more than one value.  After the generator function returns, the consumer gets the empty value instead of blocking.""",
  ["programs", "schedules"], "All programs with several generators and consumers, mixed with yielding and sleeping tasks.",
  "test-yielding consumes one generator from one task.", [EV], [("one-slot rendezvous", "src/events.c:yielding, yielded")], ["values received, in order"])

p("C10", "Waiting for a task group waits for every member and collects each result once",
  """Waiting on a task group returns only after every task started into the group has finished, whether members yield, sleep or finish at once, and the list of results names each member
     that returned a value exactly once, with its own value.  Tasks outside the group are not affected and the waiting task goes on normally afterwards.""",
  ["programs", "schedules"], "All group sizes and member behaviours (finish, yield, sleep), with other tasks and further groups around.",
  "test-task_group waits for one group of equal members.", [EV], [("group bookkeeping", "src/events.c:task_group, tasks_wait")], ["result list", "member completion at the time of return"])

p("C11", "Work sent to the thread pool runs exactly once, on any schedule",
  """Every task sent to the thread pool is executed exactly once by exactly one thread with the arguments given, none lost and none run twice,
     however many threads send and however their steps interleave; its result becomes available under its identifier.
     Waiting on a wait-group returns only when all of its members, on whatever thread, have finished, with each result once.""",
  ["schedules", "programs"], "All numbers of tasks, threads and wait-groups and all interleavings of their steps.",
  "test-waitgroup runs one group once; thread interleavings are sampled by luck.",
  [EV, DQ], [("pool threads", "src/events.c:go, waitfor, __tasks_pool_main, task_take"), ("deque", "src/deque.c")], ["executions per task", "result lists"])

p("C12", "The work queue delivers every item to exactly one taker",
  """Between the thread that adds items and any number of threads that remove them at the other end, every item added is removed exactly once, by one thread, under every interleaving
     of their memory operations, including while the queue grows; an empty answer is given only when the queue was empty (or contended) at some moment during the call.
     Removals from the stealing end see items oldest first, and the owner's own removals newest first.""",
  ["schedules", "inputs"], "All interleavings of the individual atomic steps of add, take, steal and growth, for all sizes.",
  "No test touches the queue concurrently; a bug needs one particular interleaving of two or three atomic operations.",
  [DQ], [("Chase-Lev deque", "src/deque.c:deque_push, deque_take, deque_steal, deque_resize")], ["items returned to each thread"],
  [("top, bottom, array", "indices and ring buffer", "src/events_internal.h:events_deque_s")])

p("C13", "Queued work delivers its own outcome once, to its own caller",
  """A function queued to a worker thread runs exactly once with its own arguments, and the caller that waits for it resumes only after it returned, obtaining exactly its value (or, if it threw, an error),
     never that of another queued function.  Jobs queued to one worker run in the order queued.""",
  ["schedules", "programs"], "All numbers of queued functions, workers, waiting tasks and outcomes (value, exception), in any order of waiting.",
  "test-queue_work and test-future queue one or two jobs that succeed.",
  [EV, FU], [("job queue and promise", "src/future.c:queue_work, promise_get, promise_set; src/events.c:__future_wrapper")], ["value obtained by each caller", "execution count and order"])

p("C14", "Threads started for one function give back its value or its exception",
  """A thread started for a function runs it exactly once with its arguments; asking for the result blocks until it has returned and gives exactly its value, asking whether it is done is true only afterwards,
     and if the function threw, asking for the result raises the same exception in the asking thread.  Per-thread variables hold, for every thread, only what that thread stored.""",
  ["schedules", "programs"], "All numbers of concurrently started threads, order of asking, and outcomes.",
  "test-future and test-future-exception start one thread each.",
  [FU], [("thread promise", "src/future.c:thrd_async, thrd_get, thrd_is_done")], ["values and exceptions seen by the asking thread"])

p("C15", "Exceptions unwind to the nearest matching handler, running every finally",
  """A thrown exception transfers control to the innermost enclosing handler, in the same task or thread, whose type matches (or that catches any), skipping the rest of every block in between;
     every finally section entered on the way runs exactly once, in order from the inside out, whether its block ended normally, by an exception, by one raised inside the handler or by a rethrow.
     An exception nobody catches is not swallowed, a rethrown one keeps its type, and no handler runs without an exception of its type.""",
  ["programs"], "All nestings of protected blocks, handlers, finally sections, throws (of every type, also from handlers and finally sections), rethrows and function calls, in the main thread and in tasks.",
  "test-exceptions has nine fixed nestings, all with signals in one thread.",
  [EX, "include/except.h"], [("protected block protocol", "src/except.c:try_start, try_next, try_catching, try_finallying, try_rethrow, ex_throw")], ["trace of executed sections", "exception name seen in handlers"])

p("C16", "Deferred cleanups run exactly once, last first, when their scope ends",
  """Every cleanup deferred in a task or in a guarded block runs exactly once with its own argument when that task or block ends, in the reverse order of registration,
     whether it ends by returning or by an exception that is caught, and never earlier.  Cleanups of one scope are unaffected by other scopes and tasks.""",
  ["programs", "fault_sequences"], "All nestings of guarded blocks and tasks, any number of deferred cleanups, leaving normally or by an exception at any point.",
  "test-defer registers three cleanups in one function.", [EX, EV], [("scope unwinding", "src/except.c:scope_unwind, scope_deferred; src/events.c:deferred, deferred_unwind")], ["order and count of cleanup calls"])

p("C17", "Protected pointers are released exactly once when an exception passes them",
  """When an exception leaves a block, the release function of every pointer that is protected at that moment within it is called exactly once on the pointer's current value, newest first;
     pointers whose protection was lifted before are not touched, and pointers protected outside the handling block survive.""",
  ["programs", "fault_sequences"], "All sequences of protecting and un-protecting pointers within nested protected blocks, with an exception at any point.",
  "The tests do not use protected pointers across nested blocks.", [EX], [("protection stack", "src/except.c:ex_protect_ptr, ex_unprotected_ptr, ex_unwind_stack")], ["release calls"])

p("C18", "Dynamic arrays behave as sequences",
  """An array always holds exactly the values appended and stored and not removed, in order, with its reported size equal to their number and a capacity at least that;
     growth, reservation, removal at any position, iteration in either direction, ranges, copies and sorting preserve contents and order, and removing from an empty
     or out-of-range position or adding to a frozen array is refused without corrupting anything.  Handles held by the caller stay valid through every operation.""",
  ["histories", "inputs"], "All sequences of array operations on several arrays, of any length, at every capacity boundary.",
  "test-arrays follows one script on small arrays; growth by reallocation, freezing and boundary removals are not reached.",
  [AR, "include/arrays.h"], [("growable vector", "src/arrays.c:array_append, array_remove, array_grow, range")], ["contents, size and capacity after each call"])

p("C19", "Byte streams arrive complete, in order and unchanged",
  """Over a connected stream (network, local socket or pipe) between tasks, the bytes read by one side are exactly the bytes the other side wrote, in order, without loss, duplication or alteration, for every split into reads and writes
     and every buffer pressure; end of stream is reported only after all bytes and after the writer closed.  A write reports exactly the number of bytes it accepted, and concurrent connections never exchange data.""",
  ["schedules", "inputs"], "All message sizes, splits, numbers of connections, partial transfers and interleavings of the tasks involved.",
  "test-uds and client tests exchange one short message.", [IO, UX, EV], [("waiting reads and writes", "src/async_io.c:async_read, async_write, async_accept; src/events.c:async_wait")], ["bytes received per connection"])

p("C20", "Datagrams arrive whole, from the address they report",
  """A datagram sent between tasks is received either not at all or exactly once as one whole message with exactly the sent bytes and length, together with the sender's real address, and a reply sent to that packet reaches that sender;
     messages are never merged, split or mixed between sockets.""",
  ["schedules", "inputs"], "All datagram sizes and contents, several senders and receivers, and interleavings of their tasks.",
  "test-udp sends one datagram.", [UD], [("datagram send/receive", "src/async_udp.c:udp_recv, udp_send, udp_to, async_sendto, async_recvfrom")], ["received packets"])

p("C21", "File operations have the effect and result of the system calls they wrap",
  """Each asynchronous file operation has exactly the effect on the file system of the corresponding system operation with the same arguments and returns its result, negative on failure, exactly once and to the task that asked,
     whatever other tasks and file operations are in flight.  Operations of one task take effect in the order in which it made them.""",
  ["histories", "inputs", "schedules"], "All sequences of open, read, write, send, copy, rename, unlink, directory, attribute and stream operations, including failing ones, from one or several tasks at once.",
  "test-fs performs each operation once on a valid path.", [FU, IO], [("offloaded file calls", "src/async_io.c:fs_*; src/future.c:queue_work")], ["results", "state of a scratch directory afterwards"])

p("C22", "Child processes report their own output and exit exactly once",
  """For each spawned child the output handler receives exactly the bytes it wrote, in order, the exit handler runs exactly once, after the child ended, with that child's exit status and termination signal, and bytes written to its input reach it;
     several children running at once never mix, and nothing of a child stays open after its end.  A process that cannot be created is reported as an error.""",
  ["schedules", "inputs"], "All numbers of concurrent children, outputs, exit codes and signals, in any order of ending.",
  "test-spawn runs one child.", [IO, UX], [("spawn and reaping", "src/async_io.c:spawn_ex, spawning; src/os_unix.c:exec, exec_wait")], ["handler invocations"])

p("C23", "Directory watches report the changes made, by name",
  """Each create, write, attribute change, rename and delete of an entry in a watched directory made while the watch is active is reported exactly once (equal ones in a row may be taken for one) to the handler of that watch,
     with the entry's name and the kind of change, in the order made; the directories below it at that time are watched with it.  Several watches do not disturb each other.
     Changes outside the watched directories, or after the watch was removed or its descriptor closed, are not reported, and nothing stays open after its end.""",
  ["histories", "schedules"], "All sequences of changes in watched and unwatched directories, watches that begin and end at any point, also inside handlers.",
  "test-fs_events makes one change.", [EV, OS, EP], [("watch delivery", "src/epoll.c:events_poll_once_internal; src/os_unix.c:inotify_ready, inotify_task, inotify_handler, inotify_watch, inotify_close, inotify_next; src/events.c:events_watch, fsevents_task")], ["handler invocations", "open descriptors"])

p("C24", "The allocator hands out disjoint, aligned, stable memory",
  """Every block obtained is aligned as promised, at least as large as requested and disjoint from all other live blocks; its contents are changed only by its holder and survive resizing up to the smaller size, and zero-initialised requests read as zero,
     for every sequence of allocate, resize and free, from any threads, including blocks freed by a thread other than the one that allocated them.""",
  ["histories", "schedules", "inputs"], "All allocation histories over all size classes, alignments and threads.",
  "Tests only allocate incidentally.", [RP, "include/rpmalloc.h"], [("size-class allocator", "src/rpmalloc.c")], ["addresses and contents of live blocks"])

p("C25", "Locks exclude, under every interleaving",
  """Between taking and releasing a spin lock, no other thread holds it, under every interleaving of the threads' atomic steps, and a released lock can always be taken;
     a try-lock succeeds only if the lock was free.""",
  ["schedules"], "All interleavings of any number of threads.", "No test contends a lock.",
  ["include/catomics.h", FU], [("spin lock", "include/catomics.h:atomic_lock, atomic_unlock, atomic_trylock")], ["critical-section occupancy"])

p("C26", "Pseudo descriptors are unique while in use and map back to their object",
  """Each pseudo descriptor handed out for a file, process or watch is different from all others in use and maps back to exactly the object it was created for until it is released; after release it is no longer valid
     and may be reused, and exhausting the table is reported as an error.""",
  ["histories"], "All sequences of creating and releasing pseudo descriptors up to and beyond the table's size.",
  "Tests hold at most one.", [OS], [("descriptor table", "src/os_unix.c:events_new_fd, events_free_fd, events_get_fd, events_valid_fd")], ["returned numbers and lookups"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for q in P:
        f.write(json.dumps(q) + "\n")
print(len(P))
