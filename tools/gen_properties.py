#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run by hand when the property list changes)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=["redGrapes/"+f for f in files],
            state=[dict(name=a, meaning=b, where="redGrapes/"+c) for a,b,c in state],
            mechanism=[dict(name=a, where="redGrapes/"+b) for a,b in mech],
            observe_at=list(observe), hook_needed=hook)))

prop("P01", "Conflicting tasks of a scope run one after the other in submission order",
 "If two tasks of the same scope declare conflicting accesses (same resource and access modes/areas that the access policy calls serial), the body of the later submitted one starts only after the earlier one is complete. Hence every program whose tasks touch only what they declare computes exactly the data that executing the tasks one by one in submission order would compute. This holds for every number of workers, however the accesses were attached (explicit list, single additions, guard arguments, custom argument types), also when one task declares several accesses to the same resource.",
 ["programs","schedules","configurations"],
 "every task program, every worker count, every interleaving of submitter and workers",
 "The unit tests run a handful of fixed graphs under whatever interleaving the machine happens to produce; the property quantifies over all programs and schedules, in particular over a predecessor finishing while its successor is being initialised, work stealing, and users lists spanning several chunks.",
 ["task/property/graph.cpp","task/task_space.cpp","resource/resource_user.cpp","resource/resource.hpp","scheduler/event.cpp","scheduler/default_scheduler.cpp","util/chunked_list.hpp"],
 [("dependency search over the resource's user list, newest first, until a synchronising predecessor","task/property/graph.cpp:init_graph"),
  ("removal from the user list before followers are notified, under the same lock","task/property/graph.cpp:delete_from_resources"),
  ("order of insertion = order of submission","task/task_space.cpp:submit")],
 [("users","tasks that registered an access on a resource, in submission order","resource/resource.hpp:ResourceBase"),
  ("pre_event/post_event.state","number of outstanding predecessors / reached","scheduler/event.hpp")],
 ["start/end stamps taken inside task bodies","final content of the resources"])

prop("P02", "Tasks are held back only by conflicting predecessors",
 "A task becomes runnable as soon as every earlier submitted task of its scope with a conflicting access is complete, and never waits for anything else: tasks with pairwise non-conflicting accesses (reads, same-kind atomic updates, disjoint areas, different resources, different scopes) impose no order on each other. So whenever the runtime has come to rest with idle workers, every submitted task whose conflicting predecessors are complete has been started.",
 ["programs","schedules","configurations"],
 "every task program with tasks held open by external events, every interleaving",
 "Tests only check that something finishes in the end or measure wall-clock times; a spurious dependency merely serialises execution and is invisible to them, except as a timing difference on one schedule.",
 ["task/property/graph.cpp","resource/access/io.hpp","resource/access/area.hpp","resource/access/combine.hpp","resource/resource_user.cpp","scheduler/default_scheduler.cpp"],
 [("pairwise access comparison before an edge is added","task/property/graph.cpp:init_graph"),
  ("activation when the in-degree drops to zero","scheduler/event.cpp:EventPtr::notify")],
 [("pre_event.state","outstanding predecessors","scheduler/event.hpp")],
 ["set of started tasks at each point where all threads are idle, compared with a model"])

prop("P03", "A task is complete only after all of its descendants are complete",
 "A task that created child tasks counts as complete (for its successors, for barriers, for its own parent) only after all children, recursively, are complete, no matter whether the children run before or after the parent's body returns. Children of one task are ordered among each other by their accesses exactly like tasks at top level, and tasks that only share an ancestor but live in different scopes are not ordered against each other.",
 ["programs","schedules","configurations"],
 "every nesting depth up to the generator's bound, every worker count incl. one, every interleaving of parent return and child initialisation",
 "Whether a child is initialised before or after its parent returns is decided by the scheduler; the tests see the usual order only.",
 ["task/property/graph.cpp","task/task_space.cpp","redGrapes.cpp","dispatch/thread/execute.cpp"],
 [("child completion precedes parent completion","task/property/graph.cpp:init_graph / task/task_space.cpp:submit"),
  ("separate task space per parent","redGrapes.cpp:current_task_space")],
 [("post_event.state","1 + number of incomplete children and events","scheduler/event.hpp")],
 ["order of body start/end stamps of descendants and of conflicting successors of the ancestor"])

prop("P04", "Every submitted task runs exactly once; barrier and finalize wait for all",
 "Every submitted task's body is executed exactly once, without user interaction other than reaching the events it waits for: no task is lost, run twice or left behind while workers sleep. A barrier of the main thread returns if and only if every task submitted before it has completed, finalize does the same and then stops all workers, and the runtime can be initialised, used and finalized again in the same process.",
 ["programs","schedules","configurations","histories"],
 "every program, worker count, number of init/finalize cycles and interleaving (including spurious wake-ups)",
 "Lost wake-ups, lost or duplicated queue entries and early barrier returns depend on interleavings of a few instructions; a test run that does not hang says nothing about the others.",
 ["redGrapes.cpp","dispatch/thread/worker.cpp","dispatch/thread/worker_pool.cpp","scheduler/default_scheduler.cpp","task/task_space.cpp","task/queue.hpp","sync/cv.cpp"],
 [("task counter of the root space","task/task_space.cpp"),("worker queues, stealing and wake-ups","scheduler/default_scheduler.cpp"),
  ("work loop re-checks its queues after every wake-up","dispatch/thread/worker.cpp:work_loop")],
 [("task_count","tasks of a space not yet freed","task/task_space.hpp"),("m_stop","worker must terminate","dispatch/thread/worker.hpp")],
 ["number of executions per task id","return of barrier()/finalize()","deadlock = all threads blocked"])

prop("P05", "A future delivers exactly the value its task returned",
 "Getting a future, from the main thread or from inside another task, returns only after the task produced its result and yields exactly that value; readiness queries are true exactly from then on. Obtaining, moving or discarding a future never changes what runs, in which order, or when others may proceed, and the result object is destroyed exactly once, after both the task's completion and the future's end of use.",
 ["programs","schedules","inputs"],
 "every result type size/alignment generated, every order of get / move / drop relative to the task's execution, every interleaving",
 "Tests read one int; the hand-over race between task completion and future release and the life of the result depend on the interleaving.",
 ["task/future.hpp","task/task.hpp","task/task_builder.hpp","redGrapes.cpp","scheduler/event.cpp","task/task_space.cpp"],
 [("result-set event notified after the result is stored","task/task.hpp:ResultTask::run"),("two-party countdown before a task is destroyed","scheduler/event.cpp:EventPtr::notify")],
 [("removal_countdown","2 minus {post event, future released}","task/task.hpp")],
 ["value returned by get()","is_ready()","constructor/destructor balance of instrumented result types"])

prop("P06", "An event created in a task holds back its completion until it is reached",
 "A task that created external events counts as complete only after its body returned and every one of these events was reached, whichever comes first and from whichever thread (main or worker, inside or outside tasks) they are reached. Until then no conflicting successor starts and no barrier passes; afterwards successors are released without further action. Outside of tasks no event is created.",
 ["programs","schedules","histories"],
 "every number of events per task, every thread and order of reaching them, every interleaving",
 "Only example 7 uses events, with one event from one thread.",
 ["task/property/graph.cpp","scheduler/event.cpp","redGrapes.cpp"],
 [("edge from the external event to the task's post event","task/property/graph.cpp:make_event"),("state countdown","scheduler/event.cpp:EventPtr::notify")],
 [("state","outstanding predecessors","scheduler/event.hpp")],
 ["start of successors relative to the notification","state at rest versus model"])

prop("P07", "A suspended task frees its worker and resumes exactly once after its event",
 "A task running on its own stack that waits for an event gives its worker back for other tasks, continues exactly once, only after the event was reached and always if it was, possibly on another worker, with its local variables and its place in the task hierarchy intact. Waiting for an already reached event does not suspend it, and a task may wait any number of times.",
 ["programs","schedules"],
 "every placement of waits, every event reached before/while/after the waiter suspends, every interleaving",
 "The window between the task's decision to suspend and the registration of its continuation is a few instructions wide.",
 ["redGrapes.cpp","dispatch/thread/execute.cpp","task/task_base.hpp","task/property/graph.hpp","scheduler/event.cpp"],
 [("suspend edge from the awaited event to the task","task/property/graph.hpp:sg_pause"),("continuations","task/task_base.hpp")],
 [("yield_cont/resume_cont","suspended stacks","task/task_base.hpp"),("pre_event.state","becomes ready again","scheduler/event.hpp")],
 ["resume count, locals, current-task identity after resume; other tasks' progress while suspended"])

prop("P08", "Giving up accesses at run time releases exactly the tasks no longer in conflict",
 "After a running task narrowed its declared accesses, waiting tasks that no longer conflict with it (nor with anything else) start although the task continues, and tasks that still conflict keep waiting until it is complete; tasks submitted later are ordered against the narrowed accesses. An update that is not a narrowing (a new resource, a wider mode or area) is rejected with an exception and has no effect; outside of a task every update is rejected.",
 ["programs","schedules","inputs"],
 "every patch over IO and area accesses, any follower set, every interleaving with the initialisation of followers",
 "The single unit test changes one access with one follower set-up.",
 ["task/property/graph.cpp","task/property/resource.hpp","resource/resource_user.cpp","redGrapes.cpp","util/chunked_list.hpp","task/property/inherit.hpp"],
 [("subset check","task/property/resource.hpp:apply_patch"),("edge removal","task/property/graph.cpp:update_graph")],
 [("access_list","declared accesses of a task","resource/resource_user.hpp")],
 ["started set at rest after each update versus model","exception or not"])

prop("P09", "Children may only use what the parent declared, or resources of inner scope",
 "Inside a task, submitting a child is accepted if each of the child's accesses is covered by one of the parent's accesses or concerns a resource created inside the parent's scope (or deeper); otherwise the submission is refused and the child never runs. Tasks at top level are unrestricted.",
 ["programs","inputs"],
 "every pair of parent/child access sets over IO and area policies and resources of every scope level",
 "No unit test creates an offending child.",
 ["task/task_space.cpp","resource/resource_user.cpp","resource/resource.cpp"],
 [("superset test at submission","task/task_space.cpp:submit"),("scope level of a resource = depth of its creator","resource/resource.cpp")],
 [("scope_level","depth at which a resource was created","resource/resource.hpp")],
 ["outcome of the submission in a forked process versus a set-based model"])

prop("P10", "Access algebra: conflict is intersection, narrowing is inclusion",
 "For all built-in access policies and their combinations the conflict test is symmetric and equals the set-theoretic meaning (two accesses conflict iff some element is touched by both and not both touches are reads or both the same kind of commutative update), and the inclusion test is a partial order under which a smaller access never conflicts with more than a larger one. An access that declares itself synchronising conflicts with every non-empty access to that resource; accesses to different resources or of different policy types never conflict and never include each other.",
 ["inputs"],
 "all mode pairs, all interval bounds incl. 0 and the maximum, dimensions 1-3, and/or combinations",
 "Tests evaluate a few hand-picked pairs.",
 ["resource/access/io.hpp","resource/access/area.hpp","resource/access/combine.hpp","resource/access/field.hpp","resource/resource.hpp"],
 [("is_serial / is_superset_of / is_synchronizing of each policy","resource/access/")],
 [],["return values versus a set-based reference model"])

prop("P11", "Access guards permit and declare exactly their own area",
 "A guard obtained by any chain of read/write/area/element restrictions declares precisely the access mode and area it was restricted to, allows element access exactly inside that area (an exception outside), refuses to be widened, and always refers to the same underlying object and the same resource as the one it was derived from. Independently created resources never share identity, copies always do.",
 ["inputs","histories"],
 "every chain of restrictions, all indices inside/outside/at the border, one and two dimensions, vectors and arrays",
 "Only used implicitly by examples with constant areas.",
 ["resource/fieldresource.hpp","resource/ioresource.hpp","resource/resource.hpp"],
 [("bounds test","resource/fieldresource.hpp:AreaGuard::get"),("sub-area test","resource/fieldresource.hpp:make_area"),("conversion to a resource access","resource/fieldresource.hpp, resource/ioresource.hpp")],
 [],["values/exceptions/accesses versus an interval model"])

prop("P12", "The concurrent bookkeeping list never loses, duplicates or revives an element",
 "For every history of concurrent appends, removals, erasures and backward iterations: an element present during a whole iteration is visited exactly once, an element removed before the iteration began or appended by nobody is never visited, elements are visited newest first, and iterating from a handle visits exactly what lies before it. A removed element's value is destroyed exactly once, only after the last iterator on it is gone, and copying a list copies its elements.",
 ["histories","schedules"],
 "every operation history over lists with small chunk sizes, every interleaving of up to four threads",
 "The unit test appends and removes in a fixed pattern; deletion races with iteration across chunk borders and chunk reclamation are not reached.",
 ["util/chunked_list.hpp","util/atomic_list.hpp"],
 [("per-item reference count and skip offset","util/chunked_list.hpp:Item"),("deferred unlinking of empty chunks","util/atomic_list.hpp")],
 [("iter_offset","distance to the previous live item","util/chunked_list.hpp"),("refcount","iterators on an item","util/chunked_list.hpp")],
 ["visited sequences, constructor/destructor balance"])

prop("P13", "Arena memory blocks are disjoint, intact and reusable",
 "Every successful allocation returns a block of at least the requested size that overlaps no other live block and whose content nobody else changes until it is released, for any sequence of sizes and any threads allocating and releasing concurrently. A request that cannot be met is refused promptly without side effects, and memory of completely released chunks is returned to the system.",
 ["histories","schedules","inputs"],
 "every sequence of allocate/release over all sizes from 1 byte to beyond the chunk size, several threads",
 "The unit tests allocate a few constant sizes.",
 ["memory/chunked_bump_alloc.hpp","memory/bump_allocator.cpp","memory/allocator.hpp","memory/allocator.cpp","util/atomic_list.hpp"],
 [("bump pointer with exhaustion test","memory/bump_allocator.cpp:allocate"),("new chunk on exhaustion, erase of full and empty chunks","memory/chunked_bump_alloc.hpp")],
 [("count/next_addr","live allocations and fill level of a chunk","memory/bump_allocator.hpp")],
 ["returned address ranges, block contents, mapped chunks of the backing allocator"])

prop("P14", "Worker availability bookkeeping is exact for any number of workers",
 "Setting a worker's availability returns the previous availability of exactly that worker and leaves all others unchanged, and a search returns a worker that satisfies the requested availability and the caller's condition whenever one exists, examines no index outside the pool and none twice. This holds for any pool size, in particular above 32 and 64, and under concurrent updates no update is lost and an available worker is claimed by at most one claimer.",
 ["inputs","histories","schedules"],
 "all sizes from 1 to several hundred, all start positions, all bit patterns, concurrent setters and claimers",
 "Pools in tests are as large as the machine; the test machine has few cores.",
 ["util/bitfield.hpp","dispatch/thread/worker_pool.hpp","dispatch/thread/worker_pool.cpp"],
 [("atomic and/or on 64-bit words","util/bitfield.hpp:set"),("masked word-wise search","util/bitfield.hpp:probe_by_value")],
 [("state","one availability bit per worker","util/bitfield.hpp")],
 ["return values versus a bit-vector model"])

prop("P15", "A wake-up is never lost",
 "If a thread is notified at or after the moment it begins to wait, its wait returns; a notification sent before the wait makes the next wait return immediately, and without a notification since the last return a wait does not return (spurious wake-ups of the platform notwithstanding). The notifier learns whether it was the first to notify since the last wait.",
 ["schedules","histories"],
 "every interleaving of one waiter and several notifiers, any spin budget",
 "A lost wake-up needs a notification between two adjacent instructions.",
 ["sync/cv.cpp","sync/cv.hpp"],
 [("flag tested under the mutex before sleeping and set before notifying","sync/cv.cpp")],
 [("should_wait","no notification pending","sync/cv.hpp")],
 ["return of wait(), return value of notify()"])

prop("P16", "Tasks are dispatched only by a scheduler that supports all their tags",
 "With tag-based scheduling a task is handed exclusively to the first registered scheduler whose supported tags include all tags required by the task, both when it is new and when it becomes ready, and a task that no scheduler supports is refused. Wake-ups reach the schedulers, and scheduler-specific dependency types of the responsible scheduler are honoured.",
 ["programs","configurations"],
 "every list of tag sets, every task tag set, every order",
 "No unit test covers tag matching.",
 ["scheduler/tag_match.hpp","scheduler/tag_match_property.hpp","scheduler/scheduler.hpp","task/property/graph.cpp"],
 [("first-match subset test","scheduler/tag_match.hpp:get_matching_scheduler")],
 [("required_scheduler_tags","tags of a task","scheduler/tag_match_property.hpp")],
 ["which recording scheduler received which task"])

prop("P17", "Task introspection reflects the true task hierarchy",
 "Inside a task the backtrace lists the running task first and then its ancestors up to top level with the identities and labels they were given, and the scope depth equals the number of enclosing tasks; this stays true after the task was suspended and resumed, after other tasks ran on the same thread, and outside of tasks the backtrace is empty and the depth zero. Task identifiers are unique within a process.",
 ["programs","schedules"],
 "every nesting and suspension pattern, every interleaving",
 "One example prints a backtrace; nothing is checked after suspension or migration.",
 ["redGrapes.cpp","dispatch/thread/execute.cpp","task/property/id.hpp","task/property/label.hpp"],
 [("thread-local current task restored around every body","dispatch/thread/execute.cpp"),("atomic id counter","task/property/id.hpp")],
 [("current_task","task running on this thread","redGrapes.hpp")],
 ["backtrace ids/labels and scope depth versus the program's tree"])

prop("P18", "Independent ready tasks use idle workers",
 "Work is spread over the pool: with n workers at rest, n independent tasks submitted one after the other all run at the same time even if none of them returns until all have started, and k (at most n) tasks that become ready at once because their common predecessor completes do so as well. This holds for any pool size, including more than 32 or 64 workers.",
 ["configurations","schedules"],
 "every pool size, every interleaving",
 "On a machine with few cores and short tasks a sequentialised pool still passes all tests.",
 ["scheduler/default_scheduler.cpp","dispatch/thread/worker_pool.cpp","dispatch/thread/worker.cpp","util/bitfield.hpp","redGrapes.hpp"],
 [("round-robin placement of new tasks","redGrapes.hpp:emplace_task"),("ready tasks go to an available worker","scheduler/default_scheduler.cpp:activate_task"),("stealing","scheduler/default_scheduler.cpp")],
 [("worker_state","available or busy","dispatch/thread/worker_pool.hpp")],
 ["number of tasks simultaneously inside their bodies"])

prop("P19", "Steady use does not accumulate memory",
 "After everything submitted has completed and all futures are gone, the memory used for these tasks is available again: repeating the same batch of work any number of times needs a bounded amount of memory, and the number of live task objects, accesses, callables and results returns to zero. Resources, once their last copy and the last task using them are gone, release the object they hold exactly once and not earlier.",
 ["histories","programs"],
 "every program repeated many times, every worker count including more workers than processing units",
 "Tests are too short to notice leaks, and leaked tasks still compute the right result.",
 ["task/task_space.cpp","memory/chunked_bump_alloc.hpp","util/atomic_list.hpp","util/chunked_list.hpp","resource/resource.hpp","redGrapes.cpp"],
 [("task destruction on the second of two release conditions","scheduler/event.cpp"),("chunk reclamation","memory/chunked_bump_alloc.hpp:deallocate")],
 [("removal_countdown","release conditions outstanding","task/task.hpp")],
 ["live bytes of the arenas / mapped chunks at rest after each repetition","live object counters"])

prop("P20", "Each asynchronous message request resumes exactly its own waiter",
 "Every task waiting for a message-passing request is resumed once that request (and no other) was reported complete, receives the status belonging to its own request, and no request is dropped, reported twice or passed on after completion, however completions are batched and ordered by the message library and however requests are added while others complete.",
 ["histories","schedules","fault_sequences"],
 "every sequence of additions and completion batches (any subset in any order), every interleaving of polling and registering threads",
 "There is no test of the request pool; the MPI example completes one request at a time.",
 ["dispatch/mpi/request_pool.hpp"],
 [("parallel arrays of requests, events and statuses with index correction while erasing","dispatch/mpi/request_pool.hpp:poll")],
 [("requests/events/statuses","outstanding requests","dispatch/mpi/request_pool.hpp")],
 ["status and resume time of each waiter with a simulated message library"])

prop("P21", "No task, event or resource bookkeeping is touched after its release",
 "In every execution, memory that the runtime has handed back (task objects, events, bookkeeping entries, resources) is never read or written again, nothing is released twice, and no execution crashes or trips an internal consistency check, whatever the order in which completion, result retrieval, dependency initialisation and wake-ups interleave.",
 ["schedules","programs"],
 "every generated program under every explored interleaving, with every arena block tracked",
 "A use after release usually reads still intact memory and passes silently; the windows are a few instructions wide.",
 ["scheduler/event.cpp","task/task_space.cpp","task/property/graph.cpp","util/chunked_list.hpp","util/atomic_list.hpp","task/future.hpp"],
 [("two-party countdown before destruction","scheduler/event.cpp"),("per-resource lock around dependency search and removal","task/property/graph.cpp")],
 [("removal_countdown","release conditions outstanding","task/task.hpp")],
 ["every instrumented memory access checked against a map of released arena blocks"])

prop("P22", "A task's callable and arguments are its own and live as long as it needs them",
 "The callable and the arguments given at task creation are delivered to the body with exactly the values they had at creation, regardless of what the creator does afterwards (its temporaries die, its variables change, the same callable or argument variables are used for further tasks). They stay alive until the body has finished, and every copy made is destroyed exactly once.",
 ["programs","inputs","schedules"],
 "every mix of value categories (temporary, moved, const and non-const variable), sizes and numbers of arguments and captures, every delay between creation and execution",
 "Tests use trivially copyable captures whose destruction nobody observes.",
 ["task/task_builder.hpp","task/task.hpp","redGrapes.hpp"],
 [("callable and arguments bound by value into the task object","task/task_builder.hpp:BindArgs")],
 [("impl","bound callable","task/task.hpp:FunTask")],
 ["values seen in the body, constructor/destructor balance, state of the caller's variables after creation"])

prop("P23", "Dependency counting is exact for any number of predecessors",
 "The ordering and progress guarantees do not depend on how many tasks are involved: a task with any number of unfinished conflicting predecessors, a task with any number of unfinished children or events, and a task with any number of waiting successors behave like one with few, and the same holds for any number of accesses per task, of resources per program, of levels of nesting, and of waits and updates of one task.",
 ["inputs","programs"],
 "fan-in, fan-out, child and access counts from one to beyond 70000",
 "Tests have at most a few dozen edges per task; counters of limited width and lists spanning many chunks are never filled.",
 ["scheduler/event.hpp","scheduler/event.cpp","util/chunked_list.hpp","memory/bump_allocator.hpp","task/property/graph.cpp"],
 [("predecessor counter","scheduler/event.hpp"),("chunked follower and user lists","util/chunked_list.hpp")],
 [("state","number of predecessors","scheduler/event.hpp")],
 ["started/completed sets versus model at extreme sizes"])

prop("P24", "Descriptions of tasks say what was declared, and logging changes nothing",
 "The textual description of a task, obtained from the call stack of the running task or from the log when the task is submitted, names exactly its id, its label, its scheduling tags and every access it currently declares (resource, scope level, mode, area), including the effect of updates of its accesses and of restrictions of its arguments. Enabling or formatting log messages of any level changes nothing else: every order, result, progress and memory guarantee holds with all of them enabled.",
 ["programs","schedules","configurations"],
 "every task and access that can be declared or updated, every interleaving, every log level",
 "Tests neither look at the text nor build with detailed messages; messages which touch a task after another thread may have destroyed it fail in a few interleavings only.",
 ["task/property/id.hpp","task/property/label.hpp","task/property/resource.hpp","resource/resource.hpp","resource/access","scheduler/event.cpp","task/task_builder.hpp"],
 [("formatters of task properties","task/property/inherit.hpp"),("log statements of every level","scheduler/event.cpp")],
 [("access_list","declared accesses of a task","resource/resource_user.hpp")],
 ["text of log messages and of formatted task properties"])

prop("P25", "Settings change speed, never behaviour",
 "Whatever the compile time settings of the library (chunk size of the resource user lists, chunk size of the allocator, time a waiting thread spins before it sleeps, whether a further worker is notified on submission), every guarantee holds as with the defaults: conflicting tasks are ordered, nothing is held back or lost, waits end, and memory is neither leaked nor touched after its release.",
 ["configurations","programs","schedules"],
 "all settings which leave room for a single list chunk, task and event in an allocator chunk, with any program and interleaving",
 "Tests are built with one set of values, under which lists fit into one chunk and waiting threads never get to sleep.",
 ["scheduler/default_scheduler.cpp","sync/cv.cpp","resource/resource.hpp","memory/chunked_bump_alloc.hpp","util/chunked_list.hpp"],
 [("settings macros","scheduler/default_scheduler.cpp, sync/cv.cpp, resource/resource.hpp, memory/chunked_bump_alloc.hpp")],
 [],
 ["order of execution, results, rest states and live blocks compared with the model"])

prop("P26", "Tasks carry exactly the properties they were given",
 "A program may add properties of its own to every task and describe how argument types contribute to them. Whatever the composition, each submitted task has exactly the properties its builder calls and its arguments gave it: every argument contributes once, in whichever way it is passed (temporary, variable, constant, reference wrapper, inside of another argument), builders used at the same time or moved do not mix, and an update of the running task reaches every property exactly once and no other task. A refused update changes none of them. The properties stay as they are across suspension, are visible to children through the call stack, and are destroyed exactly once.",
 ["programs","inputs","schedules"],
 "every composition of properties, category of arguments, order of builder calls, interleaving of builders and updates",
 "Tests use the built-in resources and a label only, no property with updates of its own and no argument with more than one contribution.",
 ["task/property/inherit.hpp","task/property/trait.hpp","task/task_builder.hpp","scheduler/tag_match_property.hpp","task/property/label.hpp","task/property/resource.hpp"],
 [("composition of properties, builders and patches","task/property/inherit.hpp"),("trait for arguments","task/property/trait.hpp")],
 [("properties of a task","user defined base classes of the task","task/task.hpp")],
 ["properties of the running task and its ancestors after creation, updates and suspension, life counters"])

prop("P27", "Recycled GPU events have one holder at a time",
 "The pools of events of the CUDA and cupla dispatchers never hand out an event which somebody else holds or which was destroyed, from whichever threads events are requested and returned. A further event is created only when none is unused, and when a pool ends, every event which was given back is destroyed exactly once and none that is still held.",
 ["histories","schedules"],
 "all concurrent histories of requests and returns, returns by other threads than the one which requested",
 "Tests cannot run the dispatchers without a device, and no sample of a few calls shows two threads in the pool at the same time.",
 ["dispatch/cuda/event_pool.hpp","dispatch/cupla/event_pool.hpp"],
 [("pools","dispatch/cuda/event_pool.hpp, dispatch/cupla/event_pool.hpp")],
 [],
 ["events returned by requests, calls into a simulated device runtime"])

with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False)+"\n")
try:
    import jsonschema
    s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in P: jsonschema.validate(p,s)
    print(len(P),"ok")
except ImportError: print(len(P),"written")
