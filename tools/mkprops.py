import json
P=[]
def prop(id,title,statement,over,text,why,files,state,mech,obs,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=hook)))
RC="core/reactor_common.c"; RT="core/threaded/reactor_threaded.c"; RS="core/reactor.c"; SC="lib/schedule.c"
prop("R01","Events are handled in tag order, each exactly once",
 "Logical time only moves forward: a program processes its tags in strictly increasing order, never skips a tag at which something was due, and handles every accepted event at exactly the tag it was accepted for. At a tag, exactly the reactions that something present at that tag triggers are executed, each of them exactly once, and no reaction is executed at any other tag.",
 ["programs","schedules","histories"],"every program (timers, actions, ports, deadlines, stops), every scheduler (single-threaded, NP, GEDF, adaptive) and number of workers, every interleaving of worker threads and asynchronous callers",
 "The order depends on thread interleavings and on programs; unit tests run no program at all.",
 [RC,RT,RS,"core/threaded/scheduler_NP.c","core/threaded/scheduler_GEDF_NP.c","core/threaded/scheduler_adaptive.c"],
 [("event queue","pending events ordered by tag","environment_t.event_q"),("current tag","the tag being processed","environment_t.current_tag"),("reaction queue","reactions enabled at the current tag","scheduler instances")],
 [("tag advance",RC+" _lf_advance_tag, _lf_pop_events; "+RT+" _lf_next_locked"),("direct execution of a downstream reaction",RC+" schedule_output_reactions")],
 ["reaction bodies (tag, order) recorded by the table-driven program"])
prop("R02","Scheduled actions get the tag their delay, spacing and policy say",
 "An action scheduled with an extra delay occurs at the current tag plus its minimum delay plus that delay (one microstep later if that is zero; for a physical action, physical time takes the place of logical time and the event is strictly in the future). Events of an action without minimum spacing never collide: later ones pile up in microsteps; with minimum spacing the policy (defer, drop, replace) decides as documented, and an event beyond the stop tag is discarded. No accepted event is ever lost, duplicated, moved or delivered with another event's value.",
 ["inputs","programs","histories"],"every sequence of schedule calls with any delays (also negative), minimum delays, spacings and policies, from reactions and from other threads, before and around the stop tag",
 "The result depends on the whole history of previous schedule calls and on pending events.",
 [SC,RC,"core/tag.c","core/utils/pqueue_tag.c"],
 [("last tag of an action","base for the minimum spacing","trigger_t.last_tag"),("event queue","pending events","environment_t.event_q")],
 [("scheduling",SC+" lf_schedule_trigger"),("network and mode scheduling",RC+" _lf_schedule_at_tag")],
 ["tag and value at which triggered reactions see the action"])
prop("R03","Reactions respect precedence, mutual exclusion and determinism",
 "At every tag a reaction runs only after all reactions that precede it (through ports, or earlier in the same reactor) and are enabled at that tag have finished, and two reactions of one reactor never overlap. Consequently the values every reaction observes and the final states are those of sequential execution, whatever scheduler and number of workers are used.",
 ["schedules","programs"],"every acyclic reaction graph, any number of workers, all three threaded schedulers and the single-threaded runtime, every interleaving",
 "Violations need particular interleavings of workers at level boundaries.",
 ["core/threaded/scheduler_NP.c","core/threaded/scheduler_GEDF_NP.c","core/threaded/scheduler_adaptive.c","core/threaded/scheduler_sync_tag_advance.c",RT,RC,RS],
 [("level","topological level of a reaction","reaction_t.index"),("queue status","whether a reaction is queued or running","reaction_t.status")],
 [("level synchronisation","scheduler lf_sched_get_ready_reaction / lf_sched_done_with_reaction / lf_scheduler_trigger_reaction")],
 ["start and end of reaction bodies, inputs read, state variables"])
prop("R04","Inputs are present exactly at the tags at which they were set",
 "A port or action is present at a tag if and only if it was set (or its event occurs) at that tag, and then carries the last value set; at the next tag it is absent again. Iterating over a multiport yields exactly its present channels, in order and without repetition, whatever the size of its sparse record.",
 ["programs","schedules","histories"],"every pattern of setting ports (also repeatedly, also from several writers) over tags, multiports of any width and sparse capacity, all schedulers",
 "Stale presence shows only in sequences of tags with particular sets of ports, and overflow of the bookkeeping needs many ports.",
 ["core/port.c",RC,RT,RS,"core/environment.c"],
 [("presence list","ports set at the current tag","environment_t.is_present_fields_abbreviated"),("sparse record","present channels of a multiport","lf_sparse_io_record_t")],
 [("reset at the start of a tag",RC+" _lf_start_time_step"),("recording",RT+" lf_set_present; "+RS+" lf_set_present"),("iteration","core/port.c lf_multiport_next")],
 ["presence and values read by reactions; results of multiport iteration"])
prop("R05","Startup happens once at the start, shutdown once at the end",
 "Startup reactions and timers with zero offset run at the first tag and startup never triggers again; at the last tag, and only there, every shutdown reaction runs exactly once, in precedence order with the other reactions of that tag. After the last tag no reaction runs, and every execution that ends normally has had its shutdown tag.",
 ["programs","schedules","histories"],"every program and every way to end: timeout (also zero), request to stop from any reaction at any tag, starvation, with and without keepalive, in fast and normal mode",
 "The last tag is determined by races between timeout, stop requests, starvation and pending events.",
 [RC,RT,RS],
 [("stop tag","last tag of the execution","environment_t.stop_tag")],
 [("startup/shutdown triggers",RC+" _lf_trigger_startup_reactions, _lf_trigger_shutdown_reactions"),("starvation",RT+" _lf_next_locked; "+RS+" next")],
 ["reactions triggered by startup and shutdown"])
prop("R06","Timers fire at offset plus multiples of their period",
 "A timer fires at its offset after the start and then at every multiple of its period until the last tag (once if the period is zero), at microstep zero of each such time, independent of how late the program runs and of what else happens. A firing on the last tag still happens; none is skipped, repeated or shifted.",
 ["programs","histories","schedules"],"every set of timers with any offsets and periods, long executions, all schedulers, overloaded and stopped executions",
 "Needs long histories with coinciding timers and stops.",
 [RC,RT,RS],[("timer event","next firing","environment_t.event_q")],
 [("initial scheduling",RC+" _lf_initialize_timer"),("rescheduling",RC+" _lf_pop_events")],
 ["tags at which timer-triggered reactions run"])
prop("R07","Logical time does not run ahead of physical time; deadlines are honoured",
 "Unless the program runs in fast mode, nothing happens at a tag before physical time reaches it, and an idle program reacts promptly when it does or when an asynchronous event arrives. A reaction with a deadline is replaced by its violation handler exactly when it starts later than the deadline after its tag (always for a zero deadline), and an explicit deadline check agrees with the clock.",
 ["schedules","programs","histories"],"every program, every amount of time spent in reactions, every point in time at which an asynchronous event arrives, all schedulers",
 "Real clocks make the interesting coincidences (wakeup races, exact equality) unreproducible in tests.",
 [RT,RS,RC,SC,"core/clock.c","low_level_platform/impl/src/lf_unix_clock_support.c"],
 [("physical clock","current physical time","lf_time_physical")],
 [("waiting",RT+" wait_until; "+RS+" wait_until"),("deadline check",RT+" _lf_worker_handle_deadline_violation_for_reaction; "+RC+" schedule_output_reactions; "+SC+" lf_check_deadline")],
 ["virtual time at which reactions, handlers and asynchronous calls happen"])
MO="core/modal_models/modes.c"
prop("R08","Only active modes react; transitions take effect after the tag",
 "A mode transition requested at a tag (the last request counts) takes effect when that tag is complete: until then the old mode's reactions run, from the next tag on only those of the new one. No reaction of an inactive mode, or of a mode inside one, is executed or triggered; startup reactions of a mode run once, when it first becomes active, its reset reactions whenever it is entered by a reset, both in the microstep after the transition, and its shutdown reactions at the end if it ever was active.",
 ["programs","schedules","histories"],"every program with modal reactors, nested in any way, every sequence of reset and history transitions, simultaneous ones included, all four schedulers",
 "What a transition does depends on the history of all modal reactors around it; unit tests run no program at all.",
 [MO,RC,RS,RT],
 [("current and next mode","mode of a modal reactor","reactor_mode_state_t"),("mode flags","active, needs startup, had startup, needs reset","reactor_mode_t.flags")],
 [("transitions",MO+" _lf_process_mode_changes"),("startup and reset",MO+" _lf_handle_mode_startup_reset_reactions"),("suppression",RC+" _lf_pop_events, schedule_output_reactions; "+RS+", "+RT+" _lf_trigger_reaction")],
 ["reactions, transitions and state variables of modal programs"])
prop("R13","Time stands still in inactive modes; a reset starts it over",
 "Pending events of a mode (timers and actions, with their payloads) are suspended while it is inactive. Entering it with history continues each of them after the delay it had left, in order and none lost, also for reactors and modes nested inside; entering it with a reset drops its pending actions, restarts its timers at their offset (each once), and resets the modal reactors and the state variables marked for reset inside it.",
 ["programs","schedules","histories"],"every program with modal reactors, nested in any way, any timers and delayed actions, every sequence of transitions at any tags, all four schedulers",
 "Loss or shift of an event shows only after several transitions at particular times.",
 [MO,RC],
 [("suspended events","events of inactive modes","_lf_suspended_events_head"),("deactivation time","when a mode became inactive","reactor_mode_t.deactivation_time")],
 [("suspending and reactivating",MO+" _lf_process_mode_changes, _lf_add_suspended_event, _lf_remove_suspended_event"),("timers of modes inactive at the start",RC+" _lf_initialize_timer")],
 ["tags at which timers and actions of modes trigger, values, state variables"])
prop("R09","Dynamically allocated values live exactly as long as they are needed",
 "A value sent through a port or scheduled with an action stays intact and unchanged for every reaction that may still read it, is released exactly once, and is released no later than the end of the execution unless its event is still pending then. A writable copy never aliases a value that another reactor may still read.",
 ["programs","histories","schedules"],"every program that sets, forwards, schedules, copies and replaces values (several readers, several pending events, repeated setting), all schedulers",
 "Reference counts depend on the whole history; tests in the repository exercise no tokens.",
 ["core/lf_token.c",RC,SC,"include/api/reaction_macros.h"],
 [("reference count","holders of a value","lf_token_t.ref_count"),("template token","current value of a port or action","token_template_t.token")],
 [("release","core/lf_token.c _lf_done_using, _lf_free_token"),("replacement","core/lf_token.c _lf_replace_template_token, _lf_get_token"),("copies","core/lf_token.c lf_writable_copy, _lf_free_token_copies")],
 ["constructor, copy and destructor calls for payloads; payload contents read by reactions"])
prop("R10","Watchdogs fire exactly when they expire and never overlap their reactor",
 "A started watchdog's handler runs once physical time reaches the expiration computed at its last start, unless it was stopped or restarted before; it does not run early, twice, or without having been started. The handler never runs while a reaction or violation handler of the same reactor is running, and watchdogs never prevent the program from ending.",
 ["schedules","programs","histories"],"every pattern of starting, restarting (earlier or later) and stopping, several watchdogs in a reactor, every interleaving of watchdog threads with workers and termination",
 "Needs specific interleavings of watchdog threads, restarts and termination.",
 ["core/threaded/watchdog.c",RC,RT],
 [("expiration","time at which the watchdog fires","watchdog_t.expiration"),("reactor mutex","excludes handlers and reactions","self_base_t.reactor_mutex")],
 [("watchdog thread","core/threaded/watchdog.c watchdog_thread_main, watchdog_wait"),("control","core/threaded/watchdog.c lf_watchdog_start, lf_watchdog_stop")],
 ["watchdog handler and reaction start and end, in virtual time"])
prop("R11","Every execution makes progress and terminates when it should",
 "No execution deadlocks, livelocks or misuses its locks: whenever an event is due or work is ready some worker takes it, an idle program wakes up in time for asynchronous events, and when the last tag has been processed all worker threads end and the program exits successfully. A program that runs out of events ends by itself unless it is kept alive.",
 ["schedules","programs"],"every program, any number of workers, all schedulers, every interleaving of workers and asynchronous threads, including around shutdown",
 "Lost wakeups and deadlocks need particular interleavings.",
 [RT,RC,"core/threaded/scheduler_NP.c","core/threaded/scheduler_GEDF_NP.c","core/threaded/scheduler_adaptive.c","core/threaded/scheduler_sync_tag_advance.c"],
 [("idle workers","number of workers waiting for work","custom_scheduler_data_t / lf_scheduler_t"),("event queue condition","wakes up the worker that waits for time","environment_t.event_q_changed")],
 [("worker loop",RT+" worker, _lf_worker_do_work"),("idle/notify","scheduler_*.c"),("wakeup",RT+" lf_notify_of_event")],
 ["end of the execution, exit code, promptness in virtual time, deadlock and livelock detection of the simulated platform"])
prop("R12","A stop request ends the program at the next microstep, everywhere once",
 "A request to stop takes effect one microstep after the tag at which it is made (never later than the timeout), whoever makes it; repeated requests change nothing. Everything due up to and including the last tag is still processed, nothing after it is, and the execution then ends.",
 ["schedules","programs","histories"],"every combination of stop requests, timeouts, pending events and asynchronous threads, all schedulers",
 "The interesting cases are races between requests, pending events and the advance of tags.",
 [RC,RT,RS],[("stop tag","last tag of the execution","environment_t.stop_tag")],
 [("request",RT+" lf_request_stop; "+RS+" lf_request_stop"),("stop tag handling",RC+" lf_set_stop_tag, lf_is_tag_after_stop_tag")],
 ["stop tag after the request; tags processed afterwards"])
exec(open('/verif/tools/moreprops.py').read()) if __import__('os').path.exists('/verif/tools/moreprops.py') else None
P.sort(key=lambda p:p['id'])
for p in P:
    assert len(p['title'])<=80,(p['id'],len(p['title']))
    assert p['statement'].count('. ')<=2,p['id']
open('/verif/properties.jsonl','w').write("".join(json.dumps(p)+"\n" for p in P))
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for p in P: jsonschema.validate(p,sch)
print(len(P))
