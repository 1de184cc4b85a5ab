import json
P=[]
def p(id,title,st,over,text,why,files,mech,obs,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":obs,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
D="src/driver.rs";PR="src/processor.rs";LB="src/lib.rs";CO="src/cockpit.rs";PA="src/instruments/panel.rs"
p("C01","Every transmitted observation is handled exactly once",
 "Every observation transmitted through an unbounded (or blocking) transmitter whose processor is mounted on a running, unpaused driver that processes all observations is delivered exactly once, unchanged in label, value, count and timestamp, to every handler registered for its label: none is lost, duplicated, altered or handed to a handler that does not accept it. Once load and faults stop, everything transmitted has been handled within a bounded time, however large the backlog. The number of observations the processors report as processed plus dropped equals the number handed in.",
 ["schedules","inputs","fault_sequences","histories"],
 "All interleavings of any number of transmitting threads (clones of a transmitter) with the driver thread, all burst sizes including more than one batch (1000 messages), all stalls of either side, processors added before or after transmission starts.",
 "The unit tests call handlers directly on one thread; no test transmits through a running driver, let alone from several threads with preemption inside the channel and the processing loop.",
 [LB,PR,D,CO,PA],[("TelemetryTransmitter::send","src/lib.rs"),("TelemetryProcessor::process","src/processor.rs"),("do_a_run / telemetry_loop","src/driver.rs")],
 ["custom HandlesObservations implementations at processor, cockpit and panel level","ProcessingOutcome returned by process()"])
p("C02","Observations are handled in transmission order",
 "If one observation's transmit call returns before another observation's transmit call on the same processor begins (in particular for two calls of one thread), handlers see the first before the second. All handlers of one processor (at processor, cockpit and panel level) that see two given observations see them in the same order.",
 ["schedules","inputs","histories"],
 "All interleavings of transmitting threads, all batch boundaries, several producers with handed-over happens-before between them.",
 "Existing tests never have two transmitting threads; order violations need a batch boundary or a preemption at a particular point.",
 [LB,PR,CO,PA],[("single FIFO channel per processor","src/processor.rs"),("dispatch loop","src/processor.rs")],["sequence recorded by custom handlers"])
p("C03","Registrations take effect exactly at their place in the message stream",
 "Adding or removing a cockpit, panel or handler through a transmitter takes effect exactly at its position among that thread's observations: a component sees precisely the accepted observations transmitted after its addition and before its removal, and is present in snapshots for exactly that span. Adding a cockpit or panel whose name is already taken leaves the existing one in place with its state, removing or extending something that does not exist changes nothing, and a name can be reused after removal.",
 ["schedules","histories","inputs"],
 "All sequences of add/remove/re-add/duplicate operations on cockpits, panels and handlers, interleaved with observations from several threads and with snapshots.",
 "Tests build component trees statically before any observation; in-band registration is not tested at all.",
 [PR,CO,LB],[("TelemetryMessage variants","src/processor.rs"),("add_cockpit/remove_cockpit","src/processor.rs"),("add_panel/remove_panel","src/cockpit.rs")],["custom handlers","snapshots"])
p("C04","A snapshot is a consistent, monotone cut of each processor's history",
 "Each snapshot shows, for every processor, the state after some prefix of its message stream: two instruments fed by the same observations never disagree within one snapshot, and the prefix contains no observation not yet transmitted. Snapshots taken one after another never go backwards, and one requested after processing has caught up shows everything.",
 ["schedules","histories"],
 "All interleavings of transmitting threads, several snapshot-requesting threads (sync and async), and the driver; any component nesting.",
 "No test takes a snapshot while observations are in flight.",
 [D,PR],[("snapshots are answered by the processing thread between batches","src/driver.rs")],["Snapshot contents returned to callers"])
p("C05","Every snapshot request is answered",
 "Every synchronous or asynchronous snapshot request on a live driver completes with exactly one snapshot of that driver within a bounded time, whether the driver is idle, loaded, paused, nested or has any number of other requests outstanding, and even when other requesters abandon theirs. When the driver is gone, every outstanding or later request completes with an error; no requester blocks forever.",
 ["schedules","fault_sequences","histories"],
 "All interleavings of requesters, abandoned futures, pause/resume, load and driver shutdown at any point, with stalls of the driver thread.",
 "Tests do not request snapshots concurrently, never abandon an async request and never drop a driver with requests outstanding.",
 [D],[("GetSnapshotSync / GetSnapshotAsync messages with back channels","src/driver.rs"),("snapshot / snapshot_async","src/driver.rs")],["results of snapshot() and snapshot_async()"])
p("C06","The processing strategy decides exactly which observations are dropped",
 "With drop-all no observation reaches a handler; with process-all every one does; with a maximum age, an observation is dropped if and only if at the time it is processed it is older than that age and it is not a delta kept by configuration (the default keeps deltas); future timestamps are never too old. Registrations are never dropped. Strategy changes take effect in the order requested, within a bounded time, and every dropped observation is counted as dropped.",
 ["inputs","histories","schedules","fault_sequences","configurations"],
 "All timestamps (past, exactly at the limit, future), ages, delta and non-delta values, stalls of the driver that age the queue, and sequences of strategy changes from concurrent threads.",
 "The decision depends on how long an observation waited in the queue when the driver got to it; tests cannot control that clock.",
 [PR,D],[("ProcessingStrategy::decider / should_be_processed","src/processor.rs"),("SetProcessingStrategy","src/driver.rs")],["custom handlers","ProcessingOutcome"])
p("C07","Pausing suspends processing without losing anything",
 "After a pause has taken effect no observation is processed until a resume is requested, while snapshots are still answered with the state at the pause. After a resume everything transmitted in the meantime is processed exactly once and in order within a bounded time; repeated pauses and resumes behave like the last one requested.",
 ["schedules","histories","fault_sequences"],
 "All interleavings and sequences of pause, resume, snapshot, strategy change and transmission from several threads.",
 "Pause and resume have no tests.",
 [D],[("Pause / Resume messages","src/driver.rs")],["process() calls observed by a custom processor","snapshots","custom handlers"])
p("C08","A driver runs as long as any handle to it lives and then stops completely",
 "While at least one clone of a driver (or a hierarchy holding one) exists, the driver keeps processing and answering. After the last one is dropped its background thread ends within a bounded time, paused or not and whatever is queued, releasing every processor, handler and snapshooter it owns exactly once and unblocking transmitters waiting on its processors; transmitters that outlive it stay safe to use.",
 ["schedules","crash_points","histories"],
 "All points at which clones are dropped relative to transmissions, registrations, pauses, snapshot requests and nested drivers.",
 "Tests let the process end; nothing observes the thread's end or the release of components.",
 [D],[("DropGuard / is_running","src/driver.rs"),("telemetry_loop exit","src/driver.rs")],["Drop of custom components","termination of the thread"])
p("C09","Bounded queues never exceed their capacity and only drop when full",
 "A bounded transmitter never holds more than its capacity. With blocking disabled a call that transmits an observation or a registration never blocks and its message is discarded only if the queue was full at some moment during the call; everything else is handled exactly once and in order. With blocking enabled nothing is discarded and a blocked call returns as soon as space is made or the processor is gone. The size, fullness and emptiness a transmitter reports are those of its queue at some moment of the call.",
 ["schedules","configurations","fault_sequences","histories"],
 "All capacities including zero and one, numbers of producers, consumer stalls and pauses, both full policies.",
 "Bounded transmitters have no tests; whether a message may be dropped depends on the interleaving.",
 [PR,LB],[("channel::bounded","src/processor.rs"),("send vs try_send","src/lib.rs")],["custom handlers","queue_size / is_queue_full / queue_capacity"])
p("C10","Driver self-metrics report what the driver did",
 "A driver's own metrics agree with its activity: counts of collections, snapshots, processed and dropped observations and instrument updates equal what happened, per-collection histograms count exactly the collections with such observations, the times shown for collections and snapshots are those they took, the share of time spent collecting never exceeds the whole and is not less than what collections took of it, and the number enqueued is that of the last collection, its peak that of the last minute. The dropped-observations alarm is on exactly when something was dropped within the last 60 seconds; the inactivity alarm is on when no observation was processed for 60 seconds and off while observations keep arriving. With driver metrics disabled none appear.",
 ["histories","schedules","fault_sequences","configurations"],
 "All workloads (bursts, drops, idle periods longer than the alarm windows), nested mounts, stalls.",
 "The alarms need minutes of quiet time and drops caused by queue age; no test exercises the driver's metrics.",
 [D,PR],[("DriverInstruments::update_post_collection / update_post_snapshot","src/driver.rs"),("ProcessingOutcome::combine_with","src/processor.rs")],["_metrix in snapshots","ProcessingOutcome of a custom processor"])
p("C11","Meter counts are exact and rates follow the 5-second EWMA over real time",
 "A meter's count is the number of occurrences observed (for a value meter the sum of non-negative observed values), and its 1/5/15-minute rates equal the exponentially weighted moving averages obtained by ticking every 5 seconds of elapsed time since creation, each occurrence belonging to the interval in which it was recorded. This holds however long the instrument was idle, whatever the spacing of updates and whether or not snapshots are taken; rates below the cutoff show as zero.",
 ["inputs","histories","fault_sequences"],
 "All sequences of updates, snapshots and elapsed times (from nanoseconds to days, exactly on tick boundaries, clock jumps).",
 "Rates depend on the clock over minutes; unit tests tick the average by hand and never involve elapsed time.",
 ["src/instruments/meter.rs","src/instruments/fundamentals/metrics_meter.rs","src/instruments/other_instruments/value_meter.rs"],
 [("StdMeter::tick_inner / EWMA","src/instruments/fundamentals/metrics_meter.rs"),("Meter::update / get_snapshot","src/instruments/meter.rs")],["snapshots"])
p("C12","Gauge tracking describes exactly the trailing window of one-second records",
 "A gauge shows the last value set, adjusted by the deltas since. With tracking over n seconds its peak, bottom, extremes and averages are computed from exactly the values recorded in the current and the n-1 preceding one-second intervals since creation, averaging over the intervals that have values; when none has, all show the current value.",
 ["inputs","histories","fault_sequences","configurations"],
 "All value sequences (absolute, delta, durations), window sizes, gaps (sub-second, exact boundaries, longer than the window, clock jumps), with snapshots at any point.",
 "Window contents depend on elapsed time; existing tests advance by single seconds in a few hand-picked patterns.",
 ["src/instruments/gauge/mod.rs","src/instruments/gauge/tracking.rs","src/instruments/gauge/gauge_adapter.rs","src/instruments/fundamentals/buckets.rs"],
 [("SecondsBuckets::tick","src/instruments/fundamentals/buckets.rs"),("BucketsStats::from_buckets","src/instruments/gauge/tracking.rs"),("Gauge::set / next_value","src/instruments/gauge/mod.rs")],["snapshots"])
p("C13","Time-driven switches and displays switch at the configured time",
 "Occurrence and non-occurrence indicators, staircase timers, resettable displays and last-occurrence trackers show, at every moment, the state implied by the time elapsed since the last accepted observation was handled and their configured duration: on (or the value, or the elapsed whole seconds) until it has elapsed and off (or the reset value) afterwards; every observation restarts the period. Initial states, inversion and additionally shown inverted values are consistent with that.",
 ["inputs","histories","fault_sequences","configurations"],
 "All durations, observation times and snapshot times, including repeated triggering, clock jumps and observations carrying timestamps in the past or future.",
 "States depend on elapsed time around the configured limit; there are no tests of these instruments.",
 ["src/instruments/switches/occurrence_indicator.rs","src/instruments/switches/non_occurrence_indicator.rs","src/instruments/switches/staircase_timer.rs","src/instruments/switches/flag.rs","src/instruments/other_instruments/display.rs","src/instruments/other_instruments/last_occurrence_tracker.rs"],
 [("state()/update()","src/instruments/switches/*.rs"),("DataDisplay::value","src/instruments/other_instruments/display.rs")],["snapshots"])
p("C14","Inactivity limits hide exactly the inactive components",
 "A component with an inactivity limit (panel, cockpit, processor, mount or histogram) shows its values exactly while no more than the limit has passed since it last handled an observation (or was created), independently of other components, and its values re-appear intact with the next observation. The activity flags reflect that state and are shown only if enabled; hiding the flags does not disable the limit. A histogram configured to reset restarts with the first observation after an inactive period and otherwise keeps its samples.",
 ["histories","inputs","fault_sequences","configurations"],
 "All limits, nestings, activity patterns (only siblings active, only unaccepted labels), pauses, clock jumps and skewed timestamps.",
 "Behaviour depends on elapsed time since the last handled observation; the two existing tests only check that nothing panics.",
 [PA,CO,PR,"src/instruments/histogram.rs"],[("last_update / last_activity_at vs max_inactivity_duration","src/instruments/panel.rs, src/cockpit.rs, src/processor.rs, src/instruments/histogram.rs")],["snapshots"])
p("C15","No observation, value, timestamp or duration setting can break the backend",
 "No observation that can be transmitted (any count, value, unit, delta or timestamp, including extremes, negative, non-finite, far past and far future) and no configured duration or age, however large or small, makes a transmitter, processor, instrument, snapshot or driver panic, hang or stop handling later observations.",
 ["inputs","configurations","histories","fault_sequences"],
 "All sequences of extreme observations on all instruments, all duration settings from zero to the maximum, machine uptime from seconds to years.",
 "Tests use small friendly values; overflow needs specific combinations of values, units and accumulated state, and clock arithmetic depends on uptime.",
 ["src/observation.rs","src/instruments/mod.rs","src/instruments/counter.rs","src/instruments/gauge/mod.rs","src/instruments/gauge/tracking.rs","src/instruments/fundamentals/metrics_meter.rs",PR,"src/instruments/switches/occurrence_indicator.rs","src/instruments/switches/non_occurrence_indicator.rs","src/instruments/switches/staircase_timer.rs","src/instruments/other_instruments/display.rs"],
 [("arithmetic in instruments and clock comparisons","src/instruments")],["snapshots after the extreme input","panics on any thread"])
p("C16","Components attached through a mount handle become part of it exactly once",
 "Every processor, snapshooter or sub-mount handed to an attached-mount handle, from any thread and at any time, becomes part of that mount exactly once and within a bounded time, and from then on is processed and appears in snapshots at the mount's place in the hierarchy. Dropping any handles, even immediately after handing something over, loses nothing and detaches nothing.",
 ["schedules","crash_points","histories"],
 "All interleavings of several threads attaching to nested mounts, handle clones dropped at any point, snapshots and load in parallel.",
 "Attached mounts have no tests; losing an attachment needs the last handle to be dropped between two polls.",
 ["src/attached_mount.rs",PR],[("InternalAttachedMount::process","src/attached_mount.rs"),("AttachedMount::put_processor / attach_mount","src/attached_mount.rs")],["process() calls on custom processors","snapshots"])
p("C17","Snapshots equal a sequential fold of the observations over the component tree",
 "Once processing has caught up, the snapshot of any tree of mounts, processors, cockpits, nested panels, adapters and instruments equals the one a sequential reference model produces from the same observations in handling order: label filters at every level, update modifiers, gauge strategies, value conversions and display units, grouping under names, optional titles and descriptions. It does not matter through which of the equivalent constructors, builders and setters the components were made, and a component lists exactly the parts it was given. This is independent of how the observations were interleaved, batched or delayed.",
 ["programs","inputs","schedules","histories"],
 "All component trees, label filters and observation sequences from several threads, any batching.",
 "Tests check single instruments with a handful of values; none compares the whole pipeline with a model.",
 [PR,CO,PA,"src/instruments/instrument_adapter.rs","src/instruments/gauge/gauge_adapter.rs","src/instruments/label_filter.rs","src/observation.rs","src/instruments/counter.rs","src/instruments/histogram.rs"],
 [("handle_observation dispatch","src/processor.rs, src/cockpit.rs, src/instruments/panel.rs"),("put_snapshot","all")],["snapshots"])
p("C18","A mounted driver stays independent and its snapshot is embedded",
 "A driver mounted in another driver's hierarchy keeps polling its own processors on its own thread under its own strategy and pause state, and nothing but that thread ever polls them; pausing, overloading or changing the strategy of one does not affect the other. A snapshot of the outer driver contains the inner driver's snapshot at its place; the inner driver lives as long as the hierarchy holds it.",
 ["schedules","histories","programs"],
 "Trees of drivers up to depth three, all interleavings of control operations, load and snapshots on several levels at once.",
 "Nested drivers have no tests.",
 [D],[("PutsSnapshot for TelemetryDriver","src/driver.rs"),("ProcessesTelemetryMessages for TelemetryDriver","src/driver.rs")],["thread on which custom processors are polled","snapshots"])
p("C19","A failing user component never takes its callers down",
 "If user-supplied code (handler, snapshooter, predicate, modifier or processor) panics on the backend, no thread of the application panics or blocks because of it: transmit and control calls return, snapshot requests, outstanding or new, complete (with an error if the driver is lost), handles can be dropped, and other drivers, including an outer driver that mounts the failed one, keep working.",
 ["crash_points","fault_sequences","schedules"],
 "A panic at any observation, snapshot or predicate evaluation, with any number of blocked transmitters, outstanding requests and nested drivers.",
 "No test makes user code fail.",
 [D,LB,PR],[("channel disconnect on unwind","src/driver.rs"),("errors of send are only logged","src/lib.rs")],["results and termination of all application calls"])
p("C20","No component starves under sustained load",
 "While any processor of a driver is under sustained load, every other processor of the driver is polled between any few consecutive polls of the loaded one, each poll is bounded, and control messages and snapshot requests are served after a bounded number of polls. Once the observations of the loaded processor arrive no faster than they can be handled its backlog does not grow without bound.",
 ["schedules","fault_sequences","configurations"],
 "Producers that never let a queue run empty, many processors, control messages and snapshots arriving at any time.",
 "Needs sustained concurrent load; no test runs the driver under load.",
 [D,PR],[("do_a_run round over all processors with a bounded batch","src/driver.rs"),("max argument of process","src/processor.rs")],["process() calls observed by custom processors","snapshot replies"])
p("C21","Histogram statistics are those of the samples observed",
 "A histogram's count is the number of numeric or duration values observed since creation or its last reset, and min, max, mean and quantiles are statistics of values actually observed: never outside the observed range and ordered. As long as the number of samples does not exceed the reservoir and they were recorded close together, min, max, mean and quantiles are exact; idle time and clock jumps of any length neither lose the count nor produce values never observed.",
 ["inputs","histories","fault_sequences"],
 "All value sequences, lengths beyond the reservoir size, random sampling decisions, spacing from nanoseconds to days including rescaling of the decay.",
 "Sampling is random and time dependent; tests only check that nothing panics.",
 ["src/instruments/histogram.rs"],[("ExponentialDecayHistogram","src/instruments/histogram.rs")],["snapshots"])
p("C22","Snapshooters and polled instruments run exactly once per snapshot",
 "Each snapshooter or polled instrument, wherever it is mounted, is evaluated exactly once for each snapshot of an enclosing driver and never otherwise, on the driver's thread at the time the snapshot is taken, with the requested descriptive flag, and its output appears at its place in exactly that snapshot (unless an inactivity limit hides that place). It never receives or delays observations beyond its own running time.",
 ["schedules","histories","programs"],
 "Snapshooters at every level, any number of concurrent requesters, slow snapshooters, abandoned requests.",
 "Polling instruments have no tests; double evaluation or caching only shows across several requests.",
 ["src/instruments/polled.rs",D,PR,CO,PA],[("add_snapshooter / PollingInstrument","src/instruments/polled.rs")],["invocations of custom snapshooters","snapshots"])
p("C23","Time measurements and timestamps are those of the call",
 "An observation transmitted 'now' carries a timestamp taken between the start and the end of that call. A measured time is transmitted as one observation whose value is exactly its timestamp minus the given start; a start that lies in the future transmits nothing and fails nothing.",
 ["schedules","inputs","fault_sequences"],
 "Any start instant (past, now, future), preemption, stalls and clock jumps inside the call.",
 "The interesting cases need the clock to move, or the thread to stall, between the two clock readings.",
 [LB,"src/observation.rs"],[("measure_time / observed_*_now","src/lib.rs"),("Observation::*_now","src/observation.rs")],["observations seen by custom handlers"])
p("C24","Snapshot lookup and JSON rendering agree with the snapshot's structure",
 "Looking up a path finds the first item stored under it and rendering a snapshot as JSON preserves its structure and values.",
 ["inputs"],"All snapshots, paths and rendering configurations.",
 "Tests cover a few hand-written snapshots.",
 ["src/snapshot.rs"],[("find / to_json","src/snapshot.rs")],["return values"])
p("C25","Label filter constructors are equivalent",
 "All ways of constructing a label filter for the same set of labels accept exactly the same labels.",
 ["inputs"],"All label sets and construction paths.",
 "Tests cover up to six labels.",
 ["src/instruments/label_filter.rs"],[("LabelFilter::accept_another","src/instruments/label_filter.rs")],["accepts()"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
import subprocess
