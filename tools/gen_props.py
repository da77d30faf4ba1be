#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so anchors stay consistent)."""
import json, os
C = "src/sst/core/"
P = []
def prop(id, title, statement, over, qtext, why, files, state, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=[C + f for f in files],
            state=[dict(name=a, meaning=b, where=C + c) for a, b, c in state],
            mechanism=[dict(name=a, where=C + b) for a, b in mech],
            observe_at=observe, hook_needed=None)))

prop("P01", "Every event sent on a link is delivered exactly once, exactly on time",
 "Each event a component sends on a link during the run is delivered exactly once, to the component and port at the other end and carrying the payload that was sent, at exactly the send time plus the latency of the link in that direction plus any latency the endpoints added plus the delay given with the send. This holds for handler links, polled links, self links and empty events; nothing is lost, duplicated, early or late. A polled link hands out an event only once its delivery time has been reached, and always in delivery order.",
 ["histories", "inputs", "configurations"], "all component graphs, latencies, delays, time bases and sequences of sends up to the end of the simulation",
 "Tests send a few fixed events over a few fixed links and compare printed output; the claim ranges over every mix of latencies, delays and link kinds.",
 ["link.cc", "link.h", "event.h", "pollingLinkQueue.cc", "simulation.cc"],
 [("pending events", "events inserted and not yet delivered, keyed by delivery time", "timeVortex.h"), ("link latency", "per direction latency incl. added send/receive latency", "link.h")],
 [("send", "link.cc: Link::send_impl"), ("poll", "link.cc: Link::recv"), ("main loop", "simulation.cc: Simulation::run")],
 ["event handlers and Link::recv of every component"])

prop("P02", "A component sees its activities in one deterministic order",
 "Simulated time never goes backwards for a component. At one simulated time its clock handlers run before its events; events that arrive at the same time are handled in the order in which their receiving ports were configured, and events of the same port in the order they were sent; events on self links come after those of ordinary ports. Two runs of the same model therefore produce the same sequence of handler calls.",
 ["histories", "inputs"], "all sets of simultaneous events and clock ticks and all insertion orders",
 "Ties in time are rare in the tests and never enumerated; a wrong tie-break still passes reference outputs that have none.",
 ["activity.h", "timeVortex.h", "impl/timevortex/timeVortexPQ.h", "impl/timevortex/timeVortexBinnedMap.cc", "link.h", "baseComponent.cc"],
 [("activity key", "delivery time, priority and order tag, insertion order", "activity.h")],
 [("comparison", "activity.h: Activity::less/greater"), ("order tags", "baseComponent.cc: configureLink_impl")],
 ["sequence of handler invocations of each component"])

prop("P03", "Results do not depend on how the model is spread over ranks and threads",
 "For the same model, every component observes the same sequence of deliveries, times and payloads whatever the number of MPI ranks and threads, the partitioner, the event queue implementation and whether direct inter-thread links are used. No event ever reaches a partition after that partition has moved past the event's delivery time, also when endpoints add latency to their links or partitions have nothing to do for long stretches.",
 ["schedules", "configurations", "histories"], "all partitionings, thread interleavings and message sizes of a model",
 "Tests run a handful of models at one or two fixed rank and thread counts; the sync window, idle skipping and buffer growth depend on partitioning and load.",
 ["sync/syncManager.cc", "sync/rankSyncSerialSkip.cc", "sync/rankSyncParallelSkip.cc", "sync/threadSyncSimpleSkip.cc", "sync/threadSyncDirectSkip.cc", "sync/syncQueue.cc", "simulation.cc"],
 [("sync window", "next time at which partitions exchange events", "sync/syncManager.h"), ("exchange queues", "events waiting to cross a partition boundary", "sync/syncQueue.h")],
 [("window computation", "sync/syncManager.cc: computeNextInsert"), ("exchange", "sync/rankSyncParallelSkip.cc, sync/threadSyncSimpleSkip.cc")],
 ["per component histories of runs at different parallel layouts"])

prop("P04", "Clock handlers fire on every cycle while active and on no other time",
 "An active clock handler is called exactly once at every multiple of its period after it became active and at no other time, with the cycle number equal to time divided by period, and never at time zero. A handler that asks to stop or is taken off its clock is not called again until it is put back, and is then called again from the next multiple of the period on. The reported next cycle of a clock is the cycle number of its next tick.",
 ["histories", "inputs"], "all periods and all sequences of registering, stopping and restarting handlers",
 "Tests use a few clocks that are started and stopped a couple of times, never all interleavings of several handlers sharing a clock.",
 ["clock.cc", "clock.h", "simulation.cc", "baseComponent.cc"],
 [("handler lists", "active handlers of each clock", "clock.h"), ("next tick", "time of the scheduled tick", "clock.h")],
 [("tick", "clock.cc: Clock::execute"), ("schedule", "clock.cc: Clock::schedule"), ("re-register", "simulation.cc: reregisterClock")],
 ["clock handlers and getNextClockCycle"])

prop("P05", "Ordered clock handlers fire in registration order, each once per cycle",
 "Ordered clock handlers of one component and frequency are always called in the order they were registered, each active one exactly once per cycle, whichever of them were deactivated and activated again in between and in whatever order. Deactivating one handler never makes another miss a cycle, and activating one never makes another run twice in a cycle.",
 ["histories"], "all sequences of activation, deactivation and self removal over any number of ordered handlers",
 "The number of activation sequences explodes; tests exercise a few hand picked ones.",
 ["clock.cc", "clock.h", "component.cc"],
 [("group partition", "active handlers in order followed by inactive ones", "clock.h")],
 [("group tick", "clock.cc: Clock::Group::execute"), ("activation", "clock.cc: Clock::Group::activateHandler, deactivateHandler")],
 ["sequence of ordered handler calls"])

prop("P06", "The simulation ends exactly when all primary components allow it",
 "Without a stop time, the simulation continues while any primary component has asked it not to end and ends once the last of them agrees; the reported end time is the time of that last agreement in every parallel layout, and everything due up to that time has been processed. With a stop time the simulation runs no activity at or after that time, processes everything before it, and reports that time as the end time. Repeated or unregistered end-of-simulation calls change nothing.",
 ["histories", "configurations", "schedules"], "all sequences of end-of-simulation votes over all layouts, with and without stop time",
 "Tests have one or two primary components whose votes come at fixed times.",
 ["exit.cc", "exit.h", "stopAction.h", "simulation.cc", "baseComponent.cc"],
 [("vote count", "primary components that have not agreed to end, per thread", "exit.h"), ("end time", "time of the last agreement", "exit.h")],
 [("votes", "exit.cc: Exit::refInc, refDec"), ("decision", "exit.cc: Exit::check"), ("stop", "simulation.cc: setupSimActions")],
 ["end time seen in finish(), last handler calls, reported simulated time"])

prop("P07", "Startup and shutdown phases run in lockstep and deliver untimed data next phase",
 "Every component goes through construction, initialization phases, setup, run, completion phases and finish in that order. Initialization and completion each proceed in numbered phases in which every component takes part; data sent in a phase can be received from the next phase on (and not before), in sending order and unchanged, whatever was sent before or during the run, and phases continue exactly until one in which no component sent anything. The number of phases and the data received do not depend on the parallel layout.",
 ["histories", "configurations"], "all untimed traffic patterns in all parallel layouts",
 "Tests exchange one fixed pattern of initialization messages.",
 ["simulation.cc", "link.cc", "initQueue.cc", "sync/rankSyncSerialSkip.cc", "sync/rankSyncParallelSkip.cc", "sync/threadSyncSimpleSkip.cc"],
 [("untimed message count", "messages sent in the current phase", "simulation.h"), ("untimed queues", "messages waiting for the next phase", "initQueue.h")],
 [("init loop", "simulation.cc: Simulation::initialize"), ("complete loop", "simulation.cc: Simulation::complete"), ("send/recv", "link.cc: sendUntimedData_sync, recvUntimedData")],
 ["init, setup, complete and finish callbacks, received untimed data"])

prop("P08", "Restarting from a checkpoint continues the run as if never interrupted",
 "A simulation restarted from a checkpoint with the same layout behaves from the checkpoint time on exactly like the uninterrupted run: the same deliveries at the same times with the same payloads and order, the same clock ticks, polled events, votes, random numbers, statistics and shared data, and the same end. No in-flight event is lost, duplicated or shifted, wherever it was queued when the checkpoint was taken.",
 ["crash_points", "histories", "configurations"], "all checkpoint times and all simulation states at them",
 "A test takes one checkpoint of one model and compares final output; state classes such as polled queues or deactivated clocks at the checkpoint are not enumerated.",
 ["simulation.cc", "checkpointAction.cc", "link.cc", "componentInfo.cc", "baseComponent.cc", "clock.cc", "sync/syncQueue.cc", "statapi/statbase.cc"],
 [("checkpoint image", "registry, global and per partition state files", "checkpointAction.cc")],
 [("save", "simulation.cc: Simulation::checkpoint"), ("restore", "simulation.cc: Simulation::restart"), ("links", "link.cc: serialize_impl<Link*>")],
 ["component histories before the checkpoint and after the restart"])

prop("P09", "A checkpoint can be restarted on a different number of ranks and threads",
 "A checkpoint written by a run with one parallel layout and restarted with another supported layout (serial, or other numbers of ranks and threads) continues every component's history exactly as the uninterrupted run would have, including links that were inside one partition and now cross partitions and the reverse.",
 ["configurations", "crash_points", "histories"], "all pairs of layouts, partitionings and checkpoint times",
 "Tests restart fixed models on a few fixed layouts.",
 ["simulation.cc", "link.cc", "main.cc", "model/restart/sstcptmodel.cc", "checkpointAction.cc", "sync/syncManager.cc"],
 [("link tracking", "which end of each link has been restored", "simulation.h")],
 [("layout change", "simulation.cc: restart paths"), ("link restore", "link.cc: serialize_impl<Link*>")],
 ["component histories after restarts in other layouts"])

prop("P10", "Checkpoints are taken at every period multiple and never disturb the run",
 "With a simulated-time checkpoint period, exactly one checkpoint is taken at each multiple of the period that is reached before the end of the simulation, in every parallel layout, each reflecting the state before any clock or event of that time. A run that takes checkpoints produces the same component histories and end as one that takes none, and every checkpoint taken can be restarted.",
 ["configurations", "histories", "schedules"], "all periods, layouts and models",
 "Tests look for one named checkpoint in a few layouts.",
 ["checkpointAction.cc", "sync/syncManager.cc", "simulation.cc"],
 [("next checkpoint time", "simulated time of the next checkpoint", "checkpointAction.h")],
 [("schedule", "checkpointAction.cc: setup, check, createCheckpoint"), ("parallel trigger", "sync/syncManager.cc: SyncManager::execute")],
 ["set of checkpoints written, histories with and without checkpoints"])

prop("P11", "Shared objects converge to one identical content on every partition",
 "Data written to a named shared array, map, set during initialization by any component on any partition is visible to every sharer, with identical content everywhere, from the next initialization phase on and for the rest of the simulation, also after a restart. An object reports being fully published exactly when all instances that share it have published it as of the last phase boundary, and always from setup on; conflicting writes of verified objects and writes after publishing are refused.",
 ["histories", "configurations"], "all sets of writers, write times, sizes and verification modes on all layouts",
 "One test writes disjoint values from a few components in one layout.",
 ["shared/sharedObject.cc", "shared/sharedObject.h", "shared/sharedArray.h", "shared/sharedMap.h", "shared/sharedSet.h"],
 [("shared data", "content, share count and publish count per name", "shared/sharedObject.h"), ("change set", "writes not yet sent to other ranks", "shared/sharedArray.h")],
 [("merge", "shared/sharedObject.cc: updateState")],
 ["contents and published flag read by every component in every phase"])

prop("P12", "Statistics report exactly the values that were added",
 "The values reported for a statistic are the exact function of the data added to it while it was enabled: for accumulators the sum, sum of squares, count, minimum and maximum; for histograms the count in each bin, the out of range counts, the number binned and the sums; for unique counts the number of distinct values. Adding one value n times in one call equals adding it n times, and clearing on output restarts from empty.",
 ["inputs", "histories"], "all value types, bin layouts and sequences of additions",
 "Tests add a few values with one bin layout and compare reference text.",
 ["statapi/stataccumulator.h", "statapi/stathistogram.h", "statapi/statuniquecount.h", "statapi/statbase.h", "statapi/statbase.cc", "statapi/statoutputcsv.cc"],
 [("accumulated fields", "running sums, bins and counts", "statapi/stathistogram.h")],
 [("add", "statapi/statbase.h: Statistic::addData, addDataNTimes"), ("report", "statapi/stathistogram.h: outputStatisticFields")],
 ["statistic output files"])

prop("P13", "Statistics are collected and written exactly in their configured windows",
 "A periodic statistic is written at every multiple of its period reached during the run, after all events of that time, and an event-driven one each time its configured number of additions has accumulated; each statistic is written once more at the end, with the reported end time, unless told otherwise. Data added up to and including the start time is ignored and so is data added after the stop time: a window opens and closes once all events of that time are done. A reset-on-output statistic covers exactly the data since its previous output.",
 ["histories", "configurations"], "all periods, limits, start and stop times and addition patterns",
 "Tests use one rate and one window per statistic, without additions at the boundaries.",
 ["statapi/statengine.cc", "statapi/statbase.cc", "statapi/statgroup.cc", "impl/oneshotManager.cc", "clock.cc"],
 [("collection window", "enabled flag, start and stop times", "statapi/statengine.h"), ("output count", "additions since the last output", "statapi/statbase.h")],
 [("output clock", "statapi/statengine.cc: handleStatisticEngineClockEvent"), ("windows", "statapi/statengine.cc: setStatisticStartTime, setStatisticStopTime")],
 ["rows of the statistic output files"])

prop("P14", "Port modules see every event once and alone decide its fate",
 "A port module installed for sending sees every event sent on its port, one installed for receiving sees every event about to be delivered there, each exactly once, in order, and modules on the same port are applied in configuration order. An event a module cancels is not delivered and not seen by later modules, one it modifies or replaces is delivered in its modified form at the unchanged time, and all others pass unaffected.",
 ["histories", "configurations"], "all stacks of modules on both ends of a link and all decisions they take",
 "Tests run a few modules with one fixed decision pattern.",
 ["portModule.h", "portModule.cc", "ssthandler.h", "link.cc", "baseComponent.cc", "event.h"],
 [("attached tools", "modules attached to a link or handler in order", "link.h")],
 [("send side", "link.cc: Link::send_impl"), ("receive side", "ssthandler.h: intercept points"), ("install", "baseComponent.cc: configureLink_impl")],
 ["events seen by modules and by handlers"])

prop("P15", "A written configuration rebuilds the same model",
 "Writing the configuration of a model and loading the written file again yields the same model: the same components, types, parameters including shared ones, subcomponents and slots, links with both latencies, placement, weights, statistics, statistic groups and outputs, port modules and program options. This holds for every output format that can be loaded and for configurations written or loaded in parallel.",
 ["inputs", "configurations"], "all configuration graphs expressible in the input language",
 "Tests convert a few existing inputs; feature combinations and unusual names or values are not covered.",
 ["model/configGraph.cc", "model/configComponent.cc", "model/configLink.cc", "model/cfgoutput/jsonConfigOutput.cc", "model/cfgoutput/pythonConfigOutput.cc", "model/json/jsonmodel.cc", "model/python/pymodel.cc"],
 [("configuration graph", "components, links and statistics of the model", "model/configGraph.h")],
 [("write", "model/cfgoutput/jsonConfigOutput.cc, pythonConfigOutput.cc"), ("read", "model/json/jsonmodel.cc, model/python/pymodel.cc")],
 ["written configuration files, model instantiated from them"])

prop("P16", "Partitioners place every component in exactly one valid partition",
 "Every partitioner assigns each component exactly one rank and thread within the requested numbers; components joined by links marked as not to be cut always land in the same rank, and no link is lost by the placement. The linear partitioner gives contiguous balanced blocks, round robin deals components out cyclically, the single partitioner uses one partition and user-given placement is kept unchanged.",
 ["inputs", "configurations"], "all graphs, weights, no-cut groups and rank and thread counts",
 "Tests partition one model for one or two layouts.",
 ["impl/partitioners/linpart.cc", "impl/partitioners/rrobin.cc", "impl/partitioners/simplepart.cc", "impl/partitioners/singlepart.cc", "impl/partitioners/selfpart.cc", "model/configGraph.cc", "main.cc"],
 [("placement", "rank and thread of each component", "model/configComponent.h")],
 [("partitioners", "impl/partitioners/*.cc: performPartition"), ("no-cut groups", "model/configGraph.cc: getCollapsedPartitionGraph, annotateRanks")],
 ["placement seen by the components"])

prop("P17", "Parameter lookup follows scope and precedence exactly",
 "Looking up a parameter returns the value set for that key, a component's own value taking precedence over values from shared parameter sets and the caller's default being used only if no set has the key. Scoped lookup sees exactly the keys under the given prefix with the prefix removed, texts that denote a value of the requested type parse to exactly that value and numbers too large for it are refused, and inserting, merging and copying parameter sets never change other sets.",
 ["inputs", "histories"], "all parameter sets, scopes, types and operation sequences",
 "Tests look up a few fixed keys.",
 ["params.h", "params.cc"],
 [("parameter sets", "own map followed by shared maps", "params.h")],
 [("find", "params.h: find_impl"), ("scope", "params.cc: get_scoped_params"), ("insert", "params.cc: insert")],
 ["results of parameter queries"])

prop("P18", "Times and quantities with units convert exactly",
 "Addition, subtraction, comparison and conversion of quantities with units are exact on decimal values (products are kept to 24 digits after the point, quotients up to the reciprocal's last digit) and track units, and a time or frequency given as text always maps to the same exact number of core time steps: text, quantity and frequency forms of the same duration agree. Converting between a component's cycles and core time is exact in one direction and truncates in the other, and times shorter than one core time step or too long for the core time are rejected; others are rounded to the nearest step.",
 ["inputs"], "all representable values, SI prefixes, units and time bases",
 "Tests check a list of examples.",
 ["unitAlgebra.cc", "unitAlgebra.h", "decimal_fixedpoint.h", "timeLord.cc", "timeConverter.h"],
 [("quantity", "decimal value and unit exponents", "unitAlgebra.h"), ("factor", "core steps per cycle", "timeConverter.h")],
 [("conversion", "timeLord.cc: getFactorForTime"), ("arithmetic", "decimal_fixedpoint.h")],
 ["results of conversions and arithmetic"])

prop("P19", "Serializing and deserializing an object graph reproduces it",
 "Serializing any graph of supported values, containers, shared and raw tracked pointers and polymorphic objects and reading it back yields an equal graph: equal values, the same dynamic types, null pointers stay null, and pointers that referred to one object again refer to one single new object. The size computed beforehand equals the number of bytes written and read.",
 ["inputs"], "all object graphs over the supported types, including aliasing and cycles",
 "Tests round trip one instance per type; sharing patterns across containers are not enumerated.",
 ["serialization/serializer.cc", "serialization/serialize.h", "serialization/impl/serialize_shared_ptr.h", "serialization/impl/ser_shared_ptr_tracker.cc", "serialization/impl/serialize_insertable.h", "serialization/serializable.cc"],
 [("pointer tracking", "objects already written or read", "serialization/impl/packer.h")],
 [("driver", "serialization/serializer.cc"), ("pointers", "serialization/serialize.h"), ("shared pointers", "serialization/impl/serialize_shared_ptr.h")],
 ["object graph after the round trip"])

prop("P20", "The event queue is a stable priority queue",
 "Every event queue implementation returns its contents in order of time, then priority, then order tag, then insertion, whatever the interleaving of insertions and removals; the front is always the next item removed, the size is the number of items held, every inserted item is removed exactly once, and copying the contents out for a checkpoint yields all items held and only those.",
 ["histories"], "all interleavings of insertion and removal with equal and different keys",
 "Whole-simulation tests use few simultaneous items and only the default queue.",
 ["timeVortex.h", "timeVortex.cc", "impl/timevortex/timeVortexPQ.cc", "impl/timevortex/timeVortexPQ.h", "impl/timevortex/timeVortexBinnedMap.cc", "impl/timevortex/timeVortexBinnedMap.h", "activity.h"],
 [("queue content", "activities held with their insertion number", "impl/timevortex/timeVortexPQ.h")],
 [("insert/pop", "impl/timevortex/timeVortexPQ.cc, timeVortexBinnedMap.cc")],
 ["pop, front, size, contents"])

prop("P21", "Inter-thread queues and barriers are safe under every interleaving",
 "Concurrent queues used between simulation threads hand out each inserted item exactly once, in insertion order per producer, and never lose or invent an item; a bounded queue never holds more than its capacity. A barrier never releases a thread before all participants have arrived and always releases all of them, for any number of consecutive uses.",
 ["schedules"], "all interleavings of the participating threads",
 "A test sees only the few interleavings the hardware happens to produce.",
 ["threadsafe.h"],
 [("queue slots", "slot sequence numbers and head and tail counters", "threadsafe.h"), ("barrier state", "arrival count and generation", "threadsafe.h")],
 [("queues", "threadsafe.h: BoundedQueue, UnboundedQueue"), ("barrier", "threadsafe.h: Barrier"), ("maximum", "threadsafe.h: atomic_fetch_max")],
 ["results of concurrent operations"])

prop("P22", "Subcomponents share exactly what they were granted",
 "A subcomponent loaded into a slot gets the port links, statistics and parameters configured for it, or those of its parent only if the parent shared them and only while nobody else has taken them, and every link ends up configured at exactly one place, together with its port modules. The right subcomponent is loaded for a slot and number and only with an interface it implements; names, types, slot numbers and populated slots are reported as configured, an extension acts as the part it extends, and all of this also holds after a restart.",
 ["configurations"], "all nesting structures, slot layouts and sharing flags",
 "Tests nest one or two levels with fixed sharing flags.",
 ["baseComponent.cc", "baseComponent.h", "subcomponent.cc", "componentInfo.cc", "componentInfo.h", "linkMap.h"],
 [("component tree", "component information nodes with links and slots", "componentInfo.h")],
 [("port sharing", "baseComponent.cc: getLinkFromParentSharedPort, configureLink_impl"), ("slots", "baseComponent.h: SubComponentSlotInfo, loadUserSubComponent")],
 ["links, statistics, names and slots that each part of the component tree gets"])

prop("P23", "Random number streams are reproducible and survive a checkpoint",
 "A random number generator or distribution created with the same seed always yields the same stream, independent of other generators and of the parallel layout; restarting it with a seed restarts the stream; and a generator restored from a checkpoint continues the stream exactly where it was.",
 ["histories", "crash_points"], "all seeds, draw sequences and interleavings of generators and checkpoints",
 "Tests compare a fixed prefix of a few streams.",
 ["rng/mersenne.cc", "rng/marsaglia.cc", "rng/xorshift.cc", "rng/gaussian.h", "rng/poisson.h", "rng/expon.h", "rng/discrete.h", "rng/uniform.h"],
 [("generator state", "internal words and position", "rng/mersenne.h")],
 [("draw", "rng/*.cc: generateNext*"), ("save", "rng/*.h: serialize_order")],
 ["sequences of drawn numbers"])

prop("P24", "The memory pool never hands out live memory and accounts for every block",
 "A block handed out by the event memory pool is disjoint from every other live block, keeps its content until it is returned, is aligned as requested, and may be returned from any thread. The reported numbers of outstanding blocks always equal blocks handed out minus blocks returned, so that undeleted events are reported exactly.",
 ["histories", "schedules"], "all allocation and release sequences over sizes and threads",
 "Tests count undeleted items of one model.",
 ["mempool.cc", "mempool.h", "mempoolAccessor.h"],
 [("free lists", "returned blocks per size and thread", "mempool.cc")],
 [("allocate/free", "mempool.cc: MemPool::malloc, free, MemPoolItem operators")],
 ["addresses and counters returned by the pool"])

prop("P25", "Pausing in the debug console never changes the simulation",
 "A simulation that is paused, inspected and resumed from the interactive console, any number of times and at any simulated times, behaves afterwards exactly as an undisturbed run. A command to run for a given amount of simulated time pauses at exactly the current time plus that amount, before anything at a later time has happened, and a watchpoint triggers exactly when its condition becomes true.",
 ["histories", "inputs"], "all sequences of console commands that only inspect",
 "Tests replay a few command files and compare printed text.",
 ["impl/interactive/debugConsole.cc", "interactiveAction.h", "watchPoint.cc", "simulation.cc", "sync/syncManager.cc"],
 [("pause request", "time at which the console takes over", "interactiveAction.h")],
 [("run command", "impl/interactive/debugConsole.cc"), ("watch", "watchPoint.cc")],
 ["component histories with and without console sessions, console output"])

prop("P26", "The sorted configuration containers behave as ordered maps",
 "The sorted-vector containers that hold components and links of the configuration behave as ordered maps and sets under every sequence of insertions, look-ups, erasures, clears and re-sorts: iteration is in key order without duplicates, look-up finds exactly the keys present, inserting a present key merges it as documented, and a serialized copy equals the original.",
 ["histories"], "all operation sequences over small key sets, in any insertion order",
 "Used by tests only with keys inserted in increasing order.",
 ["sparseVectorMap.h"],
 [("sorted vector", "items kept in key order", "sparseVectorMap.h")],
 [("insert/find/erase", "sparseVectorMap.h")],
 ["container content after each operation"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
for p in P:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
print(len(P))
