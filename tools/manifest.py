#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below."""
import json, os
K = "TLA+ specification checked by TLC; TLC validates traces recorded from the real simulator against it"
TB = "Trusted: TLC, the test components' own logging, and the Python code that merges their logs. Bounded: randomly generated models and layouts of the listed sizes."
D = "TLA+ specification checked by TLC; TLC replays recorded calls on the real code against it"
TD = "Trusted: TLC and the driver component. Bounded: generated call sequences of the listed sizes."
CHECKS = {
 "P01": ("kern.py", K, "Kernel.tla model-checked on small instances (all interleavings of up to 3 components); every component's log of every generated run is replayed by TLC as a behaviour of Kernel.tla, which rejects a lost, duplicated, early, late, misdelivered or altered event. " + TB),
 "P02": ("kern.py", K, "Order of activities at one component is a function in Kernel.tla (time, clocks before events, port configuration order, FIFO per port); every recorded step must be the one the specification allows; repeated runs are compared byte for byte. " + TB),
 "P03": ("kern.py", K, "MCParSync.tla shows conservative synchronization delivers nothing late for all interleavings of two ranks with two threads; real runs over ranks, threads, partitioners, queue kinds are validated against Kernel.tla and must give the same history per component. " + TB),
 "P04": ("kern.py", K, "Clock ticks of every active handler at every multiple of its period are transitions Kernel.tla forces; a missed, additional or misnumbered tick is not a behaviour. " + TB),
 "P05": ("kern.py", K, "Registration order of ordered handlers is part of the state of Kernel.tla; TLC rejects a trace with another order or a skipped handler. " + TB),
 "P06": ("kern.py", K, "The vote count and the end rule are state of Kernel.tla (MCKernelEnd checks them exhaustively); traces carry every vote and the end time. " + TB),
 "P07": ("life.py", K, "Lifecycle.tla (stages, numbered phases, queues of untimed data); MCLifecycle models the barriers, the shared message count and the exchange of the queues for all interleavings of three threads and refines it; every call of generated runs (1-4 threads, 1-3 ranks, restarts, early stops) is replayed by TLC. " + TB),
 "P08": ("kern.py", K, "The history before the checkpoint followed by the history of the restarted run must be a behaviour of Kernel.tla and equal to the uninterrupted history, from several checkpoints per run. " + TB),
 "P09": ("kern.py", K, "As P08, with the restart on other numbers of ranks and threads. " + TB),
 "P10": ("kern.py", K, "CheckpointTrace.tla gives the exact checkpoint times and numbers; histories with and without checkpoints must be equal and behaviours of Kernel.tla. " + TB),
 "P20": ("data.py", D, "MCEventQueue.tla shows the binned queue with its lock refines the specified queue for all interleavings of owner and inserting thread; generated call sequences on all four real queues (with concurrent inserting threads for the thread-safe ones) are replayed by TLC against EventQueue.tla. " + TD),
 "P21": ("data.py", D, "MCBoundedQueue, MCUnboundedQueue and MCBarrier model every shared-memory access and are checked exhaustively; the real code of threadsafe.h runs as fibers under a scheduler that switches at every access to an atomic (all schedules of small programs up to a preemption bound, then random ones), the call histories are checked by TLC against ThreadPrim.tla (all configurations the history allows), and unordered accesses to the items are reported through vector clocks. " + TD),
 "P23": ("data.py", D, "Streams.tla: all objects of one configuration draw from one stream whose numbers do not depend on who draws; sequences of new/draw/copy through a checkpoint/restart/delete on real generators and distributions, on several threads and in several processes. " + TD),
 "P12": ("stats.py", D, "Stats.tla gives the written fields as a function of the data added (MCStats checks the incremental algorithms against the definitions); all calls on statistics in generated runs and all rows of the CSV and text outputs are replayed by TLC. " + TD),
 "P13": ("stats.py", K, "Stats.tla has the output clock, event counts, start and stop windows, groups and the end of the run as state (MCStatsWindow checks them exhaustively); every statistic of generated serial, threaded, multi-rank and restarted runs is replayed by TLC: a missing, additional, early or late row or wrong content is not a behaviour. " + TB),
 "P17": ("data.py", D, "Params.tla (ordered list of maps, own values first, scopes as prefixes); MCParams checks precedence exhaustively; call sequences on real Params objects, also through serialization and on several threads, are replayed by TLC. " + TD),
 "P18": ("data.py", D, "Units.tla computes with decimal digit sequences and unit exponents; every call of generated sequences on UnitAlgebra, TimeLord and TimeConverter is replayed by TLC. " + TD),
 "P19": ("data.py", D, "Heap.tla/Serialize.tla model object graphs and the pointer table of the serializer (MCSerialize: all small graphs); generated real object graphs are serialized and read back and TLC checks that the two heaps are isomorphic and the sizes equal. " + TD),
 "P26": ("data.py", D, "SortedMap.tla gives the content and the result of every call; MCSortedMap checks the sorted-vector algorithm against it exhaustively; call sequences on the real containers are replayed by TLC. " + TD),
 "P24": ("data.py", D, "Pool.tla (live blocks as disjoint intervals); MCPool models the per-thread lists and the shared overflow store exhaustively; call sequences on the real pool from 1, 2 and 4 threads, also with returns from other threads and with cache alignment, are replayed by TLC. " + TD),
 "P11": ("shared.py", K, "Shared.tla (content, share and publish counts per object and rank, merged at phase boundaries); MCShared models the exchange between ranks for all interleavings; every write, read and publish of generated runs on all layouts and after restarts is replayed by TLC. " + TB),
 "P14": ("ports.py", K, "PortMod.tla gives what every module of a stack must see and what is delivered, as a function of their decisions; MCPortMod checks it against the definition; all module calls, sends and deliveries of generated runs and restarts are replayed by TLC. " + TB),
 "P16": ("parts.py", K, "Partition.tla gives the placement each partitioner must produce or the conditions it must meet; MCPartition checks the algorithms for all small graphs; placements seen by the components of generated models on many layouts are checked by TLC, also that every link is still there. " + TB),
 "P22": ("tree.py", K, "Subcomp.tla says which link, statistic and slot content a node of the tree gets; MCSubcomp and MCSubcompStat check it against the granted rights for all orders of requests, flags and settings of small trees; every request of generated trees (scripts in user-defined and anonymous subcomponents and extensions, on several layouts and after restarts) is replayed by TLC. " + TB),
}
NA = {}
def main():
    checks = []
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    for ln in open(os.path.join(here, "properties.jsonl")):
        pid = json.loads(ln)["id"]
        if pid not in CHECKS and pid not in NA:
            NA[pid] = "the specification for it is not finished"
    for p, (f, t, n) in sorted(CHECKS.items()):
        checks.append(dict(property=p, quick_cmd="python3 checks/%s %s" % (f, p), thorough_cmd="VERIF_TIER=thorough python3 checks/%s %s" % (f, p),
                           evidence_file="evidence/%s.json" % p, technique=t, level="model_checking", level_note=n))
    m = dict(version=1, setup_cmd="bash setup.sh", checks=checks,
             not_applicable=[dict(property=p, reason=r) for p, r in sorted(NA.items())],
             notes="No hooks are needed in /repo: the checks observe the simulator through elements they load into it.")
    with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
main()
