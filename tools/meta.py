#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run it after editing)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), na=None):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                                mechanism=[dict(name=a, where=b) for a, b in mechanism],
                                observe_at=list(observe), hook_needed=None)), na))


prop("C01", "Clock waits are exact",
     "A task that waits n clock cycles through a DUT, one of its pins, or a bundle bound to it (of any topology: signals, "
     "signal lists, sub-bundles, bundle lists, bound by prefix, regex or dictionary) resumes in exactly the n-th following DUT "
     "cycle, n=0 returning at once. Every waiter of a cycle is woken exactly once in it, no matter how many wait, when they "
     "started, or which of them are cancelled.",
     ["schedules", "programs", "configurations"],
     "all bundle topologies, sets of concurrent waiters, spawn and cancellation times, interleavings and virtual-clock behaviour",
     "The tests step one or two fixed bundles in straight-line code; none has concurrent waiters, nested lists or cancellations.",
     ["toffee/asynchronous.py", "toffee/bundle.py", "toffee/triggers.py"],
     [("clock loop sets and clears the DUT event after every Step", "toffee/asynchronous.py:__clock_loop"),
      ("the bundle adopts the clock event of a connected signal", "toffee/bundle.py:__update_signal_info"),
      ("one event wait per cycle", "toffee/bundle.py:step, toffee/triggers.py:ClockCycles")],
     observe=["DUT cycle number when the waiting task resumes"])
prop("C02", "The DUT never steps while work of the current cycle can still run",
     "The DUT is stepped only when every task is blocked: whatever a task or model hook causes in a cycle (events set or pulsed, "
     "queue items, finished or cancelled tasks, new tasks, expired timeouts, through the framework's primitives or by awaiting "
     "tasks) takes effect on the tasks waiting for it in that same cycle. Chains of such effects of any length are run to the "
     "end before the next step, and then the step does happen.",
     ["schedules", "programs"],
     "all task programs and interleavings, including wake-ups caused by hooks, cancellations and timers that fire mid-cycle",
     "The property speaks about every interleaving of runnable work with the clock; the tests have a few fixed chains and no "
     "cancellation, timeout or hook-caused wake-up.",
     ["toffee/asynchronous.py", "toffee/executor.py", "toffee/delay.py"],
     [("repeat rounds until all tasks wait, then run end-of-cycle callbacks, repeat if they woke anything", "toffee/asynchronous.py:execute_all_coros"),
      ("task state scan", "toffee/asynchronous.py:__has_unwait_task"),
      ("primitives flag that a task has run", "toffee/asynchronous.py:Event, Queue, sleep")],
     [("ready tasks", "tasks the event loop could execute now", "asyncio event loop at the DUT step")],
     observe=["event loop's runnable tasks at every DUT step", "cycle of cause and of effect"])
prop("C03", "Run life cycle and termination",
     "A run raises the test's own exception, or returns its result after the work the test triggered in its last cycle has been "
     "completed; then every task still outstanding is cancelled (its cleanup runs) and the run returns after a small bounded number "
     "(at most two) of further DUT steps, never stepping the DUT afterwards. A component's main flow is started exactly once, in the cycle after its "
     "creation. This holds for coroutine and function tests, with or without an environment factory, with or without a clock, and "
     "through each entry point.",
     ["schedules", "programs", "configurations"],
     "all tests, background populations (waiting, sleeping, spawning, joining), factories and entry points",
     "Tests run to a normal end and look at values; none observes cancellation, last-cycle work, or the number of closing steps.",
     ["toffee/asynchronous.py"],
     [("end-of-test flag, settle, cancel, final clock event", "toffee/asynchronous.py:main_coro, execute_all_coros, cancel_all_tasks"),
      ("component start wrapper", "toffee/asynchronous.py:Component")],
     observe=["result or exception of the run", "cancellations seen by tasks", "DUT step count after the test's end"])
prop("C04", "No failure is silently lost",
     "If a test, a background task nobody awaits or keeps, a model's main flow or hook, a driver body, a monitor body, a result comparison, or "
     "the DUT's own step raises, the run does not report success: it terminates with an exception within two DUT cycles of the failure. This "
     "holds for failures at any cycle, including the last one, several at once, and under any garbage-collection timing. (A call scheduled in an executor group "
     "reports its failure to whoever leaves the block or waits for the group, as the exit conditions say, and need not end the run before that.)",
     ["fault_sequences", "crash_points", "schedules"],
     "every failure site, every failing cycle, combinations of failures, every garbage-collection schedule",
     "Whether an un-awaited task's exception surfaces depends on who still references it and on collection timing; tests inject no failures.",
     ["toffee/asynchronous.py", "toffee/_base_agent.py", "toffee/_compare.py", "toffee/executor.py"],
     [("loop exception handler stops the run", "toffee/asynchronous.py:handle_exception"),
      ("comparison asserts", "toffee/_compare.py:compare_once"),
      ("background comparison task", "toffee/_base_agent.py:process_driver_call")],
     observe=["outcome of the run", "DUT cycle at which it ended"])
prop("C05", "Runs in one process are independent",
     "What a run observes (results, cycle of every effect, hook order, port contents, failures) does not depend on the runs that "
     "preceded it in the same process, however those ended: normally, by a test or hook failure, a mismatch, a DUT error, or with hooks "
     "or delayed signals still pending. Reusing the same test-bench classes in later runs is included.",
     ["histories", "fault_sequences"],
     "all sequences of earlier runs with all endings, then any probe run",
     "pytest runs many tests per process, but the tests never fail on purpose and never compare a run against a fresh process.",
     ["toffee/executor.py", "toffee/asynchronous.py", "toffee/delay.py", "toffee/model.py"],
     [("per-loop delayer list and flags", "toffee/delay.py, toffee/asynchronous.py:main_coro"),
      ("pending hook calls", "toffee/executor.py:add_priority_task")],
     [("pending hook calls", "hook calls queued for the end of the cycle", "toffee/executor.py")],
     observe=["trace of the probe run, compared with the same run in a fresh process"])
prop("C06", "Queues and ports deliver in order, exactly once, with bounded drop-newest",
     "Items put into a framework queue, a model port or an enabled monitor queue are received in put order, each exactly once, by "
     "however many concurrent consumers. A bounded port or monitor queue that is full drops exactly the newly offered item, keeps the older ones, "
     "never blocks the producer, and logs an error for each drop. Cancelling or timing out a waiting consumer loses, duplicates and reorders nothing.",
     ["schedules", "fault_sequences", "configurations"],
     "all interleavings of producers and consumers, capacities, cancellations and timeouts of consumers",
     "Tests use one consumer and never cancel one; overflow is checked once at best.",
     ["toffee/asynchronous.py", "toffee/model.py", "toffee/_base_agent.py"],
     [("queue wrapper", "toffee/asynchronous.py:Queue"), ("bounded port put", "toffee/model.py:Port.put"),
      ("monitor queue overflow", "toffee/_base_agent.py:__monitor_forever")],
     observe=["received items per consumer", "error log records"])
prop("C07", "Signal triggers fire at exactly the first matching cycle",
     "Waiting for a value, for all signals valid, for a condition, for a change, or for a rising or falling edge returns in the first DUT cycle "
     "(at or after the stated minimum delay) in which the recorded waveform satisfies it, and not before; a rising edge is zero in "
     "the previous cycle and non-zero now, a falling edge the reverse. Concurrent and cancelled trigger waits do not affect each other.",
     ["schedules", "inputs", "histories"],
     "all waveforms, start cycles, delays, multi-bit values, concurrent waiters and cancellations",
     "Tests check triggers on one fixed counter waveform.",
     ["toffee/triggers.py"],
     [("trigger loops", "toffee/triggers.py:Value, AllValid, Condition, Change, RisingEdge, FallingEdge")],
     observe=["cycle in which the trigger returns against the recorded waveform"])
prop("C08", "Delayed signals are sampled once per cycle",
     "A delayed signal takes exactly one sample of its source per DUT cycle, after all work of that cycle (including model hooks) has settled, and its value is "
     "the sample taken (delay+1) samples ago, undefined until that many exist. This is independent of how much hook, driver or task activity a cycle contains and of "
     "how many delayed signals exist.",
     ["schedules", "programs"],
     "all source waveforms (driven by the DUT or mid-cycle by tasks), delays, creation times and amounts of activity per cycle",
     "Tests have no hooks or drivers active while a delayed signal is observed.",
     ["toffee/delay.py", "toffee/asynchronous.py"],
     [("sampling at the end of the cycle", "toffee/delay.py:__process_delayer, toffee/asynchronous.py:execute_all_coros")],
     observe=["value read in every cycle against the settled waveform"])
prop("C09", "Monitors sample every cycle and deliver every result once",
     "Every monitor is called once in each DUT cycle after its creation (or, if its body itself waits, once per body plus one cycle), the last cycle of the run included, and each non-None result is "
     "delivered exactly once and in cycle order to every attached agent port, monitor port, agent hook and monitor hook that matches "
     "it, in the cycle in which it was produced, and to the monitor's own queue when that is enabled. None results are delivered nowhere.",
     ["schedules", "configurations"],
     "all monitor bodies, models, attach times, consumers and activity in the same cycles",
     "Tests check a few cycles of one monitor with one model and no competing activity.",
     ["toffee/_base_agent.py", "toffee/agent.py", "toffee/env.py"],
     [("monitor loop", "toffee/_base_agent.py:__monitor_forever"), ("delivery", "toffee/_base_agent.py:process_monitor_call")],
     observe=["per-cycle calls", "items at ports, hooks, queue"])
prop("C10", "Driver calls reach the reference model exactly once with exact arguments",
     "Each driver call is delivered exactly once to every matching hook or port of every attached model (attached when the call is made), with the exact values of this call "
     "(positional, keyword and default arguments; a driver for which a model has a port is delivered to that model's ports; agent-level targets get the full path and the argument dictionary, driver ports the dictionary, or the bare value for "
     "a single parameter), in the cycle of the call for ports and model-first hooks, and in the cycle in which the driver finishes for DUT-first hooks. "
     "Concurrent calls of the same or different drivers never mix arguments, and the caller gets the driver body's own return value.",
     ["schedules", "inputs", "configurations"],
     "all signatures and call styles, models, matching styles, and concurrent or overlapping calls",
     "Tests call drivers one at a time with two or three fixed signatures.",
     ["toffee/_base_agent.py", "toffee/agent.py", "toffee/model.py", "toffee/env.py"],
     [("argument binding", "toffee/_base_agent.py:__get_args_dict"), ("driver call processing", "toffee/_base_agent.py:process_driver_call"),
      ("matching", "toffee/env.py:__inject_driver_method")],
     observe=["arguments and cycle seen by each hook and port", "driver return values"])
prop("C11", "Hooks of one cycle run in priority order, on the right side of the DUT",
     "Hook calls that become due at the same point of a cycle run in ascending priority order, equal priorities in the order they were issued; a model-first hook "
     "completes before its driver body starts and a DUT-first hook starts only after it returned. A priority or order given for one scheduled "
     "call applies to that call only, whatever other calls of the same driver are scheduled, running or finished.",
     ["schedules", "configurations"],
     "all priorities, orders, per-call overrides, and overlapping calls through the executor or directly",
     "Tests check one executor block with fixed priorities; leakage between overlapping calls needs specific interleavings.",
     ["toffee/executor.py", "toffee/_base_agent.py", "toffee/model.py"],
     [("priority-sorted hook execution", "toffee/executor.py:__execute_priority_tasks"),
      ("per-call overrides", "toffee/executor.py:__sequential_execution_all, toffee/_base_agent.py:process_driver_call")],
     observe=["global order of hook and driver-body events"])
prop("C12", "Comparison verdicts are exact",
     "A run with reference-model results fails if and only if, for some driver call, a matched hook of an attached model returned a non-None "
     "result that differs from that call's DUT result. Results are never compared across calls, however calls overlap, finish out of order or fall in the last cycle, and "
     "each comparison made is logged as a match or a mismatch.",
     ["schedules", "inputs"],
     "all result values, hook orders, numbers of models, and overlapping calls with different latencies",
     "Tests compare non-overlapping calls; a cross-talk or a dropped comparison only shows under overlap or at the end of the run.",
     ["toffee/_base_agent.py", "toffee/_compare.py"],
     [("collect results per call and compare", "toffee/_base_agent.py:process_driver_call"), ("compare", "toffee/_compare.py:compare_once")],
     observe=["verdict of the run", "match and mismatch log records"])
prop("C13", "Attaching and detaching models takes effect exactly",
     "After any sequence of attach and detach operations, a model receives driver and monitor traffic of an environment if and only if it is "
     "currently attached there; a model is attached to at most one environment, re-attaching moves it, and others are not disturbed. Attaching a model is accepted exactly when each of its ports and hooks "
     "names an existing agent, driver or monitor of the environment (agents by name, list or method paths), and a detached model is as good as new for a later attach.",
     ["histories", "configurations", "schedules"],
     "all attach/detach histories over several models, classes and environments, interleaved with traffic",
     "Tests attach once and never detach.",
     ["toffee/env.py", "toffee/model.py", "toffee/_base_agent.py"],
     [("injection and removal", "toffee/env.py:attach, unattach"), ("match bookkeeping", "toffee/model.py:ensure_all_matched, clear_matched")],
     observe=["traffic seen by each model in each cycle", "acceptance or rejection of attach"])
prop("C14", "Executor groups and results",
     "Calls scheduled in one executor group run strictly one after another in scheduling order, different groups run concurrently from the same cycle, and "
     "on leaving the block (or after waiting for all) the results map every group to its call's result, or to the list of results in scheduling order when it has several. "
     "Calls without an explicit group are grouped per driver of an agent, or by coroutine name.",
     ["schedules", "programs"],
     "all groupings, latencies, nestings and numbers of calls",
     "Tests run two groups with fixed latencies.",
     ["toffee/executor.py"],
     [("grouping", "toffee/executor.py:__call__"), ("sequential execution", "toffee/executor.py:__sequential_execution_all"),
      ("results", "toffee/executor.py:__set_results")],
     observe=["start and end cycle of each call", "results dictionary"])
prop("C15", "Executor exit conditions",
     "Leaving an executor block waits until all groups (\"all\"), the first group to finish (\"any\"), or nothing (\"none\") have completed, resuming in "
     "exactly that cycle; the remaining groups keep running and can be awaited later, giving the complete results. A group that ends with an exception "
     "counts as ended and its exception reaches the waiting block or the later wait, and never leaves it blocked; a failing group may end the wait for the others early.",
     ["schedules", "fault_sequences"],
     "all latencies, exit modes, failing or cancelled groups, later waits at any time",
     "Tests use each mode once without failures.",
     ["toffee/executor.py"],
     [("exit handling", "toffee/executor.py:__exit_all, __exit_any, __exit_none, wait_all")],
     observe=["cycle at which the block is left", "exceptions and results"])
prop("C16", "Request pipeline: one request per clock edge, in order, each exactly once",
     "Synchronous request processing applies the given requests in order, at most one per rising edge, each exactly once and only at an edge where its condition holds "
     "(earlier requests blocking later ones), runs its callbacks once, after its data have been applied, and returns when all are done, with the sampled response and cycle of "
     "every request dictionary that asked for one. A failing callback, condition or DUT step reaches the caller and does not affect later batches. This also holds over repeated batches and re-binding to the same or another DUT, and the caller's requests keep their data fields.",
     ["inputs", "histories", "configurations"],
     "all request sequences (dictionaries, callables, conditional, with callbacks and responses), batches, stalls and re-bindings",
     "The only tests need a built DUT; conditions that stay false, trailing conditional requests, and re-binding are not reached.",
     ["toffee/bundle.py"],
     [("edge callback", "toffee/bundle.py:___dut_call_on_rise__"), ("driver loop", "toffee/bundle.py:process_requests")],
     observe=["pin values at each edge", "returned data and cycles"])
prop("C17", "Coverage accounting is exact over any sampling history",
     "After any history of sampling, adding, resetting, deleting, stopping and resuming, each bin's count is the number of effective "
     "samples in which its condition held, points and groups are reported covered exactly when all their bins have been hit, and sampling stops by itself only when "
     "every point is covered and configured to stop. An exception raised by a bin or by the watched target reaches the caller and does not stop or corrupt later sampling.",
     ["histories", "fault_sequences"],
     "all histories of group operations and samples, with failures at any bin evaluation",
     "Tests sample a short fixed sequence without failures, resets or stop/resume.",
     ["toffee/funcov.py"],
     [("sampling", "toffee/funcov.py:CovGroup.sample, __check__"), ("report", "toffee/funcov.py:as_dict")],
     observe=["reported counts and flags after every operation"])
prop("C18", "Log accounting is exact under faults",
     "Every log record at or above the configured level is counted exactly once, by severity and by id, whichever displays and files are configured, and when they fail; "
     "each configured output shows each such record once, in order, in the configured format and with its id exactly as given. Reconfiguring the logging at any point neither "
     "loses nor duplicates later records, and output failures never reach the test.",
     ["histories", "fault_sequences", "configurations"],
     "all sequences of records, ids, levels and reconfigurations, with output streams failing at arbitrary writes",
     "Tests never inspect statistics, configure several outputs, or make an output fail.",
     ["toffee/logger.py"],
     [("statistics handler", "toffee/logger.py:StatsHandler"), ("formatter", "toffee/logger.py:ToffeeFormatter"),
      ("reconfiguration", "toffee/logger.py:setup_logging")],
     observe=["statistics", "text written to each output"])
prop("C19", "Interfaces are isolated from each other",
     "Two instances of the same interface (bundle) class never share signals: concurrent tasks driving, stepping and reading different instances, "
     "including their signal lists, sub-bundles and bundle lists, affect only the pins of their own instance. After re-binding, an instance reads, writes and "
     "waits on the clock of its new DUT only, and the old DUT's pins are left alone. The write mode given to an interface, whether on its own or nested in another, before or after binding, reaches exactly its own writable pins, "
     "after re-binding too, and the reports of a DUT's unconnected and multiply connected pins reflect the interfaces bound to it at that moment. "
     "A pin that the DUT lacks leaves only its own signal unconnected, and asking which pins could be connected answers exactly what binding would do and changes nothing.",
     ["schedules", "configurations", "histories"],
     "all topologies, numbers of instances, bind and re-bind histories, with concurrent users",
     "Tests bind one instance per class and never re-bind with activity.",
     ["toffee/bundle.py"],
     [("per-instance re-creation of children", "toffee/bundle.py:Bundle.__init__"), ("un-binding", "toffee/bundle.py:__unbind_all")],
     observe=["pin writes of every DUT", "clock followed by step"])
prop("C20", "Name-based signal connection follows the declared rules",
     "Binding connects each interface signal to the DUT pin selected by the composed prefix, regular-expression or dictionary rules of its "
     "level, warns about those with no pin, and the connectivity predictions agree with what binding does.",
     ["inputs", "configurations"], "all rule compositions and pin name sets",
     "Only a few hand-written names are tested.", ["toffee/bundle.py"],
     [("bind methods", "toffee/bundle.py:PrefixBindMethod, RegexBindMethod, DictBindMethod")],
     na="a pure function from rules and pin names to a connection table: no schedule, time, I/O or interleaving for a simulator to decide "
        "(that bound instances behave under concurrency is C01 and C19)")
prop("C21", "Assigning and reading whole interfaces are inverse",
     "Assigning a dictionary or message to an interface and reading it back as a dictionary yields the assigned values, flat or nested, with the wildcard filling the rest.",
     ["inputs", "configurations"], "all topologies and value dictionaries",
     "Few shapes are tested.", ["toffee/bundle.py"], [("assign / as_dict", "toffee/bundle.py:assign, as_dict")],
     na="a pure conversion of values without any nondeterminism; input generation, not simulation, would be the deciding step")
prop("C22", "Coverage conditions and utility models compute their specified functions",
     "Coverage comparators and the utility models (LFSR, pseudo-LRU, saturating counters) compute the documented function of their inputs and history.",
     ["inputs"], "all operand values and operation sequences",
     "A handful of values is tested.", ["toffee/funcov.py", "toffee/utils"], [("comparators", "toffee/funcov.py:CovEq..CovIsInRange")],
     na="pure sequential functions with no schedule, fault, time or I/O dimension")

prop("C23", "Runs are reproducible",
     "Executing the same test on the same DUT again gives the same history: the order and cycle of every effect on tasks, of hook calls, port and queue contents, results, "
     "log records, coverage reports and the outcome do not depend on the process' string hash seed, the memory layout, garbage collection, the iteration order of sets, or the speed of the host and "
     "of the DUT (unless the test itself uses timers). Only the order in which the tasks outstanding at the end of a run are cancelled is left open.",
     ["schedules", "configurations", "programs"],
     "all programs of the other properties, executed in pairs of differently conditioned processes",
     "A test runs once in one process and compares with constants; a dependence on hash seed, object addresses or timing shows only between differently conditioned executions.",
     ["toffee/asynchronous.py", "toffee/executor.py", "toffee/_base_agent.py", "toffee/env.py", "toffee/model.py", "toffee/delay.py", "toffee/funcov.py", "toffee/bundle.py"],
     [("settling by task state, not by time", "toffee/asynchronous.py:execute_all_coros"), ("insertion-ordered models, hooks, groups and delayed signals",
      "toffee/_base_agent.py:model_infos, toffee/executor.py:__coros, toffee/asynchronous.py:delayer_list")],
     observe=["complete recorded history of two executions"])
prop("C24", "Gather, events and sleeps",
     "toffee.gather starts every given coroutine in the cycle of the call, lets them run concurrently and returns their results in argument order in exactly the cycle in which the "
     "last has finished (none given: an empty list at once); when one fails, its exception reaches the gatherer, at the latest when all have ended, and the others are not cancelled. "
     "An event wakes every task waiting for it in the cycle in which it is set, also if it is cleared right away, and no other; waiting for a set event continues at once; waits that time out or are "
     "cancelled do not affect others. A sleep never ends before its time on the loop's clock, ends in the cycle in which it expires, and sleeps end in order of their deadlines.",
     ["schedules", "programs", "inputs"],
     "all nestings and sizes of gathers, wait and set patterns, cancellation points, sleeping times and clock behaviours",
     "The tests gather two or three calls that end together and never pulse an event with several waiters, fail inside a gather, or sleep against the clock.",
     ["toffee/asynchronous.py"],
     [("gather awaits toffee tasks one by one", "toffee/asynchronous.py:gather"), ("Event, Queue and sleep wrap asyncio's and report activity", "toffee/asynchronous.py:Event, Queue, sleep")],
     observe=["start, end and wake-up cycles of every member and waiter", "results and exceptions at the gatherer", "loop time at the end of every sleep"])

TECH = "deterministic simulation with fault injection: seeded search over schedules and faults against a reference oracle"
NOTES = {}


def main():
    claimed = [d for d, na in P if na is None]
    have = {f[:-3].upper() for f in os.listdir(os.path.join(V, "props")) if f.startswith("c") and f.endswith(".py")}
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for d, na in P:
            f.write(json.dumps(d) + "\n")
    man = dict(version=1, setup_cmd="./check selftest C01 --cases 3", checks=[], not_applicable=[])
    for d, na in P:
        if na is not None:
            man["not_applicable"].append(dict(property=d["id"], reason=na))
        elif d["id"] not in have:
            man["not_applicable"].append(dict(property=d["id"], reason="check under construction"))
        else:
            man["checks"].append(dict(
                property=d["id"], quick_cmd=f"./check check {d['id']} --tier quick",
                thorough_cmd=f"./check check {d['id']} --tier thorough",
                technique=TECH, level="exploration",
                level_note=NOTES.get(d["id"], "Seeded sampling of schedules, faults and programs on the real toffee and asyncio code with a stub DUT and a "
                                     "virtual clock; replays exactly from the reported case; a clean batch is evidence, not proof.")))
    man["notes"] = "No hooks in /repo: asyncio's event-loop policy is the seam. Repairs of genuine defects are the fix: commits listed in known_findings.jsonl."
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
