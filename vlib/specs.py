"""Which harness runs decide which property."""

UNIX = ["interface", "transport"]
TARGETS = {
}
for _n in ("c01", "c02", "c03", "c04", "c05", "c07"):
    TARGETS["h_" + _n] = dict(sources=["h_%s.cpp" % _n], groups=UNIX)



def R(target, san, *args, **kw):
    return dict(target=target, san=san, args=list(args), **kw)


SPECS = {}
SPECS["C01"] = dict(
    level="exploration",
    runs=[R("h_c01", "plain", "same", reps=2), R("h_c01", "asan", "same"), R("h_c01", "tsan", "same"),
          R("h_c01", "plain", "mt", reps=3), R("h_c01", "asan", "mt"), R("h_c01", "tsan", "mt"),
          R("h_c01", "plain", "mp"), R("h_c01", "plain", "raw", reps=2), R("h_c01", "asan", "raw"),
          R("h_c01", "plain", "early", reps=2), R("h_c01", "plain", "backlog"), R("h_c01", "asan", "backlog")],
    evals=["responses_checked", "handled_once_checked", "equal_requests"], distinct=["exchanges"],
    need=["responses_checked", "handled_once_checked", "client_processes", "raw_rounds", "dropped_futures", "declined",
          "empty_answers", "passed_by", "all_kept", "equal_requests",
          "injected_delays", "injected_lock_delays"],
    rule="an exchange is one request whose response bytes were compared; distinct by request content")

SPECS["C02"] = dict(
    level="exploration",
    runs=[R("h_c02", "plain", "sizes", reps=2), R("h_c02", "asan", "sizes"), R("h_c02", "plain", "signals"),
          R("h_c02", "plain", "huge"), R("h_c02", "asan", "huge"),
          R("h_c02", "plain", "rawclient"), R("h_c02", "asan", "rawclient"),
          R("h_c02", "plain", "rawserver"), R("h_c02", "asan", "rawserver")],
    evals=["messages_checked"], distinct=["shapes"],
    need=["messages_checked", "split_points", "coalesced_batches", "injected_short_io", "injected_eintr", "signal_runs", "huge_messages"],
    rule="one message compared byte for byte after transport; distinct by (name, payload) shape or content")
SPECS["C03"] = dict(
    level="exploration",
    runs=[R("h_c03", "plain", "list", reps=2), R("h_c03", "asan", "list"), R("h_c03", "plain", "looplist", reps=2),
          R("h_c03", "asan", "looplist"), R("h_c03", "tsan", "looplist"),
          R("h_c03", "plain", "unix", reps=3, scale=2), R("h_c03", "asan", "unix"), R("h_c03", "tsan", "unix"),
          R("h_c03", "plain", "loopback", reps=3, scale=2), R("h_c03", "asan", "loopback"), R("h_c03", "tsan", "loopback")],
    evals=["deliveries_checked", "pings"], distinct=["delivery_orders"],
    need=["deliveries_checked", "churned_clients", "pings", "replies_checked", "injected_short_io", "floods", "deaf_clients",
          "left_clients", "unanswered_requests", "empty_broadcasts", "throwing_receivers", "clients_without_endpoint", "many_clients"],
    rule="one delivery of one broadcast to one client compared; distinct delivery sequences per client and round")
SPECS["C04"] = dict(
    level="fault_enumeration",
    runs=[R("h_c04", "plain", "server"), R("h_c04", "asan", "server"), R("h_c04", "plain", "client"),
          R("h_c04", "asan", "client"), R("h_c04", "plain", "kill"), R("h_c04", "asan", "kill")],
    evals=["deaths"], distinct=["death_points"],
    need=["deaths", "survivor_checks", "late_requests", "kills", "responses_before_death"],
    rule="one peer death; distinct by byte position, frame kind and way of dying")

SPECS["C05"] = dict(
    level="exploration",
    runs=[R("h_c05", "plain", "same", reps=2), R("h_c05", "asan", "same"), R("h_c05", "tsan", "same"),
          R("h_c05", "plain", "mt", reps=2), R("h_c05", "asan", "mt"), R("h_c05", "tsan", "mt"),
          R("h_c05", "plain", "destroy", reps=2), R("h_c05", "asan", "destroy"), R("h_c05", "tsan", "destroy")],
    evals=["responses_checked", "equal_requests"], distinct=["exchanges"],
    need=["responses_checked", "kind_0", "kind_1", "kind_2", "kind_3", "destructions", "failed_by_destroy",
          "answered_before_destroy", "injected_lock_delays", "empty_requests", "equal_requests"],
    rule="one loopback request whose outcome was compared; distinct by request content")
SPECS["C07"] = dict(
    level="fault_enumeration",
    runs=[R("h_c07", "plain", "cycles"), R("h_c07", "asan", "cycles"), R("h_c07", "plain", "loopback"),
          R("h_c07", "asan", "loopback"), R("h_c07", "plain", "failures"), R("h_c07", "asan", "failures"),
          R("h_c07", "plain", "nofile"), R("h_c07", "asan", "nofile"), R("h_c07", "plain", "pending"),
          R("h_c07", "asan", "pending"), R("h_c07", "plain", "memory")],
    evals=["cycles"], distinct=["cycle_kinds"],
    need=["leak_checks", "works_checks", "failed_serves", "failed_connects", "many_fd_checks", "futures_after_destroy",
          "pending_zero_checks", "memory_checks"],
    rule="one life cycle of transports after which descriptors, threads, outstanding requests were compared")

GEN = UNIX + ["general", "tracing", "nop"]
TARGETS["h_c06"] = dict(sources=["h_c06.cpp"], groups=GEN)
SPECS["C06"] = dict(
    level="exploration",
    runs=[R("h_c06", "plain", "bodies", reps=2), R("h_c06", "asan", "bodies", reps=2), R("h_c06", "plain", "streams"),
          R("h_c06", "asan", "streams", reps=2), R("h_c06", "plain", "client"), R("h_c06", "asan", "client"),
          R("h_c06", "plain", "loopback"), R("h_c06", "asan", "loopback"), R("h_c06", "plain", "known", weight=1)],
    evals=["hostile_messages", "garbage_streams"], distinct=["hostile_inputs"],
    need=["hostile_messages", "garbage_streams", "probes_other_client", "probes_same_client", "unknown_names",
          "throwing_endpoints", "loopback_rounds", "finding_scenarios"],
    rule="one hostile message or byte stream after which the server was probed; distinct by content")
TARGETS["h_c08"] = dict(sources=["h_c08.cpp"], groups=GEN)
SPECS["C08"] = dict(
    level="exploration",
    runs=[R("h_c08", s, m, t, reps=2 if s == "tsan" else 1, weight=3, deadlocks=True)
          for s in ("tsan", "plain", "asan") for m in ("stress", "reentrant") for t in ("unix", "loopback")]
    + [R("h_c08", s, "special") for s in ("tsan", "plain", "asan")] + [R("h_c08", "plain", "known", weight=1)],
    evals=["requests_checked"], distinct=["requests"],
    need=["requests_checked", "churned_clients", "foreign_destroys", "broadcasts", "endpoint_changes", "remote_views",
          "reentrant_0", "reentrant_1", "reentrant_3", "reentrant_5", "issued_by_endpoints", "special_rounds", "factory_uses", "finding_scenarios",
          "injected_lock_delays"],
    rule="one request whose answer was checked while other threads or the endpoint itself used the transport; distinct by content")
TARGETS["h_c09"] = dict(sources=["h_c09.cpp"], groups=UNIX)
SPECS["C09"] = dict(
    level="exploration",
    runs=[R("h_c09", "plain", "unix", reps=3), R("h_c09", "asan", "unix"), R("h_c09", "plain", "churn"),
          R("h_c09", "plain", "alone", reps=2), R("h_c09", "asan", "alone"), R("h_c09", "plain", "crowd"),
          R("h_c09", "plain", "loopback"), R("h_c09", "asan", "loopback"), R("h_c09", "tsan", "loopback")],
    evals=["discoveries"], distinct=["situations"],
    need=["discoveries", "killed_servers", "foreign_sockets", "connections_checked", "loopback_discoveries", "churn_rounds", "crowds", "nobody_serves", "somebody_serves"],
    rule="one discovery compared with the processes that are serving; distinct by last action and numbers of servers, clients, foreign sockets",
    assumptions=["no unrelated process listens under the exact address form of a server, names contain no line breaks"])
TARGETS["h_c10"] = dict(sources=["h_c10.cpp"], groups=UNIX + ["general"])
SPECS["C10"] = dict(
    level="exploration",
    runs=[R("h_c10", "plain", "procs", reps=2), R("h_c10", "asan", "procs"), R("h_c10", "plain", "fake"),
          R("h_c10", "asan", "fake"), R("h_c10", "plain", "poll"), R("h_c10", "tsan", "poll"), R("h_c10", "asan", "poll")],
    evals=["convergences"], distinct=["histories"],
    need=["convergences", "killed_servers", "endpoints_added_later", "fake_cycles", "poll_steps", "many_endpoints"] +
    ["hostile_%d" % i for i in range(5)] + ["fake_%d" % i for i in (1, 2, 3, 4, 5, 6)],
    rule="one settled situation in which the manager was compared with the live servers; distinct by the history that led there")
TARGETS["h_c11"] = dict(sources=["h_c11.cpp"], groups=GEN)
SPECS["C11"] = dict(
    level="exploration",
    runs=[R("h_c11", s, m, t) for s in ("plain", "asan") for m in ("state", "changing") for t in ("unix", "loopback")] +
         [R("h_c11", "tsan", "changing", "unix"), R("h_c11", "tsan", "changing", "loopback"), R("h_c11", "plain", "procs"),
          R("h_c11", "asan", "procs"), R("h_c11", "plain", "late", weight=1), R("h_c11", "asan", "late", weight=1)],
    evals=["views_endpoints", "views_info", "views_mapping", "changing_views", "late_empty", "late_answered"],
    distinct=["states"],
    need=["views_endpoints", "views_info", "views_mapping", "changing_views", "changing_views_midway", "process_views",
          "dead_views", "late_empty", "late_answered"],
    rule="one remote view compared with the state held by the server (or the bounds of it during the call); distinct by state",
    assumptions=["thread ids below 2^63 (BSON integers are signed)"])
TARGETS["h_c13"] = dict(sources=["h_c13.cpp"], groups=GEN)
SPECS["C13"] = dict(
    level="exploration",
    runs=[R("h_c13", "plain", "map", reps=2), R("h_c13", "tsan", "map"), R("h_c13", "asan", "map")] +
         [R("h_c13", s, m) for m in ("naming", "storm", "exit") for s in ("plain", "asan", "tsan")],
    evals=["histories_checked", "quiescent_checks", "own_names_checked"], distinct=["histories", "situations"],
    need=["histories_checked", "overlapping_pairs", "quiescent_checks", "own_names_checked", "named_threads_ended", "renamed_threads_ended",
          "reused_ids", "storms", "process_ends", "ended_0", "ended_1", "ended_2", "named_by_other"],
    rule="one history of overlapping map operations decided by a linearizability search, or one comparison of the listed "
         "threads with the live ones; distinct by operation order and results")
TARGETS["h_c25"] = dict(sources=["h_c25.cpp"], groups=GEN)
SPECS["C25"] = dict(
    level="exploration",
    runs=[R("h_c25", "plain", "procs", reps=2), R("h_c25", "asan", "procs"), R("h_c25", "tsan", "mt"), R("h_c25", "plain", "mt"),
          R("h_c25", "asan", "mt"), R("h_c25", "plain", "split"), R("h_c25", "asan", "split")],
    evals=["general_checks", "mapping_checks", "names_checked", "placeholders_checked", "splits", "resolutions", "mt_checks"],
    distinct=["situations"],
    need=["general_checks", "process_entries", "names_checked", "placeholders_checked", "splits", "resolutions", "killed",
          "mt_complete", "ends"] + ["raw_%d" % i for i in range(4)],
    rule="one name, metadata list or split compared with what the process registered; distinct by text or history")
TARGETS["h_c12"] = dict(sources=["h_c12.cpp"], groups=[])
SPECS["C12"] = dict(
    level="exploration",
    runs=[R("h_c12", "plain", "seq"), R("h_c12", "asan", "seq"), R("h_c12", "plain", "mt", reps=2), R("h_c12", "tsan", "mt", reps=2),
          R("h_c12", "asan", "mt")],
    evals=["operations", "popped"], distinct=["runs", "sequences"],
    need=["sequences", "operations", "full_pushes", "empty_pops", "popped", "bulk_popped", "duels", "observed_sizes"],
    rule="one operation compared with a queue, or one value popped by another thread; distinct by operation sequence or run")
TARGETS["h_c24"] = dict(sources=["h_c24.cpp"], groups=GEN[:-1], defs=["TAP_STUB"])
TARGETS["h_c24l"] = dict(sources=["h_c24.cpp"], groups=GEN[:-1] + ["lttng_ust"], defs=["TAP_LTTNG"], incs=["shim_lttng"])
SPECS["C24"] = dict(
    level="exploration",
    runs=[R(t, s, m) for t in ("h_c24", "h_c24l") for m, ss in (("names", ("plain", "asan")), ("walk", ("plain", "asan")),
                                                                ("first", ("plain", "tsan")), ("mt", ("plain", "tsan", "asan")))
          for s in ss],
    evals=["events_checked", "names_checked"], distinct=["sequences", "names"],
    need=["walks", "names_checked", "ids_checked", "first_uses", "exceptions", "breaks", "left_by_exception", "count_events",
          "scopes_closed"] + ["use_%d" % i for i in range(13)],
    rule="one emitted event compared with the macro that was executed; distinct by sequence of events or by name",
    assumptions=["names contain no NUL", "TRACE_SCOPE_END follows a TRACE_SCOPE_START of the same name and file",
                 "the lttng backend is observed at its tracepoints with a stand-in for lttng-ust (no tracing daemon here)"])
TARGETS["h_c14"] = dict(sources=["h_c14.cpp"], groups=GEN[:-1] + ["lttng_ust"], defs=["TAP_LTTNG"], incs=["shim_lttng"])
TARGETS["h_c14n"] = dict(sources=["h_c14.cpp"], groups=GEN[:-1] + ["native"], defs=["TAP_NATIVE"])
SPECS["C14"] = dict(
    level="exploration",
    runs=[R("h_c14", s, "model", t, reps=2 if s == "plain" else 1) for s in ("plain", "asan", "tsan") for t in ("unix", "loopback")] +
         [R("h_c14", "plain", "procs"), R("h_c14", "asan", "procs")] +
         [R("h_c14", s, "mt", t) for s in ("plain", "asan", "tsan") for t in ("unix", "loopback")] +
         [R("h_c14n", "plain", "model", "loopback", reps=2), R("h_c14n", "asan", "model", "loopback"),
          R("h_c14n", "plain", "mt", "loopback"), R("h_c14n", "tsan", "mt", "unix"), R("h_c14n", "plain", "procs")],
    evals=["answers_checked", "emissions", "maps_checked", "remote_views", "process_views", "mt_checks", "mt_views"],
    distinct=["histories"],
    need=["answers_checked", "emissions", "maps_checked", "remote_views", "remote_sets", "process_views", "mt_checks", "mt_views",
          "victim_checks", "short_threads", "process_toggles", "scopes_left", "scopes_thrown", "threads_ended", "reused_ids",
          "new_threads", "node_emissions"] + ["gate_%d%d" % (a, b) for a in (0, 1) for b in (0, 1)] +
         ["act_%d" % i for i in range(16)],
    rule="one switch value, emission or listing compared with a model of the switches; distinct by history of operations",
    assumptions=["emission is observed in the buffers of the native backend, and at the lttng backend's tracepoints with a stand-in for lttng-ust"])
LTTNG = UNIX + ["general", "tracing", "nop", "lttng"]
TARGETS["h_c17"] = dict(sources=["h_c17.cpp"], groups=LTTNG)
SPECS["C17"] = dict(
    level="exploration",
    runs=[R("h_c17", s, m, reps=2 if s == "plain" else 1) for s in ("plain", "asan") for m in ("valid", "other")] +
         [R("h_c17", "plain", "real")],
    evals=["valid_lines", "other_lines"], distinct=["lines"],
    need=["valid_lines", "other_lines", "fields_checked", "fields_seen", "empty_events"],
    rule="one line parsed and compared with what it states; distinct by text",
    assumptions=["text fields of valid lines are free of the separators { } , = (the viewer does not escape them)"])
TARGETS["h_c18"] = dict(sources=["h_c18.cpp"], groups=LTTNG)
SPECS["C18"] = dict(
    level="exploration",
    runs=[R("h_c18", s, "stream", reps=2 if s == "plain" else 1) for s in ("plain", "asan", "tsan")] +
         [R("h_c18", s, "listeners", reps=2 if s == "tsan" else 1, weight=3) for s in ("plain", "asan", "tsan")] +
         [R("h_c18", "plain", "tool"), R("h_c18", "asan", "tool")],
    evals=["deliveries_checked"], distinct=["lines"],
    need=["deliveries_checked", "silences", "streams", "ends_of_output", "halts", "unfinished_lines", "tiny_lines", "second_streams", "listeners",
          "busy_listeners", "self_switched_off", "listener_rounds", "tool_rounds", "viewer_lines", "failed_forks",
          "missing_viewers", "immediate_halts", "viewer_ended", "other_events", "injected_eintr"] +
         ["tool_kind_%d" % i for i in range(8)],
    rule="one line compared with what was printed when a listener was called with it; distinct by text",
    assumptions=["lines contain no NUL", "listeners are not added from inside a listener",
                 "the viewer programs are stand-ins that print prepared lines"])
TARGETS["h_lttng"] = dict(sources=["h_lttng.cpp"], groups=LTTNG)
SPECS["C19"] = dict(
    level="exploration",
    runs=[R("h_lttng", "plain", "convert", reps=3), R("h_lttng", "asan", "convert", reps=2)],
    evals=["entries_checked"], distinct=["entries"],
    need=["entries_checked", "recordings", "names_checked", "placeholders_checked", "left_out_lines", "processes_gone", "manager_gone"] +
         ["left_out_%d" % i for i in range(13)],
    rule="one entry of a recording compared with the event the viewer printed; distinct by event",
    assumptions=["the viewer is a stand-in that prints prepared lines in babeltrace's format"])
SPECS["C20"] = dict(
    level="exploration",
    runs=[R("h_lttng", "plain", "counters", reps=3), R("h_lttng", "asan", "counters", reps=2)],
    evals=["values_checked"], distinct=["counters"],
    need=["counters_checked", "values_checked", "recordings"],
    rule="one value of one series in one counter entry compared; distinct by entry")
SPECS["C16"] = dict(
    level="exploration",
    runs=[R("h_lttng", "plain", "intervals", reps=2), R("h_lttng", "asan", "intervals"), R("h_lttng", "plain", "concurrent"),
          R("h_lttng", "asan", "concurrent"), R("h_lttng", "tsan", "concurrent")],
    evals=["concurrent_recordings", "finishes", "empty_finishes"], distinct=["histories", "spans"],
    need=["concurrent_recordings", "concurrent_events", "finishes", "restarts", "stops", "finished_again", "provider_gone", "feeds"],
    rule="one finished recording compared with the events of its interval; distinct by history of operations")
NATIVE = UNIX + ["general", "tracing", "native", "lttng"]
TARGETS["h_native"] = dict(sources=["h_native.cpp"], groups=NATIVE)
SPECS["C15"] = dict(
    level="exploration",
    runs=[R("h_native", s, m, k) for s in ("plain", "asan", "tsan") for m in ("deliver", "senders", "teardown") for k in ("loopback", "unix")] +
         [R("h_native", s, "procs") for s in ("plain", "asan")],
    evals=["events_checked"], distinct=["events"],
    need=["events_checked", "recordings", "process_recordings", "waves", "crowds", "emitted_off", "process_off", "churned_consumers", "replaced_senders", "teardowns", "torn_down_events"] +
         ["threads_%d" % i for i in range(6)],
    rule="one delivered event compared with the log of the emitting thread; distinct by kind, id and value",
    assumptions=["no thread has more events waiting than its buffer holds", "one sender per process",
                 "the cbor library is replaced by a stand-in (its submodule is not available)"])
SPECS["C16"]["runs"] += [R("h_native", s, m, k) for s in ("plain", "asan", "tsan") for m in ("intervals", "concurrent") for k in ("loopback", "unix")]
SPECS["C16"]["need"] += ["hostile_messages", "finishes_with_hostile_data", "sources_dropped", "large_feeds"]
SPECS["C16"]["assumptions"] = SPECS["C15"]["assumptions"][2:] + SPECS["C19"]["assumptions"]
SPECS["C20"]["runs"] += [R("h_native", s, "counters") for s in ("plain", "asan")]
SPECS["C20"]["assumptions"] = SPECS["C16"]["assumptions"]
TARGETS["h_catapult"] = dict(sources=["h_catapult.cpp"], groups=GEN + ["catapult"])
_SEASOCKS = ["the seasocks web server is replaced by a stand-in with its threading rules (its submodule is not available)"]
SPECS["C21"] = dict(
    level="exploration",
    runs=[R("h_catapult", s, "session", reps=2) for s in ("plain", "asan", "tsan")],
    evals=["answers_checked", "events_checked"], distinct=["answers"],
    need=["answers_checked", "events_checked", "chunks_checked", "recordings_checked", "junk_messages", "binary_messages",
          "unrepresentable_events", "lockstep_sessions", "pipelined_sessions", "floods", "huge_recordings", "worked_sources", "commands_C", "commands_S", "commands_E"],
    rule="one answer or event compared with what the command and the sources asked for; distinct by command and id",
    assumptions=_SEASOCKS)
SPECS["C22"] = dict(
    level="exploration",
    runs=[R("h_catapult", s, "recorder", reps=2) for s in ("plain", "asan", "tsan")],
    evals=["outputs_checked", "events_checked"], distinct=["outputs", "histories"],
    need=["outputs_checked", "events_checked", "unrepresentable_events", "starts", "starts_while_running", "stops", "stops_without_start",
          "interval_starts", "interval_stops", "files_written", "dumps_checked", "destroyed_running", "destroyed_stopped",
          "concurrent_control", "worked_sources", "huge_recordings"],
    rule="one collected output or written file compared event by event with what the sources handed out; distinct by content and by history of calls",
    assumptions=["starting, stopping and destroying happen on one thread"])
SPECS["C23"] = dict(
    level="exploration",
    runs=[R("h_catapult", s, "connections", reps=2) for s in ("plain", "asan", "tsan")],
    evals=["connections", "answers_checked"], distinct=["answers"],
    need=["connections", "complete_connections", "cut_connections", "sources_released", "answers_checked", "pages_checked",
          "junk_messages", "binary_messages"],
    rule="one connection whose received messages were judged; answers distinct by command and id",
    assumptions=_SEASOCKS)
TARGETS["h_python"] = dict(script="h_python.py")
SPECS["C26"] = dict(
    level="exploration",
    runs=[R("h_python", "plain", "trees", reps=8), R("h_python", "plain", "deep", reps=4), R("h_python", "plain", "weak", reps=2)],
    evals=["trees", "deep", "overlaps", "factory_live", "factory_dead"], distinct=["trees", "deep", "overlaps", "weak"],
    need=["trees", "events", "probes", "probes_off", "raised", "returned", "deep", "overlaps", "factory_live", "factory_dead",
          "providers_gone"],
    rule="one call tree, nesting, overlap or factory call whose events, states and outcome were compared with the model")
SPECS["C27"] = dict(
    level="exploration",
    runs=[R("h_python", "plain", "cli", reps=8)],
    evals=["discover", "configure", "record"], distinct=["cli"],
    need=["discover", "configure", "configured_ids", "record", "recorded"],
    rule="one run of a command line tool whose output and effects were compared with the processes; distinct by process set",
    assumptions=["the compiled module is replaced by a stand-in that offers prepared processes (pybind11 is not available)"])
SPECS["C26"]["assumptions"] = ["the compiled module is replaced by a stand-in that records its calls (pybind11 is not available)"]
SPECS["C14"]["runs"] += [R("h_native", s, "switches", k) for s in ("plain", "asan", "tsan") for k in ("loopback", "unix")]
SPECS["C14"]["need"] += ["native_emissions", "native_remote", "native_threads_ended"] + ["native_gate_%d%d" % (a, b) for a in (0, 1) for b in (0, 1)]
SPECS["C14"]["evals"] += ["native_emissions"]
SPECS["C14"]["assumptions"] += SPECS["C15"]["assumptions"][2:]
TARGETS["h_pybind"] = dict(sources=["h_pybind.cpp"], groups=UNIX + ["general", "tracing", "points", "catapult", "python"], incs=["shim_lttng"],
                           libs=["-lpython3.12"])
_PYBIND = ["pybind11 is replaced by a stand-in that checks the interpreter lock (its submodule is not available)"]
SPECS["C28"] = dict(
    level="exploration",
    runs=[R("h_pybind", s, m) for s in ("plain", "asan") for m in ("json", "bytes", "endpoint-unix", "endpoint-loopback", "provider", "trace")] +
         [R("h_pybind", "plain", "repo")],
    evals=["trees", "payloads", "answers", "python_events", "trace_events"], distinct=["values", "requests"],
    need=["trees", "refused", "json_int_big", "payloads", "answers", "broadcasts", "handlers_raised", "handlers_none", "recordings", "python_events",
          "trace_events", "repo_tests"] + ["data_" + t for t in ("bytes", "bytearray", "list", "memoryview", "str")] +
         ["json_" + t for t in ("dict", "list", "tuple", "str", "int", "float", "bool", "NoneType")],
    rule="one value, message or event that crossed the border between Python and C++ compared with what was handed over; distinct by "
         "value, request or recording",
    assumptions=_PYBIND)
SPECS["C29"] = dict(
    level="exploration",
    runs=[R("h_pybind", s, m + "-" + k) for s in ("plain", "asan", "tsan") for m in ("manager", "busy", "builtin") for k in ("unix", "loopback")] +
         [R("h_pybind", "tsan", m) for m in ("provider", "trace", "endpoint-unix", "endpoint-loopback")],
    evals=["answers", "builtin_calls", "manager_requests", "manager_broadcasts", "busy_requests", "python_events", "trace_events"],
    distinct=["requests"],
    need=["answers", "builtin_calls", "manager_rounds", "manager_requests", "manager_broadcasts", "busy_rounds", "busy_requests", "provider_rounds",
          "trace_rounds", "destroyed_elsewhere"],
    rule="one call or message that crossed the border between Python and C++ while other threads used it, judged by its result; distinct by round",
    assumptions=_PYBIND)
SPECS["C30"] = dict(
    level="exploration",
    runs=[R("h_pybind", s, m) for s in ("plain", "asan", "tsan") for m in ("failing-unix", "failing-loopback", "failing-catapult")],
    evals=["answers", "failing_recordings", "others_events"], distinct=["requests"],
    need=["answers", "failing_rounds", "failing_recordings", "others_events"] +
         ["failed_" + k for k in ("make", "none", "wrong", "start", "stop", "finish", "rubbish", "log", "factory", "factory_half", "factory_wrong",
                                  "manager_log", "name", "unsolicited")],
    rule="one answer, recording or event of something that works beside Python code that fails; distinct by what failed",
    assumptions=_PYBIND)
