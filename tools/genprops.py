import json
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,observe,state=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                   state=[dict(name=n,meaning=m,where=w) for n,m,w in state],observe_at=observe,hook_needed=None)))
TU='scalopus_transport/src/transport_unix.cpp'; PR='scalopus_transport/src/protocol.cpp'; TI='scalopus_interface/src/transport.cpp'
TL='scalopus_transport/src/transport_loopback.cpp'
prop('C01','Unix transport: every request gets exactly its own response',
 "When any number of threads and clients send requests over the unix transport, the server endpoint handles each sent request exactly once, and each answered request's future yields exactly the bytes the endpoint produced for that request: none is lost, swapped between callers, or delivered twice. This holds for every timing, including a response that arrives before the requesting call has returned.",
 ['schedules','histories'],'all interleavings of client threads, clients, endpoints, response delays and dropped futures',
 'test_transport_unix sends a handful of sequential requests from one thread; the window between sending a request and recording it, and concurrent writers, are never exercised.',
 [TU,PR,'scalopus_transport/src/transport_unix.h'],
 [('request id correlation map',TU+' TransportUnix::request/work'),('write lock serialising frames',TU+' TransportUnix::request/work')],
 ['PendingResponse futures','Endpoint::handle invocations on the server','Transport::pendingRequests'],
 [('ongoing_requests_','requests sent and not yet answered',TU)])
prop('C02','Unix transport: messages of any size survive any fragmentation intact',
 "A request, response or broadcast with any endpoint name (0 to 65535 bytes) and any payload (empty to many megabytes, any byte values) arrives at the other side with exactly the name and bytes that were sent, no matter how the byte stream is fragmented, coalesced, delayed or interrupted by signals on either side. Consecutive messages on one connection never bleed into each other, and the bytes on the wire follow the documented frame layout in both directions.",
 ['inputs','fault_sequences'],'all names, payload sizes and contents, all splits of the stream into reads and writes, all EINTR/short read/short write points',
 'existing tests send a few short strings over an unstressed local socket, so every read and write completes in one call.',
 [PR,'scalopus_transport/src/protocol.h',TU],
 [('length prefixed framing',PR+' receive/send'),('chunked read loop',PR+' readData')],
 ['bytes seen by a raw socket peer','Endpoint::handle/unsolicited arguments','response futures'])
prop('C03','Broadcasts reach every connected client once, intact and in order',
 "Every broadcast made on a serving transport is handed exactly once, byte for byte and in the order in which the broadcasts were made, to the endpoint of that name at every client that stays connected and has that endpoint. Clients without the endpoint are unaffected, a broadcast is never mistaken for the response to a request, and clients joining or leaving do not disturb delivery to the others.",
 ['schedules','histories','inputs'],'all interleavings of broadcasting threads, requests, and clients connecting or disconnecting, on both transports',
 'tests broadcast one message at a time to one or two clients and wait for it before sending the next, so ordering and interleaving with requests are never visible.',
 [TI,TU,TL],
 [('broadcast queue',TI+' Transport::broadcast/popBroadcast'),('fan-out loop',TU+' TransportUnix::work'),('loopback fan-out',TL+' TransportLoopback::work')],
 ['Endpoint::unsolicited invocations at each client','frames with request id 0 at a raw client'],
 [('broadcast_messages_','broadcasts waiting for the worker','scalopus_interface/include/scalopus_interface/transport.h')])
prop('C04','Peer death at any byte never corrupts, crashes or stalls the other side',
 "If a peer of a unix transport closes its connection or dies at any point, including in the middle of a frame, no truncated or invented message is ever handed to an endpoint or to a waiting request, the surviving process keeps running, and a server keeps serving its other clients correctly. A client whose server died reports that it is no longer connected and fails later requests with an error instead of crashing or blocking.",
 ['crash_points','fault_sequences'],'every byte position of a request, response or broadcast at which the peer may disconnect or be killed, with other clients active',
 'tests only ever shut down cleanly between complete messages.',
 [TU,PR],
 [('failed receive drops the connection',TU+' TransportUnix::work'),('SIGPIPE suppression',PR+' send')],
 ['Endpoint::handle/unsolicited arguments','response futures','Transport::isConnected','process exit status'])
prop('C05','Loopback transport honours the same request contract',
 "On the in-process loopback transport every request to an existing endpoint is handled exactly once and its future yields exactly that endpoint's response, in the presence of concurrent clients, dropped futures and clients or servers being destroyed. A request to an endpoint the server does not have fails with an error through its future, and neither this nor an endpoint that declines to answer affects any other request.",
 ['schedules','histories','inputs'],'all interleavings of requesting threads, clients, endpoint sets, dropped futures and object destruction order',
 'the loopback test uses one client, existing endpoints and sequential requests.',
 [TL,'scalopus_transport/src/transport_loopback.h'],
 [('request queue drained by the client worker',TL+' TransportLoopback::work')],
 ['PendingResponse futures','Endpoint::handle invocations','TransportFactory::discover/connect'])
prop('C06','Malformed or hostile requests never take down or mute a server',
 "No byte sequence a client can send, whether garbage frames, unknown endpoint names or undecodable request bodies for any of the provided endpoints (introspection, process info, trace mapping, trace configuration), makes the serving process crash, exhibit undefined behaviour or stop answering well-formed requests from that or other clients. An endpoint that throws while handling a request likewise only costs that request its answer.",
 ['inputs','histories'],'all byte sequences and message sequences sent by one or more clients, all exceptions thrown by endpoints',
 'tests only send well-formed requests to endpoints that exist and do not throw.',
 [TU,PR,'scalopus_general/src/endpoint_introspect.cpp','scalopus_general/src/endpoint_process_info.cpp','scalopus_tracing/src/endpoint_trace_mapping.cpp','scalopus_tracing/src/endpoint_trace_configurator.cpp'],
 [('dispatch to endpoint',TU+' TransportUnix::processMsg'),('request decoding','endpoint handle() functions')],
 ['well-formed request answered after hostile input','server process liveness','ASan/UBSan reports'])
prop('C07','Transports release everything and report failures without dying',
 "Serving, connecting, using and destroying transports any number of times leaves no open file descriptors, threads or memory behind, and once every request is answered or its future dropped the number of outstanding requests returns to zero. Failing to serve (address already taken), to connect (nobody listening, server just died) or being short of file descriptors yields a null transport, after which the process continues to work; destroying a transport never blocks on outstanding requests, whose futures then fail rather than hang.",
 ['histories','fault_sequences','configurations'],'all sequences of serve/connect/request/drop/destroy, with resource exhaustion and unreachable destinations',
 'tests create one server and a few clients and never look at descriptors, threads or failing factories.',
 [TU,TL],
 [('destructor joins worker and closes sockets',TU+' TransportUnix::~TransportUnix'),('expired request sweep',TU+' TransportUnix::work')],
 ['/proc/self/fd','/proc/self/task','LeakSanitizer','Transport::pendingRequests','TransportFactory return values'])
prop('C08','Transports and endpoints are safe under concurrent use',
 "Requests, broadcasts, adding endpoints, listing endpoints, connecting, disconnecting and destroying clients may happen concurrently from any threads, and endpoints may themselves issue requests or broadcasts or change the endpoint set while handling a message, without data races, deadlocks, use of freed memory or lost service.",
 ['schedules'],'all interleavings of public transport operations, including re-entrant calls from endpoint handlers',
 'tests are single threaded apart from the transport workers, and run without a race detector.',
 [TU,TL,TI,'scalopus_general/src/endpoint_process_info.cpp'],
 [('endpoint mutex',TI),('request and write locks',TU)],
 ['ThreadSanitizer/AddressSanitizer reports','progress of every thread under a watchdog'])
prop('C09','Discovery lists exactly the live servers',
 "Discovery on the unix transport returns every process that is currently serving exactly once and no process that is not, regardless of how many clients are connected, how many unrelated sockets exist and what they are called; a process that stopped serving or was killed disappears and a listed destination of a live server can be connected to. Loopback discovery does the same for the servers made by its factory.",
 ['histories','configurations'],'all histories of servers starting, stopping and being killed, with any set of connected clients and unrelated sockets on the machine',
 'tests discover with a single server and clean surroundings.',
 [TU,TL],
 [('/proc/net/unix scan',TU+' TransportUnix::getTransportServers'),('weak server list',TL+' TransportLoopbackFactory::discover')],
 ['TransportFactory::discover results against the set of processes the monitor started'])
prop('C10','Endpoint manager converges to exactly the live servers and endpoints',
 "After servers appear, disappear or crash in any order, a polling endpoint manager ends up with exactly one connected transport per live server, each carrying one endpoint for every name the server offers and the consumer registered a factory for, and nothing for dead servers. Servers that die during discovery, never answer, answer garbage, or factories that return nothing never stop the polling, crash the process or hide the other servers.",
 ['histories','crash_points','fault_sequences'],'all histories of servers starting, stopping or dying at any step of discovery and introspection, with any registered factories',
 'no test exercises the endpoint manager at all.',
 ['scalopus_general/src/endpoint_manager_poll.cpp','scalopus_interface/include_consumer/scalopus_interface/endpoint_manager.h'],
 [('clean up and reconnect pass','scalopus_general/src/endpoint_manager_poll.cpp EndpointManagerPoll::manage/connect')],
 ['EndpointManager::endpoints snapshots','manager poll thread liveness'],
 [('transports_','connected transports by destination','scalopus_general/include_consumer/scalopus_general/endpoint_manager_poll.h')])
prop('C11','Remote views equal the server state for all names',
 "What a client reads remotely (offered endpoint names, process id, process name, thread names, trace id to name mapping) equals what the serving process holds at some moment during the call, for every set of entries and every valid UTF-8 text including empty, very long and special characters. A call that cannot get an answer in time reports an empty result with defined contents, never stale or uninitialised data.",
 ['inputs','schedules','histories'],'all endpoint sets, names and id maps, and all concurrent updates on the server while a client reads',
 'tests use one or two short ASCII names and no concurrent updates.',
 ['scalopus_general/src/endpoint_introspect.cpp','scalopus_general/src/endpoint_process_info.cpp','scalopus_tracing/src/endpoint_trace_mapping.cpp'],
 [('BSON encode/decode','endpoint handle()/client call pairs')],
 ['EndpointIntrospect::supported','EndpointProcessInfo::processInfo','EndpointTraceMapping::mapping'])
prop('C12','Trace ring buffer is a loss-free bounded FIFO between two threads',
 "For every capacity and every interleaving of one pushing and one popping thread, the values popped are exactly the values whose push reported success, each once, in push order and with their contents intact. A push fails only when the buffer holds its full number of usable slots, a pop fails only when it is empty, bulk pops return at most what was asked for and available, and the reported size never exceeds the usable capacity.",
 ['schedules','inputs'],'all interleavings of a producer and a consumer, all capacities from one slot up, all mixes of single and bulk pops',
 'test_ringbuffer runs short hand written sequences and one unstressed thread pair.',
 ['scalopus_tracing/src/spsc_ringbuffer.h'],
 [('acquire/release index hand-off','scalopus_tracing/src/spsc_ringbuffer.h push/pop/pop_into')],
 ['push/pop/pop_into/size results','ThreadSanitizer reports on the slots'],
 [('write_index_, read_index_','producer and consumer positions','scalopus_tracing/src/spsc_ringbuffer.h')])
prop('C13','Name maps behave atomically and forget threads that ended',
 "The shared name maps act as one atomic map: every lookup, listing, insertion, removal and clear takes effect at a single point in time, so concurrent users never see torn, resurrected or missing entries. A thread that gave itself a name is listed under its own id with its latest name until it ends and is gone afterwards, and naming inside a thread takes effect once per place in the code without affecting other threads.",
 ['schedules','histories'],'all interleavings of inserting, reading, erasing, clearing and thread exits',
 'the naming test checks one thread sequentially.',
 ['scalopus_general/include/scalopus_general/map_tracker.h','scalopus_general/src/thread_name_tracker.cpp','scalopus_general/include/scalopus_general/internal/thread_naming.h','scalopus_general/include/scalopus_general/destructor_callback.h'],
 [('shared mutex around the map','scalopus_general/include/scalopus_general/map_tracker.h'),('thread exit callback','scalopus_general/src/thread_name_tracker.cpp')],
 ['MapTracker results as a linearizability history','ThreadNameTracker::getMap around thread exits'])
prop('C14','Tracing on/off switches act exactly on their target',
 "Tracing is on by default for the process and every new thread; a thread emits trace events if and only if both the process switch and its own switch are on, whoever set them last, and switching one thread or one process never changes another. Scoped switches restore the value they found when their scope ends, in any nesting, and remote configuration changes only the requested existing threads (and the process switch only when asked) and reports the resulting state, with ended threads not listed.",
 ['programs','schedules','histories'],'all nestings of scoped switches, all interleavings of local and remote switching across threads, thread creation and exit',
 'tests toggle one switch in one thread.',
 ['scalopus_tracing/src/trace_configurator.cpp','scalopus_tracing/src/trace_configuration_raii.cpp','scalopus_tracing/src/endpoint_trace_configurator.cpp','scalopus_tracing/src/native/native_tracepoint.cpp','scalopus_tracing/src/lttng/lttng_tracepoint.cpp'],
 [('per thread atomic flag registry','scalopus_tracing/src/trace_configurator.cpp'),('gate in each tracepoint','scalopus_tracing/src/native/native_tracepoint.cpp')],
 ['emitted events per thread against a reference switch model','TraceConfigurator state','EndpointTraceConfigurator results'])
prop('C15','Native tracing delivers every event once, intact and correctly attributed',
 "Every scope, marker and counter event emitted while tracing is on reaches every recording consumer exactly once, provided the emitting thread never has more events waiting than its buffer holds, including events of threads that end right after emitting. Each delivered event carries its own thread id, process id, kind, id, value and an event time that lies between the moments before and after its emission, and events of one thread stay in emission order. Emitting goes on undisturbed, without crash or hang, while consumers connect and leave and while the sender or the transport it was added to is created or destroyed.",
 ['schedules','programs','histories'],'all programs of nested scopes, marks and counts over any threads, thread lifetimes and collection timings',
 'the native tests need a library that is not in the build and only check short single thread sequences.',
 ['scalopus_tracing/src/native/native_tracepoint.cpp','scalopus_tracing/src/native/tracepoint_collector_native.cpp','scalopus_tracing/src/native/endpoint_native_trace_sender.cpp','scalopus_tracing/src/native/native_trace_provider.cpp','scalopus_tracing/src/native/native_trace_source.cpp'],
 [('per thread buffers and orphan list','scalopus_tracing/src/native/tracepoint_collector_native.cpp'),('collector broadcast','scalopus_tracing/src/native/endpoint_native_trace_sender.cpp')],
 ['TraceEventSource::finishInterval output against the ledger of emitted events'])
prop('C16','A recording holds exactly the events of its own interval',
 "A trace source yields precisely the events that arrived between its own interval start and stop: nothing from before the start, after the stop or from an earlier interval, and nothing twice when it is finished again. Several sources record independently of each other, undecodable data costs at most the message it came in, a source that is no longer used stops recording, and finishing works even when the provider or the traced processes are gone.",
 ['histories','schedules','inputs'],'all sequences of start, stop, finish and destruction over several sources with data (valid or not) arriving at any time',
 'no test drives more than one source or one interval.',
 ['scalopus_tracing/src/native/native_trace_source.cpp','scalopus_tracing/src/native/native_trace_provider.cpp','scalopus_tracing/src/lttng/lttng_source.cpp'],
 [('recording flag and swap of recorded data','scalopus_tracing/src/native/native_trace_source.cpp')],
 ['finishInterval output per source against a reference interval model'])
prop('C17','Trace line parsing is exact on valid lines and safe on all others',
 "For every line in the trace viewer's text format, the parsed event reports exactly the time, domain, name, process id, thread id and integer fields that the line states. For every other text, of any length and content, parsing completes without crashing, throwing or undefined behaviour, keeps the original text, and never invents field values that are not in the line.",
 ['inputs'],'all text lines, well formed or not',
 'test_ctfevent parses three sample lines.',
 ['scalopus_tracing/src/lttng/ctfevent.cpp','scalopus_tracing/include_consumer/scalopus_tracing/ctfevent.h'],
 [('index based splitting','scalopus_tracing/src/lttng/ctfevent.cpp CTFEvent::CTFEvent')],
 ['CTFEvent accessors','sanitizer reports'])
prop('C18','Trace viewer output reaches every active listener once, promptly, in order',
 "Every line the trace viewer prints, of any length, is delivered exactly once and in order to each listener that is active when the line is processed, without waiting for further output. Once switching a listener off has returned it is never called again, listeners may be added, switched off and destroyed at any time from other threads, halting or end of output ends processing, halting also ends the viewer process, and unparsable lines, warnings of the viewer or a viewer that cannot be started do not disturb anything else.",
 ['schedules','inputs','histories'],'all line lengths and arrival patterns, all interleavings of listeners being added, disabled or destroyed while lines arrive',
 'no test runs the stream parser.',
 ['scalopus_tracing/src/lttng/babeltrace_parser.cpp','scalopus_tracing/include_consumer/scalopus_tracing/babeltrace_parser.h','scalopus_tracing/src/lttng/babeltrace_tool.cpp'],
 [('read loop and callback set','scalopus_tracing/src/lttng/babeltrace_parser.cpp BabeltraceParser::process')],
 ['listener invocations against the ledger of lines written to the pipe','sanitizer reports'])
prop('C19','LTTng recordings convert every tracing event faithfully',
 "Finishing a recording based on the trace viewer's output yields exactly one entry for each of its scope, mark and counter events received in the interval, with the stated time in microseconds, process, thread, resolved name, kind and mark level, ordered by time and by arrival where times are equal; events of other origins, unknown kinds or with missing fields are left out without affecting the rest or crashing.",
 ['inputs','histories','schedules'],'all sequences of viewer lines, including foreign, incomplete and out of order ones, over any start/stop history',
 'no test runs the LTTng source.',
 ['scalopus_tracing/src/lttng/lttng_source.cpp','scalopus_tracing/src/lttng/lttng_provider.cpp'],
 [('event conversion','scalopus_tracing/src/lttng/lttng_source.cpp LttngSource::convertEvents')],
 ['finishInterval output against the ledger of lines fed through a stand-in viewer'])
prop('C20','Counter entries show each series latest value, per process and counter',
 "In a finished recording every counter entry carries, for each series of that counter in that process seen anywhere in the interval, the value most recently set at or before that entry's time, or the first value it will get if none was set yet. Counters of different processes or names never influence each other, whatever the order in which threads' or processes' data arrived, and negative and extreme values are preserved.",
 ['histories','inputs'],'all sets of counter updates over processes, threads, counters and series, in any arrival order',
 'counter tests (not built here) use one process and one thread.',
 ['scalopus_tracing/src/native/native_trace_source.cpp','scalopus_tracing/src/lttng/lttng_source.cpp','scalopus_tracing/src/scope_tracing_provider.cpp'],
 [('forward accumulation and reverse fill','scalopus_tracing/src/native/native_trace_source.cpp finishInterval')],
 ['counter entries of finishInterval against a reference counter model'])
prop('C21','Devtools session answers every command in order and sends every event once',
 "A trace session answers each recognised command exactly once, in arrival order and with the command's own id; ending a trace yields that answer, then every event the sources produced exactly once and in order in valid JSON chunks of at most 1000 events, then one completion message. Messages that are not valid JSON, are not recognised, or event contents that cannot be serialised never crash the session or stop later commands.",
 ['inputs','histories','schedules'],'all sequences of well formed and malformed messages, all event counts and contents, any message timing relative to session creation and destruction',
 'the catapult component is not part of the test build and has no tests.',
 ['scalopus_catapult/src/trace_session.cpp','scalopus_catapult/src/trace_session.h'],
 [('message queue and worker','scalopus_catapult/src/trace_session.cpp TraceSession::loop/processMessage'),('chunking','scalopus_catapult/src/trace_session.cpp TraceSession::chunkedTransmit')],
 ['strings passed to the response function against a reference protocol model'])
prop('C22','Recorder output is valid JSON holding every event, in any lifecycle',
 "What the recorder collects or writes is always one valid JSON array containing every event its sources produced for the interval exactly once and in order, for any number of providers and events including none, and the file written on destruction is complete. Starting, stopping, interval control, collecting and destroying in any order and number never crash, hang or touch sources after they are gone.",
 ['histories','inputs','schedules'],'all call sequences on the recorder, all provider sets and event contents',
 'no test covers the recorder.',
 ['scalopus_catapult/src/catapult_recorder.cpp','scalopus_catapult/include/scalopus_catapult/catapult_recorder.h'],
 [('worker and source list','scalopus_catapult/src/catapult_recorder.cpp')],
 ['CatapultRecorder::collectEvents/writeToFile output','calls received by a monitoring source'])
prop('C23','Viewer connections are isolated and never written to after closing',
 "Every websocket connection gets its own session whose replies go only to that connection, in order; closing a connection ends its session and its sources, and afterwards nothing is ever sent to it. Connections opening, closing and sending any text or binary data concurrently never crash the server or disturb each other, and the discovery pages always return valid JSON naming the websocket address.",
 ['schedules','histories','inputs'],'all interleavings of connections opening, closing and sending while sessions are producing data',
 'the catapult component is not part of the test build and has no tests.',
 ['scalopus_catapult/src/catapult_backend.cpp','scalopus_catapult/src/catapult_server.cpp'],
 [('session map keyed by websocket','scalopus_catapult/src/catapult_backend.cpp'),('deferred send on the server thread','scalopus_catapult/src/catapult_backend.cpp CatapultBackend::makeSession')],
 ['sends observed by a stand-in websocket server'])
prop('C24','Trace macros emit balanced events whose names are known first',
 "Every scope opened through the tracing macros emits exactly one matching end event with the same id when it is left by any path (normal, return, exception, break), explicitly started and ended scopes of one name share one id, and each macro emits the stated kind, level and value. The name belonging to an id is registered before or together with the first event that uses it, from whichever thread comes first, and ids are the stated checksum based function of file, line and name.",
 ['programs','schedules'],'all control flow paths leaving a scope, all threads racing on first use, all strings for the checksum',
 'the macro test enters each macro once in one thread.',
 ['scalopus_tracing/include/scalopus_tracing/trace_macro.h','scalopus_tracing/include/scalopus_tracing/internal/trace_macro.h','scalopus_tracing/src/scope_trace_raii.cpp','scalopus_tracing/include/scalopus_tracing/internal/compile_time_crc.hpp'],
 [('register once guard','scalopus_tracing/include/scalopus_tracing/internal/trace_macro.h'),('RAII entry/exit','scalopus_tracing/src/scope_trace_raii.cpp')],
 ['tracepoint backend calls recorded by a stand-in backend','StaticStringTracker contents at the time of each event'])
prop('C25','Events and processes are shown under the right names',
 "Each trace id resolves to the name that its own process registered, and to a placeholder containing the id in hexadecimal when unknown, with processes using equal ids kept apart. Process and thread metadata entries list exactly each reachable process and its named threads once, counter names split at the first slash into counter and series (the series 'count' if there is none), and processes that died or do not answer neither crash naming nor produce bogus entries.",
 ['inputs','histories','crash_points'],'all id maps, names and process sets, processes dying or stalling at any time during a lookup',
 'tests resolve two fixed ids for one process.',
 ['scalopus_tracing/src/scope_tracing_provider.cpp','scalopus_general/src/general_provider.cpp','scalopus_general/src/general_source.cpp'],
 [('mapping refresh over all endpoints','scalopus_tracing/src/scope_tracing_provider.cpp updateMapping'),('metadata entries','scalopus_general/src/general_source.cpp')],
 ['getScopeName/splitCounterSeriesName results','metadata entries against the known server set'])
prop('C26','Python tracing helpers are transparent and always balanced',
 "Wrapping Python code in the tracing decorators and context managers never changes its results or exceptions, and emits exactly one begin and one matching end event per execution, under the given name, however the code exits, recurses or is threaded. The suppression helpers restore the calling thread's previous tracing state when they end, in any nesting, recursion or thread mix, and weakly bound endpoint factories return nothing once their provider is gone.",
 ['programs','schedules'],'all call trees, recursion depths, exceptions and thread interleavings through the decorators and context managers',
 'the Python tests need a compiled module that cannot be built here and only cover single calls.',
 ['scalopus_python/scalopus/tracing.py','scalopus_python/scalopus/general.py','scalopus_python/scalopus/common.py'],
 [('context managers and decorators','scalopus_python/scalopus/tracing.py')],
 ['calls recorded by a stand-in native module'])
prop('C27','The command line tools act on exactly the processes that answer',
 "discover lists every process that answers exactly once, with its name, endpoints and named threads. trace_configure switches exactly the processes and threads whose ids were given, other processes only with --unmatched-pid, and shows the resulting states. record prints one valid JSON array holding every recorded event once, in order. Processes that do not answer, disappear meanwhile or lack an endpoint never make a tool fail, are never shown under a made-up id, and never affect what is done for the others.",
 ['inputs','faults'],'all sets of discovered processes, ids given, endpoint subsets and failures of single processes',
 'the tools have no tests; they need processes that fail at a chosen point of the discovery.',
 ['scalopus_python/scalopus/__main__.py'],
 [('discovery listing','scalopus_python/scalopus/__main__.py run_discover'),('state changes','scalopus_python/scalopus/__main__.py run_trace_configure'),('recording','scalopus_python/scalopus/__main__.py run_record')],
 ['exit status and standard output of the tools','trace states in a stand-in native module'])
prop('C28','The Python bindings carry data, calls and events across unchanged',
 "Values that JSON can express (including all integers from -2^63 to 2^64-1) cross between Python and C++ without change and others are refused with an exception; data given as bytes, bytearray, memoryview, str or list of integers arrives as the same bytes, and arrives in Python as bytes. Endpoints, sources and trace points written in or used from Python behave as their C++ counterparts: each request gets its own answer, each broadcast arrives once and in order, each recorded event is delivered once with its id, value and level, and a Python endpoint or source stays usable as long as the framework refers to it.",
 ['inputs','histories'],'all JSON trees and byte strings, all sequences of requests, broadcasts and recordings, all orders in which objects are dropped',
 'the Python tests need a compiled module that cannot be built here and use a handful of values.',
 ['scalopus_python/lib/json_util.cpp','scalopus_python/lib/scalopus_interface.cpp','scalopus_python/lib/scalopus_tracing.cpp','scalopus_python/lib/pybind_fix.h'],
 [('JSON conversion','scalopus_python/lib/json_util.cpp pyToJson/jsonToPy'),('data conversion','scalopus_python/lib/scalopus_interface.cpp pyToData/dataToPy'),('Python endpoints and sources','scalopus_python/lib/scalopus_interface.cpp PyEndpoint/PyTraceEventSource')],
 ['values returned by the bindings','calls received by endpoints and sources written in Python'])
prop('C29','The Python bindings respect the interpreter lock and never deadlock on it',
 "C++ code of the bindings only touches Python objects while it holds the interpreter lock, on any thread. No call into the bindings (polling, managing, requesting, broadcasting, waiting, recording) and no destruction of an object, from any Python thread and at any moment, ends in a deadlock with threads that call into Python, or stops those from being served meanwhile.",
 ['schedules','histories'],'all interleavings of Python threads with the worker threads of transports, managers and the catapult server, all orders of destruction, including from within a handler',
 'deadlocks and races on the interpreter lock depend on timing; the Python tests are sequential.',
 ['scalopus_python/lib/scalopus_interface.cpp','scalopus_python/lib/scalopus_general.cpp','scalopus_python/lib/scalopus_catapult.cpp','scalopus_python/lib/pybind_fix.h'],
 [('waiting without the lock','scalopus_python/lib/scalopus_interface.cpp PendingResponse::wait_for'),('callbacks take the lock','scalopus_python/lib/scalopus_interface.cpp PyEndpoint::handle'),('destruction','scalopus_python/lib/pybind_fix.h')],
 ['lock state at each use of a Python object (stand-in for pybind11)','progress of each call'])
prop('C30','Python code that fails when the framework calls it affects only itself',
 "An exception of any type raised by, or a wrong kind of result returned from, a Python endpoint handler, endpoint factory, trace provider, trace source or logger that the framework calls never ends the process or the calling thread. Requests to other endpoints, endpoints made by other factories, later polls, and the events of other sources in the same recording are unaffected.",
 ['faults','histories'],'all placements of failing and working callbacks, all exception types and kinds of wrong results',
 'no test lets a callback fail.',
 ['scalopus_general/src/endpoint_manager_poll.cpp','scalopus_catapult/src/trace_session.cpp','scalopus_catapult/src/catapult_backend.cpp','scalopus_python/lib/scalopus_interface.cpp'],
 [('factories','scalopus_general/src/endpoint_manager_poll.cpp updateEndpoints'),('sources','scalopus_catapult/src/trace_session.cpp'),('providers','scalopus_catapult/src/catapult_backend.cpp makeSession')],
 ['answers, endpoint lists and recordings next to failing callbacks'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(p)+'\n' for p in P))
print(len(P))
import re
for p in P:
    n=len(re.findall(r'[.](?:\s|$)',p['statement']))
    if n>3: print(p['id'],n)
