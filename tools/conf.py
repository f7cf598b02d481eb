"""What each check runs and reports. Shared by check.py and mkmanifest.py."""
CASSIM = dict(binary="uimasim",
    real=["src/cas/*.cpp", "src/framework/*.cpp", "xerces-c", "ICU", "APR pools"],
    stub=["heap allocator entry (fault injection)", "clock", "scheduler (APR threads, mutexes, conditions)", "apr_dso (annotators are in-process)"])

SVCSIM = dict(binary="svcsim",
    real=["src/utils/deployCppService.*", "src/utils/ActiveMQAnalysisEngineService.*", "src/cas/*.cpp", "src/framework/*.cpp", "xerces-c", "ICU", "APR pools"],
    stub=["message brokers and the ActiveMQ-CPP client library", "sockets to the controller", "stdin, signals, exit", "clock", "scheduler (APR threads, mutexes, conditions)", "apr_dso (annotators are in-process, scripted)"])
SVC_ASSUME = ["the simulated client library keeps to the documented CMS interface: a failed operation throws CMSException and the exception listener is told a little later", "closing or deleting a connection waits for callbacks in progress"]

RULE = ("one evaluation = one simulated run of a whole scenario in its own process, every decision (operations, values, chunk sizes, "
        "schedule, faults) drawn from a single seeded choice stream; non-trivial = %s; distinct = by the hash of the run's event log")

CHECKS = {
 "C01": dict(CASSIM, nontrivial="at least one feature structure was added to an index and iterated over",
    technique="deterministic simulation: seeded random histories of index adds, removes, resets and iterations interleaved between tasks, against a reference index model",
    note="Seeded search; no proof. The reference model sorts by the declared keys and type priorities; annotations are kept in the view they were created for.",
    assume=["the generated index definitions (sorted, set, bag; ascending/descending int, float, string keys; type priority) represent user indexes"]),
 "C02": dict(CASSIM, nontrivial="at least one feature structure was created, written and read back",
    technique="deterministic simulation: seeded random histories of CAS writes, growth and refused accesses against a reference value model",
    note="Seeded search; no proof. Assumes the generated type system (all range kinds, inheritance, string subtypes, list and array features) represents user type systems.",
    assume=["values are compared with a reference model of about 400 lines that the harness maintains", "heap growth is forced with page sizes from 1 cell"]),
 "C05": dict(CASSIM, nontrivial="a CAS with feature structures was written as XMI and read back, or the output stream refused data",
    technique="deterministic simulation: seeded random CAS contents written to a simulated stream and read back through one that delivers arbitrary pieces or fails, compared with the source by graph isomorphism",
    note="Seeded search; no proof. Values are those XML can carry (no U+0000, no line-end normalisation by the parser).",
    assume=["both CASes are compared by a canonical dump of the reachable graph, written for this check"]),
 "C06": dict(CASSIM, nontrivial="a CAS with feature structures was written as XCAS and read back, or the output stream refused data",
    technique="deterministic simulation: seeded random CAS contents written to a simulated stream and read back through one that delivers arbitrary pieces or fails, compared with the source by graph isomorphism",
    note="Seeded search; no proof. XCAS does not distinguish unset from empty strings, so neither does the comparison.",
    assume=["both CASes are compared by a canonical dump of the reachable graph, written for this check"]),
 "C07": dict(CASSIM, nontrivial="a CAS was transferred in binary form and compared",
    technique="deterministic simulation: seeded random CAS contents and histories of source and target, transferred as sections or as a blob of either byte order, compared by graph isomorphism",
    note="Seeded search; no proof. The Java side is not run; the same sections and blobs are exchanged between native CASes.",
    assume=["the other byte order is produced by a converter written for this check from the documented blob format"]),
 "C03": dict(CASSIM, nontrivial="a CAS with a past was reset and compared with a fresh one",
    technique="deterministic simulation: the same seeded program of CAS operations runs on a fresh CAS and on one reset after a random past (views, failed and aborted operations, interrupted reads); every outcome and serialized form must agree",
    note="Seeded search; no proof. The current component info an engine sets for sofa mapping is not content and is left out.",
    assume=["operations are drawn from the generated program space of the scenario"]),
 "C04": dict(CASSIM, nontrivial="an allocation failed in, or a huge request was made of, an operation on a CAS",
    technique="deterministic simulation with allocation faults: seeded programs of CAS operations in which the n-th allocation (or a run of them) fails; untouched contents are checked against a reference model, and after reset the CAS against a fresh one",
    note="Seeded search; no proof. What a failed operation was about may be in either state; a CAS into which a read failed is only checked after its reset.",
    assume=["allocations fail at operator new (the C++ runtime's, ICU's and Xerces' default memory managers use it or malloc; only operator new fails)"]),
 "E01": dict(CASSIM, nontrivial="an engine was created and its annotator's callbacks were compared with the life-cycle model",
    technique="deterministic simulation with fault injection: seeded histories of engine creation, calls and destruction with scripted annotators that return codes or throw, library, symbol, file and temporary-file faults, against a life-cycle model",
    note="Seeded search; no proof. Annotators are scripted in-process classes loaded through a simulated apr_dso.",
    assume=["what an annotator does is one of: succeed, return a code, throw a uima::Exception, another std::exception or bad_alloc, or (creation only) yield no annotator"]),
 "E02": dict(CASSIM, nontrivial="an aggregate was created and its delegates' callbacks were compared with the model",
    technique="deterministic simulation with fault injection: seeded trees of delegates (flows, languages, sofa mappings, parameters, result specifications), documents and failing callbacks, against a reference model of the aggregate",
    note="Seeded search; no proof. Leaves are scripted annotators. Where the descriptor format leaves open what an unmapped name means inside a mapped aggregate, either meaning is accepted; after a delegate failed, the others may or may not be called.",
    assume=["trees of up to 8 delegates and 4 levels with generated capabilities, mappings and parameters represent user aggregates"]),
 "E03": dict(CASSIM, nontrivial="a CAS was borrowed from a pool and checked, or a multiplier yielded a segment",
    technique="deterministic simulation with fault injection: seeded histories of borrowing, returning and wrong returns with failing allocations, and scripted multipliers that fail or run out of CASes under consumers that stop, keep or return, against a model of which CAS is lent",
    note="Seeded search; no proof. Pools are used by one thread at a time, as they document no locking. Aggregates do not iterate over a delegate's new CASes (documented as not implemented) and are left out.",
    assume=["a CAS that is returned, lent to someone else and then returned by the first holder cannot be told apart from a correct return and is not generated"]),
 "E04": dict(CASSIM, nontrivial="a context answered a request for a parameter value that is set",
    technique="deterministic simulation with fault injection: seeded trees of engines with generated declarations, groups, restrictions and overrides; histories of lookups, assignments and reconfigurations by annotators and callers, with failing allocations and several engines used by tasks at once, against an executable model of the lookup rules",
    note="Seeded search; no proof. Trees of up to 8 leaves and 4 levels. Mandatory parameters always have a value; a default group is only given together with groups.",
    assume=["an array without entries is a value of any type"],
    stub=CASSIM["stub"] + ["annotators (scripted)"]),
 "E05": dict(CASSIM, nontrivial="a description of more than 25 statements was written and read back, or a parameter value was looked up",
    technique="deterministic simulation with fault injection: seeded descriptions spread over files and spelled in different ways are read and written by concurrent tasks with failing allocations, and after histories of assignments; an independent reader (Xerces DOM) compares what is written with the generated description",
    note="Seeded search; no proof. White space at the ends of a text is not significant; comments and external resources are not part of the description.",
    assume=["texts consist of characters XML allows"],
    stub=CASSIM["stub"] + ["annotators (scripted)"]),
 "C08": dict(CASSIM, nontrivial="an input was damaged and read",
    technique="deterministic simulation with fault injection: valid XMI, XCAS, descriptors with imports and type systems are altered in bytes and structure, cut, fed in pieces by sources that fail, with missing imported files; documented outcome, memory safety, bounded steps, and recovery with the undamaged input are checked",
    note="Seeded search; no proof. What a damaged input that is accepted contains is not judged, only that it can be walked, indexed and written out.",
    assume=["an input of a few kilobytes needs at most 192 MB"],
    stub=CASSIM["stub"] + ["annotators (scripted)", "input sources (scripted)"]),
 "C09": dict(CASSIM, nontrivial="bytes of a sofa were read through a stream and compared",
    technique="deterministic simulation with fault injection: seeded histories of open, read, seek, close and CAS growth on streams over local and remote sofas, with a simulated scheme handler that reads short, fails or does not load, against the sofa's bytes",
    note="Seeded search; no proof. A seek from the end with an offset may count backwards (as implemented) or forwards (as in stdio); both are accepted.",
    assume=["a scheme handler may deliver fewer bytes than asked for, but none only at the end of its data"],
    stub=CASSIM["stub"] + ["the URI scheme handler (scripted, loaded through the simulated apr_dso)"]),
 "R01": dict(CASSIM, nontrivial="at least two tasks ran scripts at the same time and more than 20 task switches happened",
    technique="deterministic simulation: seeded scripts of 2 to 4 tasks (own engines, descriptors, type systems, CASes, serialized forms) under a seeded scheduler that preempts at basic blocks, locks and after stores to static storage, compared with the same scripts run alone",
    note="Seeded search; no proof. The scripts share nothing but the resource manager and the libraries; annotators are scripted.",
    assume=["tasks are preempted at the basic blocks of the code under test, at its locks and after each of its stores to static storage; calls into libstdc++, ICU and Xerces are otherwise atomic"],
    stub=CASSIM["stub"] + ["annotators (scripted)"]),
 "R02": dict(CASSIM, nontrivial="a message was logged and its deliveries compared",
    technique="deterministic simulation with fault injection: tasks log through their own, shared and annotators' facilities under a seeded scheduler, to loggers that are slow, throw, come and go and to a log file on a disk that refuses or cuts writes; every delivery is compared with what was logged",
    note="Seeded search; no proof. A log stream is used by one task. Messages logged while the simulated disk refuses writes may be missing or torn in the file; all others must be whole.",
    assume=["tasks are preempted at the basic blocks of the code under test; calls into libstdc++ are atomic"],
    stub=CASSIM["stub"] + ["the file system under the log file", "loggers (scripted)"]),
 "R03": dict(CASSIM, nontrivial="a resource manager was created, used and deleted",
    technique="deterministic simulation with fault injection: seeded generations of the resource manager, created, used and deleted by several tasks under a seeded scheduler, with failing creations (log file, handler list, allocations), resources and libraries that fail to load, against a model of what is registered",
    note="Seeded search; no proof. Deletion is ordered after all use, as documented; directories and level are set by one task.",
    assume=["the environment (variables, log file, handler libraries) is generated", "apr_dso behaves as APR 1.7 on Unix"],
    stub=CASSIM["stub"] + ["the file system under the log file", "resources, loggers and stream handlers (scripted)"]),
 "S01": dict(SVCSIM, nontrivial="the service was started and took a mixture of requests",
    technique="deterministic simulation with fault injection: the whole deployed service - main program, listener threads, monitor, logger, command thread, engines - runs under a seeded scheduler between a simulated broker, controller and clients whose requests are valid, malformed or fail in the annotator; every reply the broker records is matched to its request",
    note="Seeded search; no proof. The message client library (ActiveMQ-CPP) is not installed and is replaced by a simulated one with its documented interface.",
    assume=SVC_ASSUME),
 "S02": dict(SVCSIM, nontrivial="a reply with a result was compared with what a fresh engine makes of that request alone",
    technique="deterministic simulation with fault injection: as S01; the content of every successful reply is compared with the serialized result of a separate engine that processes only that request's CAS",
    note="Seeded search; no proof. The separate engine runs the same CAS code, whose own behaviour C01-C09 check.",
    assume=SVC_ASSUME),
 "S03": dict(SVCSIM, nontrivial="the service was ready to serve when connections began to fail",
    technique="deterministic simulation with fault injection: connections break, stall and are refused, brokers go down, single broker operations fail at seeded moments while requests are served; afterwards all listeners must take requests again within two simulated minutes, and only requests in flight at a failure may lack a reply",
    note="Seeded search; no proof. Failures begin after start-up; failures during start-up are part of S04.",
    assume=SVC_ASSUME + ["the broker does not redeliver a message once it was handed to the service (automatic acknowledgement)"]),
 "S04": dict(SVCSIM, nontrivial="the service was running when the order to stop came",
    technique="deterministic simulation with fault injection: shutdown, quiesce, loss of the controller, signals and failing requests reach the service at seeded moments of start-up, processing, sending and reconnection, with brokers up or down; the process must end within a bounded simulated time, and after a quiesce everything taken must be answered",
    note="Seeded search; no proof. The bound is one simulated minute beyond the longest analysis in progress.",
    assume=SVC_ASSUME),
 "S05": dict(SVCSIM, nontrivial="statistics were read while or after requests were served",
    technique="deterministic simulation with fault injection: statistics and reset commands, split and joined arbitrarily and answered through short sends, interleave with requests on all instances; every number reported is compared with bounds from the recorded history of requests, exactly when nothing is in progress",
    note="Seeded search; no proof. A request that is in progress while statistics are read may or may not be counted.",
    assume=SVC_ASSUME),
 "U01": dict(binary="runaesim", nontrivial="the runner processed at least one document, or was called in a way that cannot work",
    technique="deterministic simulation with fault injection: the runner's main() with scripted annotators over generated directories of documents (text, XCAS, XMI; damaged ones too), with failing directory and file reads, results that cannot be written, failing annotators and threads that do not start; calls, results and exit status are compared with what a second engine makes of each document alone",
    note="Seeded search; no proof. With -rand only the number of documents and the exit status are checked. The status of collectionProcessComplete and destroy is not part of the statement.",
    real=["src/utils/runAECpp.cpp (main renamed by a define)", "src/cas/*.cpp", "src/framework/*.cpp", "xerces-c", "ICU", "APR pools"],
    stub=["directory listing (order and failures)", "reads of document files", "exit", "clock", "scheduler (APR threads, mutexes, conditions)", "annotators (scripted, loaded through a simulated apr_dso)"],
    assume=["a disk that is full is /dev/full behind the name of a result"]),
}
NOT_YET = "not claimed: its simulation scenario is not built yet"
NOT_APPLICABLE = {
 "N01": "a pure function of its two arguments: no concurrency, time, I/O, fault or history for a simulator to control, so simulation adds nothing over ordinary testing",
 "N02": "a pure function of its input through ICU converters: nothing for a simulator to schedule or fail",
 "N03": "the JNI bridge only runs inside a Java virtual machine whose threads, memory and references this simulator cannot own; there is no in-process seam to put a JVM behind",
}