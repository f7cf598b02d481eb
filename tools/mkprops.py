import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Indexes hold exactly what was added, in comparator order, in every view",
 "After any sequence of adds, removes and resets made by any number of callers on any views, iterating an index (forwards, backwards, from a given element, over a subtype, a set of types, or through a filter) yields exactly the feature structures that are in that view's index, once per add for sorted and bag indexes and once per key and type for set indexes (the first one added stays), in comparator order for sorted and set indexes. Removing a feature structure removes that very one and nothing else, and an operation on one view never changes what another view's indexes contain.",
 ["histories","schedules"],
 "every interleaving of caller tasks adding, removing, resetting and iterating over every view, type, index kind and key distribution",
 "test_iterators and test_cas check a few hand-written orders over one or two views; equal keys, removals among equals, cached supertype indexes after later changes and interleaved views are not reached",
 ["src/cas/lowlevel_internal_indexes.cpp","src/cas/lowlevel_indexrepository.cpp","src/cas/lowlevel_index.cpp","src/cas/fsindexrepository.cpp","src/cas/fsindex.cpp","src/cas/fsiterator.cpp","src/cas/cas.cpp"],
 [("sorted single index insert/remove by binary search","src/cas/lowlevel_internal_indexes.cpp"),("composite index cache and its dirty flags","src/cas/lowlevel_indexrepository.cpp"),("index comparator and type priorities","src/cas/lowlevel_indexcomparator.cpp")],
 [("index entries","per view, per type vectors/sets of heap addresses","src/cas/uima/lowlevel_internal_indexes.hpp")],
 ["FSIndex::iterator/typeSetIterator/filteredIterator/getSize/find","ANIndex::subIterator"])

p("C02","A feature value read back is the one last written, whatever else happened",
 "Every feature, array element, list and string value read from a feature structure equals the value last written to it (or the type's default when never written), regardless of how many feature structures, strings and arrays of any kind and size other callers have created or modified in between and however often the underlying storage had to grow. Walking the CAS visits every feature structure exactly once. Invalid accesses (wrong type, out-of-range index, unknown feature) are refused with an exception and change nothing.",
 ["histories","schedules"],
 "every interleaving of create/write/read operations by several tasks over all value kinds, sizes around and beyond the storage page size, and several views",
 "the tests write a handful of small values into a CAS that never outgrows its first storage page",
 ["src/cas/lowlevel_fsheap.cpp","src/cas/featurestructure.cpp","src/cas/arrayfs.cpp","src/cas/listfs.cpp","src/cas/cas.cpp"],
 [("paged heaps and their growth","src/cas/uima/lowlevel_internal_heap.hpp"),("feature accessors","src/cas/uima/internal_fsvalue_accessors.hpp")],
 None,["FeatureStructure getters","ArrayFS/ListFS getters"])

p("C03","A reset CAS is indistinguishable from a new one",
 "After a reset, whatever was done to the CAS before (any views, sofas, documents, feature structures, indexes, failed operations, or a deserialization aborted at any point), the CAS behaves exactly like a newly created one: it shows no views, document text, language, annotations or index entries of the past, and any later use gives the same observable results as the same use of a fresh CAS.",
 ["histories","crash_points"],
 "every history before the reset, including operations that were aborted half way by an error, and every use after it",
 "the tests reset a CAS two or three times after one simple document and look at one property each",
 ["src/cas/cas.cpp","src/cas/lowlevel_fsheap.cpp","src/cas/lowlevel_indexrepository.cpp"],
 [("CAS::reset","src/cas/cas.cpp"),("heap and index reset","src/cas/uima/lowlevel_internal_heap.hpp")],
 None,["full dump of the CAS through the public API after replaying the same operations on a fresh CAS"])

p("C04","Running out of memory is an error, never corruption",
 "When an allocation fails at any point of an operation on a CAS, a pool or an engine, the operation reports the failure to its caller and never corrupts memory, hangs or crashes; afterwards the data the operation was not about is unchanged, and after a reset the CAS works like a new one.",
 ["fault_sequences","crash_points"],
 "every point at which one or several consecutive allocations can fail, in every operation of a generated history",
 "no test ever makes an allocation fail",
 ["src/cas/lowlevel_fsheap.cpp","src/cas/uima/lowlevel_internal_heap.hpp","src/cas/cas.cpp","src/cas/lowlevel_indexrepository.cpp","src/framework/caspool.cpp"],
 [("heap growth","src/cas/uima/lowlevel_internal_heap.hpp")],
 None,["return codes, exceptions, memory-safety instrumentation, model comparison after the fault"])

p("C05","XMI written and read back through any stream gives the same CAS",
 "Serializing a CAS to XMI and deserializing it - into a new or a reset CAS, through a stream that may deliver the bytes in pieces of any size - gives a CAS with the same views, sofas, feature structures, references, values and index contents. When the output accepts only part of the data the output stream says so, and out-of-typesystem data that was retained for the sender survives the round trip.",
 ["inputs","histories","fault_sequences"],
 "every CAS content reachable through the API (all value kinds, characters, shared and cyclic references, several views) and every division of the byte stream into reads",
 "test_xmideserialization round-trips a few checked-in documents from whole files",
 ["src/cas/xmiwriter.cpp","src/cas/xmideserializer.cpp","src/cas/xmideserializer_handler.cpp"],
 [("XMI writer","src/cas/xmiwriter.cpp"),("SAX handler with address fix-up","src/cas/xmideserializer_handler.cpp")],
 None,["isomorphism of the two CASes walked through the public API"])

p("C06","XCAS written and read back through any stream gives the same CAS",
 "Serializing a CAS to XCAS and deserializing it - into a new or a reset CAS, through a stream that may deliver the bytes in pieces of any size - gives a CAS with the same views, sofas, feature structures, references, values and index contents.",
 ["inputs","histories","fault_sequences"],
 "every CAS content reachable through the API that the format can express, and every division of the byte stream into reads",
 "test_xcasdeserialization round-trips a few checked-in documents from whole files",
 ["src/cas/xmlwriter.cpp","src/cas/xcasdeserializer.cpp","src/cas/xcasdeserializer_handler.cpp"],
 [("XCAS writer","src/cas/xmlwriter.cpp"),("SAX handler","src/cas/xcasdeserializer_handler.cpp")],
 None,["isomorphism of the two CASes walked through the public API"])

p("C07","Binary serialization of a CAS restores the same CAS",
 "The binary form of a CAS - both the in-memory section form exchanged with the Java framework and the blob form - deserialized into a compatible CAS restores the same views, sofas, feature structures, values, references and index contents, for any history of the source and of the target CAS, and a blob fits exactly the size announced for it.",
 ["inputs","histories"],
 "every history of the source CAS and of the target CAS before the transfer, over all value kinds, repeated transfers in both directions included",
 "test_casserializer transfers one small document once",
 ["src/cas/internal_casserializer.cpp","src/cas/internal_casdeserializer.cpp","src/cas/internal_serializedcas.cpp"],
 [("serializer/deserializer pair","src/cas/internal_casserializer.cpp")],
 None,["isomorphism of the two CASes walked through the public API"])

p("C08","Damaged or interrupted input is reported and does no harm",
 "Deserializing XMI or XCAS, or parsing a descriptor, from input that ends early, fails in the middle, or has bytes altered, lost or duplicated either succeeds or is reported as an error through the documented exceptions; it never crashes, reads or writes outside its memory, or hangs. After such a failure the same CAS, once reset, processes the undamaged input correctly.",
 ["fault_sequences","crash_points","inputs"],
 "every point at which the input can end or fail and every alteration of it",
 "tests feed two or three hand-made malformed files",
 ["src/cas/xmideserializer_handler.cpp","src/cas/xcasdeserializer_handler.cpp","src/cas/xmlerror_handler.cpp","src/framework/taespecifierbuilder.cpp","src/cas/internal_casdeserializer.cpp"],
 [("SAX error handlers","src/cas/xmlerror_handler.cpp")],
 None,["exceptions, memory-safety instrumentation, round trip on the same CAS afterwards"])

p("C09","Sofa data streams deliver the exact bytes for any read pattern",
 "Reading a sofa through a data stream - local string or array data, or remote data through a registered scheme handler whose reads may be short - delivers exactly the sofa's bytes in order, as whole elements, for every sequence of reads and seeks, then end of data. A seek or read that cannot be satisfied is refused or reports end of data and never touches memory outside the sofa; handler failures are reported and every opened handler is closed exactly once.",
 ["histories","fault_sequences"],
 "every sequence of open/read/seek/close calls, element size and buffer size, and every pattern of short, empty and failing handler reads",
 "test_sofa reads each stream front to back once with a handler that never returns short",
 ["src/cas/sofastream.cpp","src/cas/cas.cpp"],
 [("LocalSofaDataStream / RemoteSofaDataStream","src/cas/sofastream.cpp"),("scheme handler registry","src/framework/resmgr.cpp")],
 None,["bytes returned vs reference byte array"])

p("E01","Engine life cycle and annotator failures",
 "An engine calls its annotator's initialize, process, batch/collection-complete, reconfigure and destroy in the documented order, each only in a legal state, and destroys it exactly once; calls in an illegal state are refused without reaching the annotator. A failure of the annotator in any of them (error code or exception) is reported to the engine's caller, and the engine still processes the next document correctly and can be destroyed.",
 ["fault_sequences","histories"],
 "every sequence of engine calls and every callback in which the annotator fails, in either way",
 "test_engine drives a few failing annotators once each and never looks at what follows",
 ["src/framework/internal_engine_base.cpp","src/framework/internal_primitive_engine.cpp","src/framework/annotator.cpp","src/framework/engine.cpp"],
 [("engine state machine","src/framework/uima/engine_state.hpp"),("AnnotatorProxy","src/framework/annotator.cpp")],
 None,["recorded history of annotator callbacks vs model, return codes and exceptions"])

p("E02","Aggregate engines run their delegates in flow order on the mapped views",
 "An aggregate engine runs exactly the delegates its flow and the document language select, in flow order, each once per document, on the view its sofa mappings name and with its own configuration and result specification; each delegate sees everything earlier delegates put into the CAS. When a delegate fails, the failure is reported to the caller: an error code does not keep the other delegates from being called (what the failed one was asked for is still asked of them), an exception ends the processing of the document; batch and collection completion and reconfiguration reach every delegate all the same. No delegate is skipped at clean-up, delegates are destroyed in reverse order, and the next document is processed as by a fresh aggregate.",
 ["fault_sequences","configurations","histories"],
 "every aggregate of generated delegates, flows, languages, sofa mappings and parameter overrides, nested included, and every failing delegate callback",
 "tests run three fixed aggregates without failures",
 ["src/framework/internal_aggregate_engine.cpp","src/framework/annotator_mgr.cpp","src/framework/annotator_context.cpp","src/framework/internal_capability_container.cpp","src/framework/taespecifier.cpp"],
 [("AnnotatorManager flow","src/framework/annotator_mgr.cpp"),("sofa mapping and parameter lookup","src/framework/annotator_context.cpp")],
 None,["recorded history of delegate callbacks vs model"])

p("E03","A CAS pool never lends one CAS twice and loses none",
 "A pool of N CASes lends at most N at a time, never the same CAS to two holders, refuses further requests with an error, and every returned CAS comes back empty and can be lent again; returning a CAS twice, or one that belongs elsewhere, is refused and does not disturb the pool. A CAS multiplier therefore yields exactly the CASes its annotator produces, in order, even if the consumer stops early or the annotator fails half way.",
 ["histories","fault_sequences"],
 "every sequence of borrow/return by several holders, wrong returns, abandoned iterations and annotator failures",
 "one example multiplier is iterated to its end once",
 ["src/framework/caspool.cpp","src/framework/casiterator.cpp","src/framework/annotator_context.cpp"],
 [("CASPool","src/framework/caspool.cpp"),("CASIterator","src/framework/casiterator.cpp")],
 [("free/used lists","which CASes are lent","src/framework/caspool.cpp")],["pool model"])

p("E04","Configuration parameters reach the annotator as configured",
 "What a context answers for a parameter is what the descriptors say: the value set for the requested group, or found along the group's search strategy (none, default, language fallback), in the outermost enclosing aggregate that sets it and is not restricted to other delegates, with exactly its type and multiplicity; anything else is refused without changing the caller's variable. A value assigned through a context is what every context that shares the parameter finds from then on, a refused or failed assignment changes nothing, and engines do not see each other's values.",
 ["inputs","histories","fault_sequences","schedules"],
 "every tree of declarations, groups, settings, restrictions and overrides, and every sequence of lookups, assignments and reconfigurations on it",
 "the test annotators read a few parameters of their own descriptors",
 ["src/framework/annotator_context.cpp","src/framework/taespecifier.cpp","src/framework/config_param.cpp","src/framework/taespecifierbuilder.cpp"],
 [("AnnotatorContext::extractValue","src/framework/annotator_context.cpp"),("AnalysisEngineMetaData::getNameValuePair","src/framework/taespecifier.cpp"),("XMLParser::buildConfigParams","src/framework/taespecifierbuilder.cpp")],
 [("iv_configurationSettings","the values in force","src/framework/uima/taespecifier.hpp")],["lookup and assignment rules"])

p("E05","A descriptor written out describes the same engine",
 "Whatever an analysis engine description was read from, and whatever was assigned since, writing it out gives a well-formed XML document that says the same: names and texts, parameters with types, groups, restrictions and settings in force, flow, types, features, allowed values, priorities, indexes, capabilities, operational properties, delegates and sofa mappings; reading it again gives the same description. A part imported from a file counts once, under whatever names and along whatever chain of imports it is reached, and several delegates may share one file. The metadata a service reports is written the same way.",
 ["inputs","histories","schedules","fault_sequences"],
 "every description with any texts XML allows, spread over imported files, written by several threads at once or while memory is short",
 "no test writes a descriptor",
 ["src/framework/taespecifier.cpp","src/framework/taespecifierbuilder.cpp","src/framework/typesystemdescription.cpp"],
 [("AnalysisEngineDescription::toXMLBuffer","src/framework/taespecifier.cpp"),("XMLParser::buildAnalysisEngineDescription","src/framework/taespecifierbuilder.cpp")],
 [("AnalysisEngineDescription","what an engine is made from","src/framework/uima/taespecifier.hpp")],["independent reader of descriptors"])

p("R01","Engines used by different threads do not affect each other",
 "When several threads each create, use, reconfigure and destroy their own engines, descriptors, type systems and CASes at the same time, each obtains exactly the results it would obtain alone, under every interleaving, and nothing crashes or hangs.",
 ["schedules"],
 "every interleaving, at basic-block granularity, of threads working on disjoint engines and CASes",
 "no test starts a second thread",
 ["src/framework/taespecifierbuilder.cpp","src/framework/resmgr.cpp","src/framework/engine.cpp","src/framework/log.cpp","src/cas/internal_fspromoter.cpp"],
 [("per-engine state; the shared resource manager singleton","src/framework/resmgr.cpp")],
 None,["digest of each thread's results vs the same program run alone"])

p("R02","Log messages are delivered whole, once and to every logger",
 "Every message any thread logs at or above the level in force when its log facility was made is delivered exactly once to each registered logger with its own text, origin and severity, in each thread's order; messages below that level are not delivered. A logger that fails does not block or lose later messages, and the log file contains each message whole.",
 ["schedules","fault_sequences"],
 "every interleaving of threads logging, registering and unregistering loggers and changing levels, and every failing logger call",
 "tests log from one thread to one well-behaved logger",
 ["src/framework/log.cpp","src/framework/resmgr.cpp"],
 [("log mutex","src/framework/log.cpp")],
 None,["recorded deliveries per logger"])

p("R03","The resource manager can be created, shared, torn down and recreated",
 "While it exists, every thread sees the one resource manager and obtains the same instance for the same annotator resource, and registrations (loggers, stream handlers, directories, level) stay as set; after it is deleted and created again everything works as after the first creation, any number of times, and nothing of the former instance is used.",
 ["histories","schedules"],
 "every sequence of create/use/delete/recreate, and every interleaving of concurrent requests for the same resources",
 "each test program creates one resource manager and deletes it at exit",
 ["src/framework/resmgr.cpp","src/framework/res_abase.cpp","src/framework/res_annotator.cpp","src/framework/log.cpp"],
 [("singleton and resource cache","src/framework/resmgr.cpp")],
 None,["instance identity, behaviour after recreation, memory-safety instrumentation"])

p("S01","The service answers every request exactly once, to the right sender",
 "Every well-formed request the service takes from its queue gets exactly one reply, sent to the destination that request names, carrying that request's CAS reference and command, and either the correct result or an error; requests that are not well-formed are answered with an error or ignored, never with a result. This holds for every interleaving of service instances and whatever other requests are in flight.",
 ["schedules","fault_sequences"],
 "every interleaving of service threads and every mixture of valid, malformed and failing requests and annotator faults",
 "the service is not even compiled by the test suite",
 ["src/utils/ActiveMQAnalysisEngineService.cpp","src/utils/ActiveMQAnalysisEngineService.hpp"],
 [("AMQListener::handleRequest/sendResponse","src/utils/ActiveMQAnalysisEngineService.cpp")],
 None,["messages recorded by the simulated broker"])

p("S02","A reply's content is the result for that request's CAS alone",
 "A successful process reply contains the analysis of exactly the CAS sent in that request - what a fresh engine would produce for it alone - and retains the sender's ids and data the service does not know; nothing of earlier, concurrent or failed requests appears in it.",
 ["schedules","fault_sequences","histories"],
 "every order and interleaving of requests over all service instances, including requests that failed half way on the same instance",
 "the service is not even compiled by the test suite",
 ["src/utils/ActiveMQAnalysisEngineService.cpp","src/cas/xmideserializer_handler.cpp","src/cas/xmiwriter.cpp"],
 [("CAS reset per request, shared XMI data","src/utils/ActiveMQAnalysisEngineService.cpp")],
 None,["reply payload vs the same request processed alone"])

p("S03","The service survives loss of its broker connections and resumes",
 "When the connection to the broker or to a reply destination fails at any moment after start-up, the service does not crash or end, and once the broker is reachable again it reconnects and resumes taking and answering requests within a bounded time; at most the requests in flight at the failure go unanswered.",
 ["fault_sequences","schedules"],
 "every placement of connection failures, failed reconnects and failed sends relative to the service's threads",
 "the service is not even compiled by the test suite",
 ["src/utils/ActiveMQAnalysisEngineService.cpp"],
 [("AMQConnection reconnect, exception listeners","src/utils/ActiveMQAnalysisEngineService.cpp")],
 None,["broker log, progress within a simulated-time bound after the last fault"])

p("S04","The service always stops when told to, and lets work finish when quiescing",
 "A shutdown or quiesce order - over the control connection or its loss, by signal, or by as many errors as configured - issued at any moment, including during start-up, processing or reconnection, makes the service end within a bounded time without crashing; a quiesce lets requests being processed finish and be answered, and takes no new ones.",
 ["schedules","fault_sequences"],
 "every moment of the order relative to all service threads and connection states",
 "the service is not even compiled by the test suite",
 ["src/utils/deployCppService.cpp","src/utils/deployCppService.hpp","src/utils/ActiveMQAnalysisEngineService.cpp"],
 [("Monitor condition, SocketLogger/command handler","src/utils/deployCppService.hpp")],
 None,["process end within a simulated-time bound"])

p("S05","Service statistics count every request exactly once",
 "The statistics the service reports over its control connection agree with what it did: each well-formed request completed is counted once, as success or error, under its command, its times are never negative, a reset starts from zero, and its status says that it is running, under every interleaving of service instances with statistics requests.",
 ["schedules","fault_sequences"],
 "every interleaving of instances completing requests with statistics and reset commands, and every split of the command bytes",
 "the service is not even compiled by the test suite",
 ["src/utils/deployCppService.hpp","src/utils/deployCppService.cpp"],
 [("Monitor counters under its mutex","src/utils/deployCppService.hpp")],
 None,["reported statistics vs broker log"])

p("U01","The command-line runner processes every document once and reports failures",
 "The command-line runner processes each input document exactly once and writes its result, and it ends with a failure status if the engine cannot be created or any document could not be read, processed or its result written.",
 ["fault_sequences"],
 "every file read, analysis or output write that fails",
 "the example scripts run it on good input only",
 ["src/utils/runAECpp.cpp"],
 [("main loop and error handling","src/utils/runAECpp.cpp")],
 None,["exit status and output files"])

p("N01","Language codes compare by the documented matching rules",
 "Two language codes match exactly when their language parts agree and their territories agree or one is unspecified, for all codes.",
 ["inputs"],"every pair of codes","a few pairs are tested",
 ["src/framework/language.cpp"],[("Language","src/framework/language.cpp")],None,None)

p("N02","Code-page conversion preserves text",
 "Converting text to a code page that can represent it and back yields the same text.",
 ["inputs"],"every string and code page","a few strings are tested",
 ["src/framework/cp2ucnvrt.cpp","src/framework/u2cpcnvrt.cpp"],[("converters","src/framework/cp2ucnvrt.cpp")],None,None)

p("N03","The Java bridge maps native results and failures to Java faithfully",
 "Each native call from Java returns the native engine's result or raises the corresponding Java exception, with no native reference left behind.",
 ["inputs","histories"],"every call sequence from a JVM","JNI code has no tests",
 ["src/jni/jni.cpp"],[("JNI entry points","src/jni/jni.cpp")],None,None)

open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
