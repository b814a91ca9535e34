import json
P=[]
def p(id,title,statement,over,text,why,files,mech,**kw):
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech]}
    a.update({k:[{'name':v,'where':files[0]}] if k=='state' else [v] for k,v in kw.items()})
    P.append({'id':id,'title':title,'statement':statement,'quantifier':{'over':over,'text':text},'why_tests_cant':why,'anchors':a})

SV='DHParser/server.py'
p('S01','Requests are framed independently of how the transport cuts the byte stream',
 'The sequence of header-framed messages (Content-Length in bytes) that a client writes to a server connection is processed as exactly that sequence of requests - none lost, duplicated, merged, truncated or altered - however the transport splits, coalesces or delays the bytes, and also if the client shuts down its sending side right after the last byte. Every complete request of the stream is answered as if it had arrived alone.',
 ['schedules','fault_sequences','inputs'],'all message sequences (JSON-RPC and plain payloads, multi-byte text, payloads that themselves contain header-like text, header variants) x all segmentations, delays and coalescings of the byte stream, with and without half-close',
 'The only test of chunking (which is not even part of the default test run) uses three hand-picked splits on localhost, where the kernel decides how bytes are coalesced.',
 [SV],[('Server.handle (buffering loop)',SV),('incomplete_header / split_header / read_full_block',SV)],
 observe_at='responses received by the client per request')
p('S02','Exactly one response per request, carrying its id and its own result',
 'While a connection stays open, every JSON-RPC request a client sends is answered by exactly one response bearing the same id, which is either the result of that very call or an error, no matter how many requests are in flight, in which order they finish, whether they run directly, in threads or in processes, and whether procedures raise, fail, return null or return unserialisable values. Notifications (messages without id) never receive a result, and a bad request never keeps other requests from being answered.',
 ['schedules','inputs','fault_sequences'],'all interleavings of concurrently running remote procedures, all request ids (integers, strings, duplicates), parameter shapes and failure kinds',
 'Tests send one or two well-formed requests with fixed sleeps; completion order, id reuse and failures under concurrency depend on the scheduler.',
 [SV],[('Server.handle / handle_jsonrpc_request',SV),('Connection.create_task / task_done',SV),('ExecutionEnvironment.execute',SV)],
 observe_at='byte stream received by the client')
p('S03','Everything the server sends can be decoded by a standard client',
 'The byte stream a client receives is a sequence of complete messages: each length header states the exact number of bytes of its body, each JSON-RPC message is valid JSON in UTF-8 with either a result or an error, and concurrent responses are never interleaved. This holds whatever text (quotes, control characters, non-ASCII) occurs in requests, results or error messages and also under back-pressure from a slow client.',
 ['inputs','schedules','fault_sequences'],'all request and result texts, error paths, plain/framed/HTTP request forms, and all write interleavings with a slow or stalling reader',
 'Unit tests use ASCII payloads and never look at the raw stream; byte/character length confusion and unescaped error texts only show for particular texts.',
 [SV],[('Server.respond',SV),('handle_plaindata_request.respond',SV),('error response construction in Server.handle',SV),('http_response',SV)],
 observe_at='byte stream received by the client')
p('S04','The language-server life cycle is enforced for every message history',
 'Before initialization has been requested and confirmed and after shutdown has been requested, ordinary language-server calls are refused with the protocol error codes and do not reach their procedure; initialization cannot succeed twice and cannot be confirmed out of order; a new connection starts uninitialized; exit ends the connection. Calls in the initialized state always reach their procedure.',
 ['histories','schedules'],'all sequences of initialize, initialized, shutdown, exit, ordinary calls and malformed variants, sent with arbitrary timing on one or several successive connections',
 'Tests walk through two fixed sequences; the property is about every history and about requests that overlap in time.',
 [SV],[('Connection.verify_initialization',SV),('Server.handle',SV)],
 state='connection life-cycle flags',observe_at='responses and procedure invocations')
p('S05','One primary client at a time; the server becomes free again after any disconnect',
 'At any time at most one client has full access; further connections can only issue one service call (or stop request), are answered or refused, and are then closed without disturbing the primary client. However the primary connection ends - orderly, half-closed, reset, exit, mid-request or mid-message - the server accepts the next client as primary with fresh state within bounded time.',
 ['schedules','fault_sequences','histories'],'all interleavings of connects, requests, half-closes, resets and disconnects of several clients, at every point of a request',
 'Tests use at most two orderly connections on a fast loopback; disconnects in the middle of requests depend on timing.',
 [SV],[('Server.handle',SV),('Connection',SV),('Server.amend_service_call',SV)],
 state='the connection object of the server',observe_at='which connections get full service')
p('S06','A stop request always terminates the server in bounded time',
 'After a stop request in any supported form (plain, framed, HTTP, JSON-RPC) from the primary or from a further connection, the server answers it, refuses new connections and its run method returns within bounded time, whatever requests are in flight, idle connections are open or clients are slow. Afterwards the server is offline and can be started again on the same port.',
 ['schedules','fault_sequences','configurations'],'all forms of stop request x all sets of in-flight work and open connections x all timings',
 'Tests stop an otherwise idle server; termination with hanging tasks, idle second connections or partial messages is a liveness property over schedules.',
 [SV],[('Server.handle (kill switch)',SV),('Server.serve / run_tcp_server',SV),('Connection.cleanup',SV)],
 state='server stage',observe_at='run_tcp_server returns; connection refused')
p('S07','Requests survive the death of a worker process',
 'If a worker of the process pool dies while requests are being executed, each affected request is retried on a fresh pool and answered with its result, or answered with an error if the retry fails as well; no request hangs, is executed by a broken pool forever, or is answered twice. Later requests are served normally - also if the worker died while it was idle or while it ran a job that does not stem from a request, as in generated server scripts.',
 ['crash_points','schedules'],'all points at which worker processes can die, alone or repeatedly, with any number of requests pending',
 'No test kills a worker process; recovery code only runs when a crash coincides with pending requests.',
 [SV],[('ExecutionEnvironment.execute',SV),('ExecutionEnvironment.shutdown',SV)],
 observe_at='responses received by the client')
p('S08','Answers to server-initiated requests reach the task that asked',
 'When several server-side tasks send requests to the client and wait for the answers, each task receives exactly the client\'s answer with its own id - results and errors, including null, false, 0 and empty answers - in whatever order and with whatever delay the client answers. Answers nobody is waiting for, or that arrive before initialization or after shutdown, neither disturb other requests nor end the connection.',
 ['schedules','histories','inputs'],'all orders, delays and values of client answers x all sets of concurrently waiting server tasks',
 'There is no test for server-initiated requests with more than one outstanding call.',
 [SV],[('Connection.put_response / client_response',SV),('Server.handle',SV)],
 observe_at='value returned to the awaiting server-side procedure')
p('S09','Client-side helpers give a correct verdict within their timeout',
 'Connecting, probing, stopping and waiting-for-stop helpers terminate within (a small factor of) the timeout they are given and report the truth: a helper that reports success has really reached the state it reports, a server that comes up within the timeout is connected to, and transient connection errors are retried; when detaching a server has succeeded, the detached server answers (and has replaced a server that had been running on the same port before). This holds for servers that start late, stop late, never answer, reset connections or are not there at all.',
 ['schedules','fault_sequences'],'all timings of server start-up and termination relative to the helper calls x connection refusals, resets and silent servers',
 'Tests only exercise helpers against an immediately available server; timeouts would need real waiting.',
 [SV],[('asyncio_connect',SV),('probe_tcp_server',SV),('has_server_stopped',SV),('stop_tcp_server / send_stop_server',SV),('detach_server',SV)],
 observe_at='return value / exception and elapsed virtual time')
p('S10','Stream transports deliver all bytes, in order, exactly once',
 'The in-memory streams and the stream proxies through which a server can talk over pipes deliver to the reader exactly the bytes written, in order, without loss or duplication, for any mixture of read, readline and writes in different threads; end-of-file is reported only after all data has been read, and a blocked reader wakes up when data or end-of-file arrives. A server run over such streams answers like one run over TCP and terminates on a stop request or end-of-file.',
 ['schedules','inputs'],'all interleavings of writer and reader threads x all sizes of writes and reads x all moments of closing',
 'The tests write a few fixed strings with the reader and the writer in lock-step.',
 [SV,'DHParser/testing.py'],[('MockStream','DHParser/testing.py'),('StreamReaderProxy / StreamWriterProxy',SV),('read_full_block',SV),('Server.run_stream_server',SV)],
 observe_at='bytes returned to the reader')
p('S11','Pages are served completely, up to date and only from released directories',
 'A request for a page is answered with the complete content which the page has at that time, with the empty string if and only if the checksum contained in the request is the checksum of that content, or with an error page, if the page does not exist or if its directory has not been released for access. I/O-errors, crashes and other servers that serve the same directory at the same time may lead to an error, but never to outdated or incomplete pages; the list of checksums in the directory stays complete, and requests succeed again when the faults have gone.',
 ['histories','fault_sequences','crash_points','schedules'],'all histories of edits and requests with and without older checksums x all I/O-failures and crash points x concurrent servers x all kinds of requests',
 'There are no tests of the page service at all.',
 [SV],[('Server.rpc_serve_page',SV),('Server.amend_service_call / handle_http_request',SV)],
 state='DHParser.allow',observe_at='answers; content of the list of checksums')

ST='DHParser/templates/DSLServer.pyi'
p('S12','Commands of server scripts yield complete answers from the right server',
 'If a command of a generated server script (compile a document, several documents or directories, call a service, start, query or stop the server in the background) succeeds, the output (or, for several documents, the output directory, named relative to the working directory of the command) is the complete result of those very documents or of that call by a server of this language, however long it is, however the connection delays or splits the data and whatever other programs, servers of other languages, outdated, empty or damaged address files it meets on its way; "stop" never stops a server of another language, stops its own server and removes its address. If no other command runs at the same time, the server starts in time and no other program keeps the address recorded for this server, the command does succeed - also if worker processes of the server have died before - unless the server has failed to compile the document, which is never reported as a success; otherwise it ends in bounded time with a message and exit code, never with a traceback.',
 ['histories','schedules','fault_sequences'],'all sequences of commands (also overlapping ones) x states of the address file x other programs on the same ports x start-up times x segmentations and delays',
 'The test of the generated scripts runs one command with a short document on an undisturbed machine.',
 [ST,SV],[('start_server_daemon / connect_to_daemon',ST),('send_request / read_response / single_request',ST),('run_server (alternative ports, address file)',ST),('Server.handle / handle_plaindata_request',SV)],
 state='address file of the server script',observe_at='output and exit code of the commands; set of running servers')

CF='DHParser/configuration.py'
p('C01','Configuration values are thread-isolated and can be accessed from any thread',
 'A configuration value set in one thread is seen by that thread from then on and by no other thread; a thread that has not set a value sees a preset that was in force at or after its first access to the configuration, and sticks to it. Reading and writing configuration values and presets concurrently from any number of threads, under every interleaving, never raises, deadlocks or yields a value that no one has set.',
 ['schedules'],'all interleavings of configuration reads, writes, preset changes and bulk reads in several threads',
 'Tests use one thread at a time; races in lazy initialization need particular preemption points.',
 [CF],[('access_thread_locals / get_config_value / set_config_value',CF),('access_presets / set_preset_value / finalize_presets',CF),('get_config_values',CF)],
 state='thread-local configuration cache, shared presets',observe_at='values returned by the API')
p('C02','A failed or interrupted preset update never wedges or corrupts configuration',
 'If writing, loading or synchronizing configuration presets fails or is interrupted - invalid value, malformed or unreadable file, full disk, denied access, interrupt, crash - the error surfaces to the calls made while the cause persists and to no other: later accesses from any thread or process work, and they see either the old or the new presets, complete and valid. Of several configuration files of the same name, those in the directory of the script, at the given path, in the configuration directory of the user and in the working directory override each other in this order. Presets cannot be changed or closed by someone who has not opened them. Values that violate the declared validity constraints are never stored.',
 ['crash_points','fault_sequences','histories'],'all I/O failures and crash points during preset access x all later operations, in this process and in a restarted one',
 'Tests never inject I/O errors or crashes into the preset files.',
 [CF],[('access_presets / finalize_presets',CF),('read_local_config / ingest_config_data',CF),('validate_value / set_preset_value',CF)],
 state='preset sync-file, access flag',observe_at='values returned by the API after the failure')
p('C03','Thread-local singletons: one instance per thread, never shared',
 'A thread-local singleton factory hands out one and the same object to all calls from the same thread and different objects to different threads, for every interleaving of the first calls; distinct factories never hand out each other\'s objects. Hence parsers, transformers and compilers obtained this way are never used by two threads at once.',
 ['schedules'],'all interleavings of first and later factory calls from several threads and several factories',
 'Tests call factories sequentially; the races are in lazy initialization.',
 ['DHParser/toolkit.py'],[('ThreadLocalSingletonFactory','DHParser/toolkit.py')],observe_at='identity of returned objects')
p('C04','Concurrent parsing, transforming and compiling equals sequential processing',
 'Any number of threads that parse, transform and compile documents at the same time - each with its own grammar object or through the documented per-thread factories - obtain for every document exactly the tree, result and error list that processing the document alone yields, under every interleaving. The same holds for threads that serialize, split or mark up trees of their own: chain-IDs are never handed out twice to the same thread. No run raises an exception that the sequential run does not raise.',
 ['schedules','inputs'],'all preemptive interleavings of parser construction, parsing (memoization, left recursion, error recovery), transformation and compilation in several threads x documents',
  'Tests are sequential; process-wide mutable state in classes only interferes at particular preemption points.',
 ['DHParser/parse.py','DHParser/compile.py','DHParser/transform.py','DHParser/ebnf.py','DHParser/dsl.py'],[('Grammar.__call__ / Grammar.__init__','DHParser/parse.py'),('Compiler.__call__','DHParser/compile.py'),('grammar factories','DHParser/dsl.py')],
 state='class attributes of grammar and parser classes',observe_at='trees and error lists')

PA='DHParser/parse.py'
p('P01','The result of a parse does not depend on what the parser object did before',
 'For any history of earlier calls on the same grammar object - successful or failing parses, parses from other start symbols, cancelled parses, parses aborted at an arbitrary point by an exception or an interrupt, parses with tracing or history recording switched on - the next parse returns exactly the tree and the errors that a fresh grammar object returns. The input document alone decides the result.',
 ['histories','crash_points','fault_sequences'],'all call histories on a grammar object x all points at which a call can be aborted by an exception, interrupt, recursion limit or cancellation',
 'Tests use fresh parsers or short fixed histories; aborts at arbitrary points cannot be produced by unit tests.',
 [PA,'DHParser/trace.py'],[('Grammar.__call__ / Grammar.reset__',PA),('Parser.__call__ memoization',PA),('Forward left-recursion state',PA),('Retrieve/Pop variable stacks',PA),('set_tracer','DHParser/trace.py')],
 state='memoization dictionaries, variable stacks, rollback stack, history',observe_at='tree and error list of the next parse')
p('P02','A cancelled parse stops promptly and says so',
 'If cancellation is requested at any moment of a parse, the parse returns (without raising) after a bounded amount of further work with a tree and with exactly one cancellation error among its errors; without a cancellation request no such error appears and the result is unaffected. The parser object remains usable.',
 ['schedules','crash_points'],'all moments at which the cancellation query can turn true x grammars and documents',
 'The tests cancel at one or two fixed moments.',
 [PA],[('Grammar.__call__ cancel_query',PA),('CancelError handling',PA)],observe_at='returned tree, errors, number of queries after the request')
p('P03','Compilers and transformers are reusable after failures and cancellation',
 'A compiler or transformer object that has been used before - successfully, with an error, cancelled, or aborted by an exception or interrupt at any point - yields for the next tree exactly the result and errors that a fresh object yields. A cancellation request is noticed at every node that is compiled and between the stages of a compilation; it ends the run and is reported exactly once, if and only if it was granted, and no cancellation query is asked again after its call has ended.',
 ['histories','crash_points'],'all call histories on a compiler or transformer object x all abort points x all cancellation moments',
 'Tests create a new compiler for each case.',
 ['DHParser/compile.py','DHParser/transform.py'],[('Compiler.__call__ / reset','DHParser/compile.py'),('traverse / transformer','DHParser/transform.py')],observe_at='result and error list of the next run')
p('P05','Pipelines produce the same results in every order and on one or many workers',
 'Running a processing pipeline yields for every requested target the result and errors that running its stages one after the other by hand yields, independently of the order in which junctions and targets are listed or hashed, of other targets requested at the same time, and of earlier runs in the same thread; intermediate results requested as targets are not changed by later stages. A cancelled run returns promptly with a cancellation error, and a failing stage affects only the targets that depend on it.',
 ['schedules','configurations','histories'],'all junction orders and hash orders x target sets x cancellation moments x stage failures x earlier runs',
 'Tests run one pipeline in one order; hash-order and history dependence stay invisible.',
 ['DHParser/pipeline.py'],[('run_pipeline','DHParser/pipeline.py'),('junction factories','DHParser/pipeline.py')],observe_at='dictionary of targets')
p('P06','Batch processing handles every document exactly once',
 'Processing a batch of documents with any number of workers processes each document exactly once, returns the outcome of each, and writes the same output files as processing them one by one, for every completion order. If a worker raises an exception or dies, the call raises this failure; if the batch is cancelled, the call returns; in both cases it ends only after all running work has ended, nothing is processed afterwards, and every document that has been reported as processed has its complete output and, if it had errors, is among the returned error files.',
 ['schedules','crash_points','fault_sequences'],'all completion orders and worker counts x failures and worker deaths x cancellation moments',
 'Tests run a handful of documents on whatever schedule the machine happens to produce.',
 ['DHParser/dsl.py','DHParser/toolkit.py'],[('batch_process','DHParser/dsl.py'),('instantiate_executor / MultiCoreManager','DHParser/toolkit.py')],observe_at='returned results and output files')

DS='DHParser/dsl.py'
p('D01','Regenerating a parser script never loses hand-written code',
 'When a parser script is regenerated after a grammar change, everything the user wrote in the sections reserved for hand-written code survives byte for byte and the generated sections correspond to the new grammar. If regeneration fails or is interrupted at any point - errors in the grammar, an unreadable or malformed existing script, read or write errors, a full disk, a crash - the existing script or a complete backup of it remains on disk.',
 ['crash_points','fault_sequences','histories'],'all crash points and I/O failures during regeneration x all edits of the hand-written sections x all sequences of regenerations',
 'Tests regenerate once under ideal conditions.',
 [DS],[('compile_on_disk',DS)],state='the parser script on disk',observe_at='file content after success, failure or crash')
p('D02','A recompile leaves the parser script up to date or untouched, and recovers later',
 'After a successful recompile the parser script on disk implements the present grammar, and a repeated recompile without changes does not touch it; the message file beside the grammar reports the errors and warnings of the last compilation. If compilation fails or is interrupted by I/O errors or a crash, the call reports it, and once the cause is removed the next recompile brings the script up to date - a stale, partial or empty script is never mistaken for a current one.',
 ['crash_points','fault_sequences','histories'],'all crash points, I/O errors and grammar edits (valid and invalid) x all sequences of recompiles',
 'Tests recompile one valid grammar once or twice.',
 [DS],[('recompile_grammar / grammar_changed',DS)],state='parser script, error report file, modification times',observe_at='files after each step')
p('D03','Cached data is never wrong: damaged or stale caches are rebuilt',
 'Loading a resource through the on-disk cache always returns the value computed from the current source, even if the cache file is stale, truncated, corrupted, unreadable, being written by another thread or process, or cannot be written at all. A damaged cache costs time but never raises and never yields wrong data.',
 ['crash_points','fault_sequences','schedules'],'all truncations and corruptions of the cache file, I/O errors on reading and writing it, crashes while writing, concurrent loaders, source changes',
 'Tests call the loader at most twice on an intact file system.',
 ['DHParser/toolkit.py'],[('cached_load','DHParser/toolkit.py')],state='cache files',observe_at='returned value')
p('D04','Processing a file leaves complete outputs or a report, never silent damage',
 'Processing a source file to an output directory writes the complete result, or an error report, or reports failure; a failed or interrupted run does not present an incomplete or outdated result as successful, and a later run without faults yields exactly the output of a first-time run. The script that reformats XML-documents likewise leaves every document in its old or its complete new form, and never touches documents if it shall write to an output directory.',
 ['crash_points','fault_sequences','histories'],'all I/O failures and crash points while reading sources and writing results x all earlier runs',
 'Tests never inject I/O errors.',
 [DS,'DHParser/scripts/XMLreflow.py'],[('process_file / compile_source',DS),('write_file',DS),('main / process_file of the script XMLreflow','DHParser/scripts/XMLreflow.py')],state='output and error files',observe_at='files and return value')
p('D06','Grammar test suites give the same verdict sequentially and in parallel',
 'Running a grammar test suite reports the same set of failures and the same reports whether the test files are run one after the other or by any number of parallel workers in any completion order, and independently of suites run before. Working directory and configuration of the caller are the same before and after the call, also if it is aborted by an error or an interrupt.',
 ['schedules','crash_points','histories'],'all completion orders and worker counts x failing, malformed and unreadable test files x abort points',
 'The tests run suites of one or two files sequentially.',
 ['DHParser/testing.py'],[('grammar_suite / grammar_unit','DHParser/testing.py')],state='working directory, configuration values, report files',observe_at='returned report; caller environment')
p('D07','Log files contain every record exactly once',
 'When several threads write log records - including the first records, which create log directory and file - every record ends up in the log exactly once, in one piece, and records of one thread in the order in which they were written; creating, suspending and resuming logs never destroys records of others, and clearing the logs removes logs and nothing else. Failing to write the log never changes the result of the logged operation beyond a reported error.',
 ['schedules','fault_sequences'],'all interleavings of log creation and appending in several threads x I/O failures',
 'Tests log from one thread.',
 ['DHParser/log.py'],[('create_log / append_log','DHParser/log.py'),('start_logging / suspend_logging / resume_logging','DHParser/log.py')],state='log files',observe_at='content of log files')
p('D08','Includes are resolved completely or reported, whatever the file system does',
 'Preprocessing a document with nested includes yields the document with every include replaced by the content of its file and positions mapping back to the right file, or an error naming the include - missing, unreadable, changing and circular includes are reported and never silently dropped, never repeated and never loop. A file that could not be read once is included correctly when it becomes readable again.',
 ['fault_sequences','inputs','histories'],'all include graphs x all I/O failures at each file access x repeated runs',
 'Tests include existing files only, plus one circular case.',
 ['DHParser/preprocess.py'],[('generate_include_map / preprocess_includes','DHParser/preprocess.py')],observe_at='preprocessed text, mapping and errors')
p('D09','Creating a project never destroys existing files and can be resumed',
 'Creating a project in a directory writes a complete set of project files and never overwrites or deletes a file that already exists; if it is interrupted or fails at any point, repeating it completes the project.',
 ['crash_points','fault_sequences','histories'],'all crash points and I/O errors during project creation x all pre-existing files',
 'Project creation is only tested once in an empty directory.',
 ['DHParser/scripts/dhparser.py',DS],[('create_project','DHParser/scripts/dhparser.py')],state='project directory',observe_at='files after each attempt')

SP='DHParser/templates/DSLParser.pyi'
p('D10','Parser scripts yield the results of the present grammar or say why not',
 'A run of a generated parser script that ends with exit code 0 has yielded - on the terminal or in the output directory - exactly the results and messages which the present grammar and the present hand-written code of the script prescribe for the documents, in the format and for the target chosen, wherever the script is called from, however the documents are passed and whatever other runs, edits of the grammar, I/O-errors or crashes came before; also if several processes call it at the same time. Errors in documents, in the grammar or on the command line are reported and end the run with another exit code, without a traceback; the script on disk stays intact, and once the faults have gone, it works again. Its functions for other programs do the same and can be cancelled.',
 ['histories','fault_sequences','crash_points','schedules'],'all sequences of grammar edits and runs x all command lines x all I/O-failures and crash points x concurrent runs',
 'The tests run a generated script once or twice with an unchanged grammar on an intact disk.',
 [SP,DS,'DHParser/error.py'],[('main / compile_src / process_file of the generated script',SP),('recompile_grammar / grammar_changed / batch_process',DS),('canonical_error_strings','DHParser/error.py')],
 state='parser script, grammar and message file on disk',observe_at='output, exit code and output files of the script')
TS='DHParser/templates/tst_DSL_grammar.pyi'
p('D11','Grammar-test scripts report exactly the failing tests of the present grammar',
 'If a run of the grammar-test script of a project ends with exit code 0, the present grammar has been compiled and all chosen tests pass with it, whatever earlier versions of grammar and tests, earlier runs, I/O-errors or crashes came before, from wherever the script is called and whether the test files run one after the other or in parallel. Otherwise, on an intact disk, the run names exactly the failing tests - with reports and parsing histories - or the errors of the grammar, and ends with exit code 1. Every section of the grammar gets exactly one test file, numbered by its place; the tests, the scripts and the hand-written code of the user survive every run, error and crash, and once the faults have gone, the script works again.',
 ['histories','fault_sequences','crash_points'],'all sequences of edits of grammar, sections, tests and scripts and of runs x all command lines x all I/O-failures and crash points',
 'The tests never run the generated test script on a changed grammar or on a failing disk.',
 [TS,'DHParser/testing.py',DS],[('recompile_grammar / run_grammar_tests of the generated test script',TS),('create_test_templates / extract_symbols / grammar_suite / get_report','DHParser/testing.py'),('recompile_grammar / create_scripts',DS)],
 state='grammar, tests, reports and scripts on disk',observe_at='output and exit code of the script; files of the project')

AP='DHParser/templates/DSLApp.pyi'
p('D12','The generated application shows what has been compiled, never damages files',
 'Whatever a user does with the generated GUI-application, in whatever order, at whatever moments and however long the compilation takes: no operation ends in an exception, at most one compilation is running at any time, and a compilation that has not been canceled ends with exactly its own results and error messages displayed for the chosen stage and format. Cancellation is reported and the former results are not replaced by partial ones; if the user declines to cancel (or to close the application), the compilation continues. When several files are compiled, the output of every one of them is the same as if it had been compiled alone. Saving a source, a result, a test case or a configuration - even if the disk fails or the process dies meanwhile - leaves no file incomplete and changes no other file; unreadable files are reported. When everything has come to an end, the application accepts the next compilation.',
 ['schedules','histories','fault_sequences','crash_points'],'all sequences of user actions and their timing x all durations of compilation stages x all I/O-failures and crash points while saving',
 'The tests never run the generated application.',
 [AP,'DHParser/templates/DSLParser.pyi','DHParser/pipeline.py','DHParser/testing.py',DS],[('DSLApp.on_compile / compile_single_unit / poll_worker / on_cancel / on_pick_source',AP),('DSLApp.on_save_source / on_save_result / on_export_test',AP),('batch_process',DS)],
 state='contents and states of the widgets, worker thread, files of the user',observe_at='widgets after the events have been processed; files')

ND='DHParser/nodetree.py'
def na(id,title,st,text,files,mech):
    p(id,title,st,['inputs'],text,'Tests sample a few inputs; the property is over all inputs.',files,mech)
na('N01','Tree serialisations round-trip','Serialising a syntax tree as S-expression, XML, JSON or as data object and reading it back yields an equal tree, including attributes and positions where the format carries them.','all trees',[ND],[('Node.as_sxpr / as_xml / as_json and parse_*',ND)])
na('N02','Parsing preserves content','The string content of a parse tree (without dropped parts) concatenates to the parsed document, and node positions are monotone.','all grammars and documents',[PA],[('Grammar.__call__',PA)])
na('N03','String views behave like strings','A string view behaves exactly like the corresponding slice of the underlying string in every operation it supports.','all strings, slices and operations',['DHParser/stringview.py'],[('StringView','DHParser/stringview.py')])
na('N04','Positions and source mappings are exact','Line and column of any position and mapped source positions denote the same character as the position in the processed text.','all texts and positions',['DHParser/toolkit.py','DHParser/preprocess.py'],[('line_col / source_map','DHParser/preprocess.py')])
na('N05','EBNF dialects are equivalent','The same grammar written in any of the supported EBNF dialects compiles to parsers that accept the same documents with the same trees.','all grammars',['DHParser/ebnf.py'],[('EBNFGrammar, EBNFCompiler','DHParser/ebnf.py')])
na('N06','Tree transformations preserve content','The predefined tree transformations keep the content they do not explicitly discard and preserve the well-formedness of trees.','all trees and transformation tables',['DHParser/transform.py'],[('traverse and transformation functions','DHParser/transform.py')])
na('N07','Content mappings locate text correctly','Mapping a string position to a path and offset in a tree and marking up ranges keeps the text unchanged and locates the same character.','all trees, positions and ranges',[ND],[('ContentMapping',ND)])
na('N08','Memoization and left-recursion support do not change the recognised language','Packrat memoization and left-recursion handling never change the result of a parse as against plain recursive descent on grammars where both are defined.','all grammars and documents',[PA],[('Parser.__call__, Forward',PA)])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,sch)
print(len(P),[ (x['id'],len(x['title'])) for x in P if len(x['title'])>80])
