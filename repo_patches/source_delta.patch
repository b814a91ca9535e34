From 51a1bf05d396fc40607028421da1fa65fe8a7f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:41 +0000
Subject: [PATCH 001/101] fix: route client responses to the task waiting for
 that id

Responses of the client to server requests were handed to whichever task
asked first; null, 0 and false results were taken for malformed messages,
and responses without initialization killed the connection handler.
---
 DHParser/server.py | 42 ++++++++++++++++++------------------------
 1 file changed, 18 insertions(+), 24 deletions(-)

diff --git a/DHParser/server.py b/DHParser/server.py
index 2d134a1..ce2b242 100644
--- a/DHParser/server.py
+++ b/DHParser/server.py
@@ -775,12 +775,10 @@ class Connection:
         finished_tasks: a set of task id's (resp. jsonrpc id's) for tasks
                 that have been finished and should be removed from the
                 `active_tasks`-dictionary at the next possible time.
-        response_queue:  An asynchronous queue which stores the json-rpc responses
-                and errors received from a language server client as result of
-                commands initiated by the server.
-        pending_responses:  A dictionary of jsonrpc-/task-id's to lists of
-                JSON-objects that have been fetched from the response queue
-                but not yet been collected by the calling task.
+        response_queues:  A dictionary that maps the ids of the requests initiated by
+                the server to asynchronous queues which store the json-rpc responses
+                and errors received from a language server client until they are
+                collected by the calling task.
         lsp_initialized: A string-flag indicating that the connection to a language
                 sever via json-rpc has been established.
         lsp_shutdown: A string-flag indicating that the connection to a language server
@@ -798,8 +796,7 @@ class Connection:
         self.exec = exec_env             # type: ExecutionEnvironment
         self.active_tasks = dict()       # type: Dict[int, asyncio.Future]
         self.finished_tasks = set()      # type: Set[int]
-        self.response_queue = None       # type: Optional[asyncio.Queue]
-        self.pending_responses = dict()  # type: Dict[int, List[JSON_Type]]
+        self.response_queues = dict()    # type: Dict[int, asyncio.Queue]
         self.lsp_initialized = ""        # type: str
         self.lsp_shutdown = ""           # type: str
         self.log_file = ""               # type: str
@@ -835,14 +832,16 @@ class Connection:
     # server initiated LSP-calls-support
 
     def put_response(self, json_obj: JSON_Type):
-        """Adds a client-response to the waiting queue. The responses
-        to a particular task can be queried with the `client_response()`-
-        coroutine."""
+        """Adds a client-response to the queue of the request with the
+        same id. The responses to a particular request can be queried with the
+        `client_response()`-coroutine. Responses to requests which have never
+        been issued or which have already been answered will be dropped."""
         # # Already logged as received message
         # if self.log_file:
         #     self.log('RESULT: ', json_dumps(json_obj), '\n')
-        assert self.response_queue is not None
-        self.response_queue.put_nowait(json_obj)
+        queue = self.response_queues.get(json_obj.get('id', None), None)
+        if queue is not None:
+            queue.put_nowait(json_obj)
 
     async def _server_call(self, method: str, params: JSON_Type, ID: Optional[int]):
         """Issues a json-rpc call from the server to the client."""
@@ -860,18 +859,16 @@ class Connection:
         await self._server_call(method, params, None)
 
     async def server_request(self, method: str, params: JSON_Type, ID: int):
+        self.response_queues.setdefault(ID, asyncio.Queue())
         await self._server_call(method, params, ID)
 
     async def client_response(self, call_id: int) -> JSON_Type:
         """Waits for and returns the response from the lsp-client to the call
         with the id `call_id`."""
-        pending = self.pending_responses.get(call_id, [])
-        while not pending:
-            assert self.response_queue is not None
-            response = await self.response_queue.get()
-            self.pending_responses.setdefault(call_id, []).insert(0, response)
-            pending = self.pending_responses.get(call_id, [])
-        response = pending.pop()
+        queue = self.response_queues.setdefault(call_id, asyncio.Queue())
+        response = await queue.get()
+        if queue.empty() and self.response_queues.get(call_id, None) is queue:
+            del self.response_queues[call_id]
         return response
 
     # LSP-initialization support
@@ -889,7 +886,6 @@ class Connection:
             else:
                 self.lsp_initialized = LSP_INITIALIZING
                 self.lsp_shutdown = ''
-                self.response_queue = asyncio.Queue(maxsize=100)
         elif method == "initialized":
             if self.lsp_initialized == LSP_INITIALIZING:
                 self.lsp_initialized = LSP_INITIALIZED
@@ -899,7 +895,6 @@ class Connection:
         elif method == 'shutdown':
             self.lsp_shutdown = LSP_SHUTTING_DOWN
             self.lsp_initialized = ''
-            self.response_queue = None  # drop potentially non empty queue
         elif method == 'exit':
             self.lsp_shutdown = LSP_SHUTDOWN
             self.lsp_initialized = ''
@@ -1746,7 +1741,6 @@ class Server:
 
                 if rpc_error is None:
                     method = json_obj.get('method', '')
-                    response = json_obj.get('result', None) or json_obj.get('error', None)
                     if method:
                         assert isinstance(method, str)
                         if id_connection or method != 'initialize':
@@ -1761,7 +1755,7 @@ class Server:
                                     task = None
                         else:
                             rpc_error = -32002, 'server is already connected to another client'
-                    elif response is not None:
+                    elif 'result' in json_obj or 'error' in json_obj:
                         if id_connection:
                             self.connection.put_response(json_obj)
                     else:
-- 
2.43.0


From 61ae0c9ee1046f74fdd2c93c709bc60229c60392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:41 +0000
Subject: [PATCH 002/101] fix: answer every json-rpc request exactly once, with
 its own id

Ids other than integers, ids already in use, positional parameters, null
results, non-string methods, undecodable JSON and errors contained in
results left requests without an answer, answered them twice, with a wrong
id or invalid JSON, or killed the connection handler; notifications were
answered with made-up ids.
---
 DHParser/server.py | 86 +++++++++++++++++++++++++---------------------
 1 file changed, 46 insertions(+), 40 deletions(-)

diff --git a/DHParser/server.py b/DHParser/server.py
index ce2b242..b4409bb 100644
--- a/DHParser/server.py
+++ b/DHParser/server.py
@@ -389,6 +389,13 @@ MultiCoreExecutor = TypeVar('MultiCoreExecutor',
                             ProcessPoolExecutor, InterpreterPoolExecutor)
 
 
+def rpc_error_response(rpc_error: Tuple[int, str], json_id: Union[int, float, str, None]) -> str:
+    """Returns the json-rpc error-response for the request with the given id."""
+    return json.dumps({"jsonrpc": "2.0",
+                       "error": {"code": rpc_error[0], "message": rpc_error[1]},
+                       "id": json_id})
+
+
 class ExecutionEnvironment:
     """Class ExecutionEnvironment provides methods for executing server tasks
     in separate processes, threads, as asynchronous task or as simple function.
@@ -1490,7 +1497,7 @@ class Server:
         result = None      # type: Optional[JSON_Type]
         rpc_error = None   # type: Optional[RPC_Error_Type]
         method_name = json_obj.get('method', '')
-        if json_obj.get('jsonrpc', '0.0') < '2.0':
+        if str(json_obj.get('jsonrpc', '0.0')) < '2.0':
             rpc_error = -32600, 'Invalid Request: jsonrpc version 2.0 needed, version "' \
                                 ' "%s" found.' % json_obj.get('jsonrpc', b'unknown')
         elif not method_name:
@@ -1507,53 +1514,46 @@ class Server:
             rpc_error = -32601, 'Method not found: ' + str(json_obj['method'])
         elif method_name in self.rpc_table:
             method = self.rpc_table[method_name]
-            params = json_obj['params'] if 'params' in json_obj else {}
+            params = json_obj.get('params', None)
+            if params is None:
+                params = {}
             if service_call:
                 err_func = lambda *args, **kwargs: {
                     "error": {"code": -32601,
                               "message": "%s is not a service function" % method_name}}
                 method, params = self.amend_service_call(method_name, method, params, err_func)
-            params['ID'] = json_id
+            if isinstance(params, Dict):
+                params['ID'] = json_id
             result, rpc_error = await self.run(method_name, method, params)
 
-        if isinstance(result, Dict) and 'error' in result:
+        if rpc_error is None and isinstance(result, Dict):
+            # check for json-rpc errors contained within the result
             try:
-                rpc_error = result['error']['code'], result['error']['message']
-            except KeyError:
-                rpc_error = -32603, 'Inconclusive error object: ' + str(result)
+                error = cast(Dict[str, str], result.get('error', result))
+                rpc_error = int(error['code']), str(error['message'])
+            except (KeyError, TypeError, ValueError):
+                if 'error' in result:
+                    rpc_error = -32603, 'Inconclusive error object: ' + str(result)
 
         if rpc_error is None:
-            try:
-                # check for json-rpc errors contained within the result
-                try:
-                    error = cast(Dict[str, str], result['error'])
-                except KeyError:
-                    error = cast(Dict[str, str], result)
-                rpc_error = int(error['code']), error['message']
-            except TypeError:
-                pass  # result is not a dictionary, never mind
-            except KeyError:
-                pass  # no errors in result
-            if json_id is not None and result is not None:
+            # Notifications, i.e. calls without an id, are never answered. And neither are
+            # the notifications "initialized" and "exit", even if they carry an id.
+            if json_obj.get('id', None) is not None \
+                    and (result is not None or method_name not in ('initialized', 'exit')):
                 try:
                     if isinstance(result, (bytes, bytearray)):
                         # assume that result is a json-format byte-string!
-                        response = b'{"jsonrpc": "2.0", "result": %s, "id": %i}' % (result, json_id)
+                        response = b'{"jsonrpc": "2.0", "result": %s, "id": %s}' \
+                            % (result, json.dumps(json_id).encode())
                     else:
                         json_result = {"jsonrpc": "2.0", "result": result, "id": json_id}
                         response = json_dumps(json_result, cls=DHParser_JSONEncoder)
                     await self.respond(writer, response)
-                except TypeError as err:
+                except (TypeError, ValueError, RecursionError) as err:
                     rpc_error = -32070, str(err)
 
         if rpc_error is not None:
-            if json_id >= 0:
-                json_str = '{"jsonrpc": "2.0", "error": {"code": %i, "message": %s}, "id": %s}'%\
-                       (rpc_error[0], json_encode_string(rpc_error[1]), str(json_id))
-            else:
-                json_str = '{"jsonrpc": "2.0", "error": {"code": %i, "message": %s}}' % \
-                       (rpc_error[0], json_encode_string(rpc_error[1]))
-            await self.respond(writer, json_str)
+            await self.respond(writer, rpc_error_response(rpc_error, json_obj.get('id', None)))
 
         if result is not None or rpc_error is not None:
             await writer.drain()
@@ -1706,7 +1706,8 @@ class Server:
                 # assume json
                 # TODO: add batch processing capability!
                 #       (put calls to execute in asyncio tasks, use asyncio.gather)
-                json_id = 0       # type: int
+                json_id = 0       # type: Union[int, float, str]
+                raw_id = None     # type: Optional[Union[int, float, str]]
                 raw = None        # type: Optional[JSON_Type]
                 json_obj = {}     # type: JSON_Dict
                 rpc_error = None  # type: Optional[RPC_Error_Type]
@@ -1723,26 +1724,33 @@ class Server:
                     try:
                         raw = json.loads(data) if sys.version_info >= (3, 6, 0) \
                             else json.loads(data.decode())
-                    except json.decoder.JSONDecodeError as e:
+                    except (ValueError, RecursionError) as e:
+                        # includes JSONDecodeError as well as UnicodeDecodeError
                         rpc_error = -32700, "JSONDecodeError: " \
                             + (str(e) + str(data)).replace('"', "`")
 
                 if rpc_error is None:
                     if isinstance(raw, Dict):
                         json_obj = cast(JSON_Dict, raw)
-                        raw_id = json_obj.get('id', gen_task_id())
-                        try:
-                            json_id = int(raw_id)
-                        except TypeError:
-                            json_id = 0
+                        raw_id = json_obj.get('id', None)
+                        if raw_id is None:  # notification
+                            json_id = gen_task_id()
+                        elif isinstance(raw_id, (int, float, str)) and not isinstance(raw_id, bool):
+                            json_id = raw_id
+                        else:
+                            raw_id = None
+                            rpc_error = -32600, 'Invalid Request: "id" must be a string or a number'
                     else:
                         rpc_error = -32700, 'Parse error: JSON-package does not appear '\
                                             'to ba an RPC-call or -response!?'
 
                 if rpc_error is None:
                     method = json_obj.get('method', '')
-                    if method:
-                        assert isinstance(method, str)
+                    if not isinstance(method, str):
+                        rpc_error = -32600, 'Invalid Request: "method" must be a string'
+                    elif raw_id is not None and method and raw_id in self.connection.active_tasks:
+                        rpc_error = -32600, 'Invalid Request: id %s is already in use' % raw_id
+                    elif method:
                         if id_connection or method != 'initialize':
                             rpc_error = self.connection.verify_initialization(
                                 method, self.strict_lsp and bool(id_connection))
@@ -1763,9 +1771,7 @@ class Server:
                                             '"method" or "response"-field missing.'
 
                 if rpc_error is not None:
-                    response = '{"jsonrpc": "2.0", "error": {"code": %i, "message": "%s"},'\
-                        ' "id": %s}' % (rpc_error[0], rpc_error[1], json_id)
-                    await self.respond(writer, response)
+                    await self.respond(writer, rpc_error_response(rpc_error, raw_id))
 
             if not id_connection:
                 if task:
-- 
2.43.0


From c3f7b5aca1f40e563a8e4b553b9f7b72197e0379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:57 +0000
Subject: [PATCH 003/101] fix: take requests from the stream exactly as they
 were framed

Incomplete requests at the end of the stream were executed, complete requests
that had already been received when the client shut down its side were dropped,
an empty request (Content-Length: 0) blocked the server, a 'Content-Length:'
inside of a message body was mistaken for a header, and a header field
'Content-Type' in front of 'Content-Length' broke on a chunk boundary.
---
 DHParser/server.py | 54 +++++++++++++++++++++++++++++-----------------
 1 file changed, 34 insertions(+), 20 deletions(-)

diff --git a/DHParser/server.py b/DHParser/server.py
index b4409bb..4cdb06b 100644
--- a/DHParser/server.py
+++ b/DHParser/server.py
@@ -146,6 +146,7 @@ RE_IS_JSONRPC = rb'(?:.*?\n\n)?\s*(?:{\s*"jsonrpc")|(?:\[\s*{\s*"jsonrpc")'
 RE_GREP_URL = rb'GET ([^ \n]+) HTTP'
 RE_FUNCTION_CALL = rb'\s*(\w+)\(([^)]*)\)$'
 RX_CONTENT_LENGTH = re.compile(rb'Content-Length:\s*(\d+)')
+RX_HEADER_FIELDS = re.compile(rb'(?:Content-(?!Length:)[\w-]+:[^\r\n]*\r?\n)*')
 RE_DATA_START = rb'\r?\n\r?\n'
 
 SERVER_ERROR = "COMPILER-SERVER-ERROR"
@@ -317,10 +318,19 @@ def http_response(html: Union[str, bytes], mime_type: str = 'text/html') -> byte
     return response.encode() + encoded_html
 
 
+def match_content_length(data: BytesType):
+    """Returns the match of the Content-Length-field or None, if data does not start
+    with a header that contains a Content-Length-field. Other than RX_CONTENT_LENGTH
+    this never matches anything inside the body of the message."""
+    m = RX_HEADER_FIELDS.match(data)
+    return RX_CONTENT_LENGTH.match(data, m.end())
+
+
 def incomplete_header(data: BytesType) -> bool:
     """Returns `True` if data appears to represent an incomplete header."""
-    return b'Content-Length'.startswith(data) or \
-           (data.startswith(b'Content-Length') and not re.search(RE_DATA_START, data))
+    return any(field.startswith(data) or
+               (data.startswith(field) and not re.search(RE_DATA_START, data))
+               for field in (b'Content-Length', b'Content-Type'))
 
 
 def split_header(data: BytesType) -> Tuple[BytesType, BytesType, BytesType]:
@@ -329,8 +339,7 @@ def split_header(data: BytesType) -> Tuple[BytesType, BytesType, BytesType]:
     returned header remains empty."""
     header = b''
     backlog = b''
-    i = data.find(b'Content-Length:', 0, 512)
-    m = RX_CONTENT_LENGTH.match(data, i, i + 100) if i >= 0 else None
+    m = match_content_length(data)
     if m:
         content_length = int(m.group(1))
         m2 = re.search(RE_DATA_START, data)
@@ -677,12 +686,10 @@ async def read_full_block(reader: StreamReaderType) -> Tuple[int, bytes, bytes]:
     """
     data = await reader.read()
     backlog = b''
-    i = data.find(b'Content-Length:', 0, 512)
-    m = RX_CONTENT_LENGTH.match(data, i, i + 100) if i >= 0 else None
+    m = match_content_length(data)
     while not m and incomplete_header(data) and not reader.at_eof():
         data += await reader.read()
-        i = data.find(b'Content-Length:', 0, 512)
-        m = RX_CONTENT_LENGTH.match(data, i, i + 100) if i >= 0 else None
+        m = match_content_length(data)
     if m:
         content_length = int(m.group(1))
         m2 = re.search(RE_DATA_START, data)
@@ -1586,14 +1593,14 @@ class Server:
         def connection_alive() -> bool:
             """-> `False` if connection is dead or shall be shut down."""
             return not self.kill_switch and self.connection is not None \
-                   and self.connection.alive and not reader.at_eof()  # and not reader.closed
+                   and self.connection.alive and (buffer or not reader.at_eof())
 
         buffer = bytearray()  # type: bytearray
         while connection_alive():
             # reset the data variable
             data = bytearray()  # type: bytearray
-            # reset the content length
-            content_length = 0  # type: int
+            # reset the content length (-1 means: not yet known)
+            content_length = -1  # type: int
             # reset the length of the header, represented by the variable `k`
             k = 0  # type: int
 
@@ -1629,7 +1636,7 @@ class Server:
             #
             # see also: test/test_server.TestLanguageServer.test_varying_data_chunk_sizes
 
-            while (content_length <= 0 or len(data) < content_length + k) and connection_alive():
+            while (content_length < 0 or len(data) < content_length + k) and connection_alive():
                 if buffer:
                     # if there is any data in the buffer, retrieve this first,
                     # before awaiting further data from the stream
@@ -1638,16 +1645,16 @@ class Server:
                 else:
                     try:
                         # await asyncio.sleep(0)
-                        data += await reader.read(content_length or self.max_data_size)
+                        data += await reader.read(content_length + k - len(data) if content_length > 0
+                                                  else self.max_data_size)
                     except ConnectionError as err:  # (ConnectionAbortedError, ConnectionResetError)
                         self.log('ERROR while awaiting data: ', str(err), '\n')
                         if id_connection:
                             self.connection.alive = False
                         break
-                if content_length <= 0 or k <= 0:
+                if content_length < 0 or k <= 0:
                     # If content-length has not been set, look for it in the received data package.
-                    i = data.find(b'Content-Length:', 0, 512)
-                    m = RX_CONTENT_LENGTH.match(data, i, i + 100) if i >= 0 else None
+                    m = match_content_length(data)
                     if m:
                         content_length = int(m.group(1))
                         m2 = re.search(RE_DATA_START, data)
@@ -1659,7 +1666,7 @@ class Server:
                                 data = data[:k + content_length]
                         else:
                             k = len(data)
-                            content_length = 0
+                            content_length = -1
                     elif not incomplete_header(data):
                         # no header or no content-length given
                         # set `context_length` to the size of the data to break the loop
@@ -1671,6 +1678,16 @@ class Server:
                 # continue the loop until at least content_length + k bytes of data
                 # have been received
 
+            if content_length < 0 and data and not data.startswith(b'Content-'):
+                content_length = len(data)  # plain data that merely looked like a header at first
+
+            if content_length < 0 or len(data) < content_length + k:
+                # The stream has ended before the data was complete.
+                # Never process truncated data!
+                if id_connection and self.connection is not None:
+                    self.connection.alive = False
+                break
+
             if self.log_file:   # avoid decoding if logging is off
                 timestamp = str(datetime.now())[11:-3]
                 if self.log_filter.can_pass(data):
@@ -1681,9 +1698,6 @@ class Server:
 
             if id_connection:
                 if self.connection.alive:
-                    if not data and self.connection.reader.at_eof():
-                        self.connection.alive = False
-                        break
                     # remove finished tasks from active_tasks list,
                     # so that the task-objects can be garbage collected
                     for task_id in self.connection.finished_tasks:
-- 
2.43.0


From 3e311a4a3e6fe2c7b0bf4e885b293561e8475a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:19 +0000
Subject: [PATCH 004/101] fix: the end of a connection never blocks the server
 or another connection

The server remained occupied forever when the primary connection ended with an
error or at the end of the file while 'alive'; service connections took part in
the primary client's task list and life cycle, could kill the primary connection
(exit, shutdown, broken pipe), were cut off with it, or were left open.
---
 DHParser/server.py | 150 ++++++++++++++++++++++-----------------------
 1 file changed, 74 insertions(+), 76 deletions(-)

diff --git a/DHParser/server.py b/DHParser/server.py
index 4cdb06b..b7c2826 100644
--- a/DHParser/server.py
+++ b/DHParser/server.py
@@ -824,11 +824,12 @@ class Connection:
         task = asyncio.create_task(coroutine) if sys.version_info >= (3, 7, 0) \
             else asyncio.ensure_future(coroutine)
         self.active_tasks[json_id] = task
+        task.add_done_callback(lambda _: self.task_done(json_id))
         return task
 
     def task_done(self, json_id: int):
-        assert json_id in self.active_tasks
-        self.finished_tasks.add(json_id)
+        if json_id in self.active_tasks:  # might have been removed by self.cleanup() already
+            self.finished_tasks.add(json_id)
         # do not do: del self.active_tasks[json_id] !!!
 
     async def cleanup(self):
@@ -1361,7 +1362,7 @@ class Server:
             await writer.drain()
         except ConnectionError as err:
             self.log('ERROR when writing data: ', str(err), '\n')
-            if self.connection:
+            if self.connection and self.connection.writer is writer:
                 self.connection.alive = False
 
     def amend_service_call(self, func_name: str, func: Callable, argument: Union[Tuple, Dict],
@@ -1375,7 +1376,7 @@ class Server:
                 params.update({'service_call': True, 'html': html})
                 return func, params
             else:
-                return func, argument + (True, html)
+                return func, tuple(argument) + (True, html)
         else:
             return err_func, {} if isinstance(argument, Dict) else ()
 
@@ -1440,8 +1441,6 @@ class Server:
                         await respond(str(err))
             else:
                 await respond(rpc_error[1])
-        assert self.connection
-        self.connection.task_done(task_id)
 
     async def handle_http_request(self, task_id: int,
                                   reader: StreamReaderType,
@@ -1492,8 +1491,6 @@ class Server:
                                 await self.respond(writer, http_response(str(err), 'text/plain'))
                     else:
                         await self.respond(writer, http_response(rpc_error[1], 'text/plain'))
-        assert self.connection
-        self.connection.task_done(task_id)
 
     async def handle_jsonrpc_request(self, json_id: int,
                                      reader: StreamReaderType,
@@ -1514,9 +1511,7 @@ class Server:
             self.kill_switch = True
             reader.feed_eof()
         elif method_name == 'exit':
-            assert self.connection
-            self.connection.alive = False
-            reader.feed_eof()
+            reader.feed_eof()  # the connection will be closed by self.process_requests()
         elif method_name not in self.known_methods:  # self.rpc_table:
             rpc_error = -32601, 'Method not found: ' + str(json_obj['method'])
         elif method_name in self.rpc_table:
@@ -1564,8 +1559,6 @@ class Server:
 
         if result is not None or rpc_error is not None:
             await writer.drain()
-        assert self.connection
-        self.connection.task_done(json_id)
 
     async def handle(self, reader: StreamReaderType, writer: StreamWriterType):
         assert self.loop is not None
@@ -1579,21 +1572,67 @@ class Server:
             cast(StreamWriterProxy, writer).loop = self.loop
             cast(StreamWriterProxy, writer).exec = self.exec.thread_executor
 
+        connection = Connection(reader, writer, self.exec)
         if self.connection is None:
-            self.connection = Connection(reader, writer, self.exec)
+            self.connection = connection
             self.connection.log_file = self.log_file
             self.echo_log = self.echo_log  # will set echo to False is case of a stream connection
             # self.connection.echo_log = self.echo_log  # already set by echo_log property
             id_connection = str(id(self.connection))
-            self.connection_callback(self.connection)
-            self.log('SERVER MESSAGE: New connection: ', id_connection, '\n')
         else:
+            # only service-calls are allowed
             id_connection = ''
 
+        try:
+            if id_connection:
+                self.connection_callback(connection)
+                self.log('SERVER MESSAGE: New connection: ', id_connection, '\n')
+            await self.process_requests(connection, id_connection)
+            await connection.cleanup()
+        except BaseException:
+            writer.close()
+            raise
+        finally:
+            # whatever happened, don't keep other clients from connecting
+            if self.connection is connection:
+                self.connection = None
+
+        try:
+            writer.write_eof()
+            await writer.drain()
+            writer.close()
+        except (ConnectionError, OSError) as err:
+            self.log('ERROR while closing connection: ', str(err), '\n')
+        if id_connection:
+            self.log('SERVER MESSAGE: Closing connection: {}.\n\n'.format(id_connection))
+        else:
+            self.log('SERVER MESSAGE: Closing service-connection.')
+
+        if self.kill_switch:
+            # TODO: terminate processes and threads! Is this needed?
+            #       terminate all connections
+            self.stage.value = SERVER_TERMINATING
+            if sys.version_info >= (3, 7, 0):
+                await writer.wait_closed()
+                if self.serving_task:
+                    self.serving_task.cancel()
+            elif self.server:
+                self.server.close()  # break self.server.serve_forever()
+            if sys.version_info < (3, 7, 0) and self.loop is not None:
+                self.loop.stop()
+            self.log('SERVER MESSAGE: Stopping server: {}.\n\n'.format(id_connection))
+            self.kill_switch = False  # reset flag
+
+    async def process_requests(self, connection: Connection, id_connection: str):
+        """Reads and processes requests until the connection dies or is closed. If
+        `id_connection` is empty, connection is merely a service-connection and only
+        one single request will be processed."""
+        reader, writer = connection.reader, connection.writer
+
         def connection_alive() -> bool:
             """-> `False` if connection is dead or shall be shut down."""
-            return not self.kill_switch and self.connection is not None \
-                   and self.connection.alive and (buffer or not reader.at_eof())
+            return not self.kill_switch and connection.alive \
+                   and (buffer or not reader.at_eof())
 
         buffer = bytearray()  # type: bytearray
         while connection_alive():
@@ -1649,8 +1688,7 @@ class Server:
                                                   else self.max_data_size)
                     except ConnectionError as err:  # (ConnectionAbortedError, ConnectionResetError)
                         self.log('ERROR while awaiting data: ', str(err), '\n')
-                        if id_connection:
-                            self.connection.alive = False
+                        connection.alive = False
                         break
                 if content_length < 0 or k <= 0:
                     # If content-length has not been set, look for it in the received data package.
@@ -1684,8 +1722,6 @@ class Server:
             if content_length < 0 or len(data) < content_length + k:
                 # The stream has ended before the data was complete.
                 # Never process truncated data!
-                if id_connection and self.connection is not None:
-                    self.connection.alive = False
                 break
 
             if self.log_file:   # avoid decoding if logging is off
@@ -1693,28 +1729,25 @@ class Server:
                 if self.log_filter.can_pass(data):
                     self.log(f'RECEIVE {timestamp}: ', *pp_transmission(data), '\n\n')
 
-            if self.connection is None or not self.connection.alive:
+            if not connection.alive:
                 break
 
-            if id_connection:
-                if self.connection.alive:
-                    # remove finished tasks from active_tasks list,
-                    # so that the task-objects can be garbage collected
-                    for task_id in self.connection.finished_tasks:
-                        del self.connection.active_tasks[task_id]
-                    self.connection.finished_tasks = set()
-                else:
-                    break
+            # remove finished tasks from active_tasks list,
+            # so that the task-objects can be garbage collected
+            for task_id in connection.finished_tasks:
+                del connection.active_tasks[task_id]
+            connection.finished_tasks = set()
+
             task = None
             if data[:3] == b'GET':
                 # HTTP request
                 task_id = gen_task_id()
-                task = self.connection.create_task(task_id, self.handle_http_request(
+                task = connection.create_task(task_id, self.handle_http_request(
                     task_id, reader, writer, data, service_call=not id_connection))
             elif data.find(b'"jsonrpc"') < 0:  # re.match(RE_IS_JSONRPC, data):
                 # plain data
                 task_id = gen_task_id()
-                task = self.connection.create_task(task_id, self.handle_plaindata_request(
+                task = connection.create_task(task_id, self.handle_plaindata_request(
                     task_id, reader, writer, data, service_call=not id_connection))
             else:
                 # assume json
@@ -1762,24 +1795,24 @@ class Server:
                     method = json_obj.get('method', '')
                     if not isinstance(method, str):
                         rpc_error = -32600, 'Invalid Request: "method" must be a string'
-                    elif raw_id is not None and method and raw_id in self.connection.active_tasks:
+                    elif raw_id is not None and method and raw_id in connection.active_tasks:
                         rpc_error = -32600, 'Invalid Request: id %s is already in use' % raw_id
                     elif method:
                         if id_connection or method != 'initialize':
-                            rpc_error = self.connection.verify_initialization(
+                            rpc_error = connection.verify_initialization(
                                 method, self.strict_lsp and bool(id_connection))
                             if rpc_error is None:
-                                task = self.connection.create_task(
+                                task = connection.create_task(
                                     json_id, self.handle_jsonrpc_request(
                                         json_id, reader, writer, json_obj, not bool(id_connection)))
                                 if method == 'exit':
                                     await task
                                     task = None
+                                    connection.alive = False
                         else:
                             rpc_error = -32002, 'server is already connected to another client'
                     elif 'result' in json_obj or 'error' in json_obj:
-                        if id_connection:
-                            self.connection.put_response(json_obj)
+                        connection.put_response(json_obj)
                     else:
                         rpc_error = -32700, 'Parse error: Not a valid JSON-RPC! '\
                                             '"method" or "response"-field missing.'
@@ -1788,45 +1821,10 @@ class Server:
                     await self.respond(writer, rpc_error_response(rpc_error, raw_id))
 
             if not id_connection:
+                # for secondary connections only one request is allowed before terminating
                 if task:
                     await task
-                    task = None
-                # for secondary connections only one request is allowed before terminating
-                try:
-                    writer.write_eof()
-                    await writer.drain()
-                    writer.close()
-                    # if sys.version_info >= (3, 7, 0):  await writer.wait_closed()
-                except (ConnectionError, OSError) as err:
-                    self.log('ERROR during shutdown of service connection: ', str(err), '\n')
-                self.log('SERVER MESSAGE: Closing service-connection.')
-                return
-
-        if self.connection and (self.kill_switch or not self.connection.alive):
-            await self.connection.cleanup()
-            try:
-                writer.write_eof()
-                await writer.drain()
-                writer.close()
-            except (ConnectionError, OSError) as err:
-                self.log('ERROR while exiting: ', str(err), '\n')
-            self.log('SERVER MESSAGE: Closing connection: {}.\n\n'.format(id_connection))
-            self.connection = None
-
-        if self.kill_switch:
-            # TODO: terminate processes and threads! Is this needed?
-            #       terminate all connections
-            self.stage.value = SERVER_TERMINATING
-            if sys.version_info >= (3, 7, 0):
-                await writer.wait_closed()
-                if self.serving_task:
-                    self.serving_task.cancel()
-            elif self.server:
-                self.server.close()  # break self.server.serve_forever()
-            if sys.version_info < (3, 7, 0) and self.loop is not None:
-                self.loop.stop()
-            self.log('SERVER MESSAGE: Stopping server: {}.\n\n'.format(id_connection))
-            self.kill_switch = False  # reset flag
+                break
 
     async def serve(self, host: str = USE_DEFAULT_HOST, port: int = USE_DEFAULT_PORT):
         host, port = substitute_default_host_and_port(host, port)
-- 
2.43.0


From 1f2ea3cf8dbdd8b8d0d66fbaf82b81abc86b8590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:44 +0000
Subject: [PATCH 005/101] fix: a stop request terminates the server whatever
 the connections do

The server went on running when it was stopped from a second connection while
the primary client was idle, when a client did not read its data or when any
other connection was open (Python 3.12: Server.wait_closed()). The kill-switch
was left on or off inconsistently, so that the server could not be restarted.
---
 DHParser/server.py | 70 +++++++++++++++++++++++++++++++++++-----------
 1 file changed, 54 insertions(+), 16 deletions(-)

diff --git a/DHParser/server.py b/DHParser/server.py
index b7c2826..e5b9804 100644
--- a/DHParser/server.py
+++ b/DHParser/server.py
@@ -1158,6 +1158,7 @@ class Server:
 
         self.exec = None            # type: Optional[ExecutionEnvironment]
         self.connection = None      # type: Optional[Connection]
+        self.open_connections = {}  # type: Dict[Connection, asyncio.Task]
         self.kill_switch = False    # type: bool
         self.loop = None            # type: Optional[asyncio.AbstractEventLoop]
 
@@ -1572,7 +1573,48 @@ class Server:
             cast(StreamWriterProxy, writer).loop = self.loop
             cast(StreamWriterProxy, writer).exec = self.exec.thread_executor
 
+        if self.stage.value == SERVER_TERMINATING:
+            writer.close()
+            return
+
         connection = Connection(reader, writer, self.exec)
+        self.open_connections[connection] = asyncio.current_task() \
+            if sys.version_info >= (3, 7, 0) else asyncio.Task.current_task()
+        try:
+            await self.handle_connection(connection)
+        finally:
+            del self.open_connections[connection]
+
+        if self.kill_switch and self.stage.value != SERVER_TERMINATING:
+            # TODO: terminate processes and threads! Is this needed?
+            self.stage.value = SERVER_TERMINATING
+            await self.close_all_connections()
+            if sys.version_info >= (3, 7, 0):
+                if self.serving_task:
+                    self.serving_task.cancel()
+            elif self.server:
+                self.server.close()  # break self.server.serve_forever()
+            if sys.version_info < (3, 7, 0) and self.loop is not None:
+                self.loop.stop()
+            self.log('SERVER MESSAGE: Stopping server.\n\n')
+
+    async def close_all_connections(self, timeout: float = 5.0):
+        """Asks all connections to end. Those which have not ended within the
+        given timeout, e.g. because the client does not read any more, are aborted."""
+        for connection in self.open_connections:
+            connection.reader.feed_eof()
+        if self.open_connections:
+            await asyncio.wait(set(self.open_connections.values()), timeout=timeout)
+        for connection, task in tuple(self.open_connections.items()):
+            if isinstance(connection.writer, asyncio.StreamWriter):
+                connection.writer.transport.abort()
+            task.cancel()
+        if self.open_connections:
+            await asyncio.wait(set(self.open_connections.values()), timeout=timeout)
+
+    async def handle_connection(self, connection: Connection):
+        """Processes the requests from a new connection until the connection ends."""
+        reader, writer = connection.reader, connection.writer
         if self.connection is None:
             self.connection = connection
             self.connection.log_file = self.log_file
@@ -1598,31 +1640,23 @@ class Server:
                 self.connection = None
 
         try:
+            # the client might be slow, but that must not keep the server from stopping
+            timeout = 5.0 if self.kill_switch else None  # type: Optional[float]
             writer.write_eof()
-            await writer.drain()
+            await asyncio.wait_for(writer.drain(), timeout)
             writer.close()
+            if sys.version_info >= (3, 7, 0):
+                await asyncio.wait_for(writer.wait_closed(), timeout)
         except (ConnectionError, OSError) as err:
             self.log('ERROR while closing connection: ', str(err), '\n')
+        except asyncio.TimeoutError:
+            if isinstance(writer, asyncio.StreamWriter):
+                writer.transport.abort()
         if id_connection:
             self.log('SERVER MESSAGE: Closing connection: {}.\n\n'.format(id_connection))
         else:
             self.log('SERVER MESSAGE: Closing service-connection.')
 
-        if self.kill_switch:
-            # TODO: terminate processes and threads! Is this needed?
-            #       terminate all connections
-            self.stage.value = SERVER_TERMINATING
-            if sys.version_info >= (3, 7, 0):
-                await writer.wait_closed()
-                if self.serving_task:
-                    self.serving_task.cancel()
-            elif self.server:
-                self.server.close()  # break self.server.serve_forever()
-            if sys.version_info < (3, 7, 0) and self.loop is not None:
-                self.loop.stop()
-            self.log('SERVER MESSAGE: Stopping server: {}.\n\n'.format(id_connection))
-            self.kill_switch = False  # reset flag
-
     async def process_requests(self, connection: Connection, id_connection: str):
         """Reads and processes requests until the connection dies or is closed. If
         `id_connection` is empty, connection is merely a service-connection and only
@@ -1850,6 +1884,9 @@ class Server:
             if self.exec:
                 self.exec.shutdown()
                 self.exec = None
+            self.serving_task = None
+            self.kill_switch = False  # reset flag, so that the server can be started again
+            self.loop = None
 
     def run_tcp_server(self, host: str = USE_DEFAULT_HOST, port: int = USE_DEFAULT_PORT, loop=None):
         """
@@ -1891,6 +1928,7 @@ class Server:
                 self.exec.shutdown()
             self.exec = None
             self.loop = None
+            self.kill_switch = False
 
     def run_stream_server(self, reader: StreamReaderType, writer: StreamWriterType):
         """
-- 
2.43.0


From 8e7e1a82b6ddae5f7f4b9b247fc21f7bfe5c219a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:36 +0000
Subject: [PATCH 006/101] fix: whatever the server sends can be decoded by the
 client

Content-Length of plain data responses was counted in characters, bytearrays
were rejected, undecodable plain data and malformed http-requests were never
answered, keys of json-objects were not escaped in server-initiated calls,
StringViews could not be serialised.
---
 DHParser/nodetree.py |  2 +-
 DHParser/server.py   | 39 +++++++++++++++++++++++----------------
 DHParser/toolkit.py  |  6 +++---
 3 files changed, 27 insertions(+), 20 deletions(-)

diff --git a/DHParser/nodetree.py b/DHParser/nodetree.py
index 2f518a3..015c22c 100644
--- a/DHParser/nodetree.py
+++ b/DHParser/nodetree.py
@@ -3688,7 +3688,7 @@ class DHParser_JSONEncoder(json.JSONEncoder):
         elif o is JSONnull or isinstance(o, JSONnull):
             return None
         elif isinstance(o, StringView):
-            o = str(o)
+            return str(o)
         return json.JSONEncoder.default(self, o)
 
 
diff --git a/DHParser/server.py b/DHParser/server.py
index e5b9804..5768eec 100644
--- a/DHParser/server.py
+++ b/DHParser/server.py
@@ -307,9 +307,9 @@ def http_response(html: Union[str, bytes], mime_type: str = 'text/html') -> byte
     """
     gmt = GMT_timestamp()
     if isinstance(html, str):
-        encoded_html = html.encode()
-    elif isinstance(html, bytes):
-        encoded_html = html
+        encoded_html = html.encode(errors='backslashreplace')
+    elif isinstance(html, (bytes, bytearray)):
+        encoded_html = bytes(html)
     else:
         encoded_html = ("Illegal type %s for response %s. Only str allowed!" \
                         % (str(type(html)), str(html))).encode()
@@ -1260,6 +1260,8 @@ class Server:
          empty or the empty string; or b) the given log file name if `args[0]`
          is a non-empty string; or c) stops logging if `args[0]` is `None`.
          """
+        # service- and http-calls add boolean flags to the arguments
+        args = tuple(arg for arg in args if not isinstance(arg, bool))
         if len(args) > 0:
             log_name = args[0]
             if len(args) > 1:
@@ -1347,7 +1349,9 @@ class Server:
         `self.use_jsonrpc_header`.
         """
         if isinstance(response, str):
-            response = response.encode()
+            response = response.encode(errors='backslashreplace')
+        elif isinstance(response, bytearray):
+            response = bytes(response)
         elif not isinstance(response, bytes):
             response = ('Illegal response type %s of response object %s. '
                         'Only bytes and str allowed!'
@@ -1394,10 +1398,10 @@ class Server:
 
         async def respond(response: Union[str, bytes, bytearray]):
             if header:
-                HEADER = JSONRPC_HEADER if isinstance(response, str) else JSONRPC_HEADER_BYTES
-                await self.respond(writer, HEADER % len(response) + response)
-            else:
-                await self.respond(writer, response)
+                if isinstance(response, str):
+                    response = response.encode(errors='backslashreplace')
+                response = JSONRPC_HEADER_BYTES % len(response) + response
+            await self.respond(writer, response)
 
         if len(data) > self.max_data_size:
             await respond("Data too large! Only %i MB allowed"
@@ -1409,8 +1413,8 @@ class Server:
         else:
             m = re.match(RE_FUNCTION_CALL, data)
             if m:
-                func_name = m.group(1).decode()
-                argstr = m.group(2).decode()
+                func_name = m.group(1).decode(errors='backslashreplace')
+                argstr = m.group(2).decode(errors='backslashreplace')
                 if argstr:
                     argument = tuple(convert_argstr(s)
                                      for s in argstr.split(','))  # type: Union[Tuple, Dict]
@@ -1418,7 +1422,7 @@ class Server:
                     argument = ()
             else:
                 func_name = self.default
-                argument = (data.decode(),)
+                argument = (data.decode(errors='backslashreplace'),)
 
             err_func = lambda *args, **kwargs: \
                 'No function named "%s" known to server %s !' % (func_name, self.server_name)
@@ -1438,7 +1442,7 @@ class Server:
                 elif result is not None:
                     try:
                         await respond(json_dumps(result, cls=DHParser_JSONEncoder))
-                    except TypeError as err:
+                    except (TypeError, ValueError, RecursionError) as err:
                         await respond(str(err))
             else:
                 await respond(rpc_error[1])
@@ -1455,14 +1459,15 @@ class Server:
             m = re.match(RE_GREP_URL, data)
             if m:
                 # TODO: use urllib to parse parameters
-                func_name, argument = (m.group(1).decode().strip('/').split('/', 1) + [None])[:2]
+                url = m.group(1).decode(errors='backslashreplace')
+                func_name, argument = (url.strip('/').split('/', 1) + [None])[:2]
                 # really poor hack to determine mime-type of response
                 mime = 'text/html'
                 if argument:
                     if argument[-4:].lower() == '.css':  mime = 'text/css'
                     elif argument[-3:].lower() == '.js':  mime = 'text/javascript'
                 argument = (argument,) if argument else ()
-                if func_name.encode() == STOP_SERVER_REQUEST_BYTES:
+                if func_name == STOP_SERVER_REQUEST:
                     await self.respond(
                         writer, http_response(HTML_TEMPLATE.format(heading=self.stop_response,
                                                                    content='')))
@@ -1478,7 +1483,7 @@ class Server:
                     elif func_name in self.service_calls:
                         print('Pseudo ServiceCall: ' + func_name + str(argument))
                         argument += (False, True)  # service_call = False, html = True
-                    result, rpc_error = await self.run(func.__name__, func, argument)
+                    result, rpc_error = await self.run(func_name, func, argument)
                     if rpc_error is None:
                         if result is None:
                             result = ''
@@ -1488,10 +1493,12 @@ class Server:
                             try:
                                 await self.respond(writer, http_response(
                                     pp_json(result, cls=DHParser_JSONEncoder), 'text/plain'))
-                            except TypeError as err:
+                            except (TypeError, ValueError, RecursionError) as err:
                                 await self.respond(writer, http_response(str(err), 'text/plain'))
                     else:
                         await self.respond(writer, http_response(rpc_error[1], 'text/plain'))
+            else:
+                await self.respond(writer, http_response('Malformed HTTP-request!', 'text/plain'))
 
     async def handle_jsonrpc_request(self, json_id: int,
                                      reader: StreamReaderType,
diff --git a/DHParser/toolkit.py b/DHParser/toolkit.py
index 1b81546..cdd93b0 100644
--- a/DHParser/toolkit.py
+++ b/DHParser/toolkit.py
@@ -1598,7 +1598,7 @@ def json_dumps(obj: JSON_Type, *, cls=json.JSONEncoder, partially_serialized: bo
             if obj:
                 r = ['{']
                 for k, v in obj.items():
-                    r.append('"' + k + '":')
+                    r.append(json_encode_string(k) + ':')
                     r.extend(serialize(v))
                     r.append(',')
                 r[-1] = '}'
@@ -1697,13 +1697,13 @@ def pp_json(obj: JSON_Type, *, cls=json.JSONEncoder) -> str:
                 if len(obj) == 1:
                     k, v = next(iter(obj.items()))
                     if not isinstance(v, (dict, list, tuple)):
-                        r = ['{"' + k + '": ']
+                        r = ['{' + json_encode_string(k) + ': ']
                         r.extend(serialize(v, indent + '  '))
                         r.append('}')
                         return r
                 r = ['{\n' + indent + '  ']
                 for k, v in obj.items():
-                    r.append('"' + k + '": ')
+                    r.append(json_encode_string(k) + ': ')
                     r.extend(serialize(v, indent + '  '))
                     r.append(',\n' + indent + '  ')
                 r[-1] = '}'
-- 
2.43.0


From a19dc926624bde091caf07b0cceb4f907a2edd84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:23 +0000
Subject: [PATCH 007/101] fix: really retry requests on a new pool if a worker
 process has died

The retry went to the broken pool again; with several affected requests, the
freshly started pool was shut down again; errors of the retried request escaped;
the first call of submit_as_process() dead-locked.
---
 DHParser/server.py | 82 ++++++++++++++++++++++++----------------------
 1 file changed, 42 insertions(+), 40 deletions(-)

diff --git a/DHParser/server.py b/DHParser/server.py
index 5768eec..8c3b855 100644
--- a/DHParser/server.py
+++ b/DHParser/server.py
@@ -426,7 +426,7 @@ class ExecutionEnvironment:
         self._process_executor = None                  # type: Optional[MultiCoreExecutor]
         self._thread_executor = None                   # type: Optional[ThreadPoolExecutor]
         self._submit_pool = None                       # type: Optional[MultiCoreExecutor]
-        self.submit_pool_lock = threading.Lock()       # type: threading.Lock
+        self.submit_pool_lock = threading.RLock()      # type: threading.RLock
         self.loop = event_loop                         # type: asyncio.AbstractEventLoop
         self.log_file = ''                             # type: str
         self._closed = False                           # type: bool
@@ -488,48 +488,50 @@ class ExecutionEnvironment:
             rpc_error = -32040, "Invalid parameter type %s for %s. Must be Dict or Sequence" \
                         % (str(type(params)), str(params))
             return result, rpc_error
-        try:
-            if executor is None:
-                result = (await executable()) if asyncio.iscoroutinefunction(method) \
-                    else executable()
-            else:
-                result = await self.loop.run_in_executor(executor, executable)
-        except TypeError as e:
-            stacktrace = traceback.format_exc()
-            rpc_error = -32602, f"Invalid Params: {e}\n{stacktrace}"
-            append_log(self.log_file, rpc_error[1])
-        except NameError as e:
-            stacktrace = traceback.format_exc()
-            rpc_error = -32601, f"Method not found: {e}\n{stacktrace}"
-            append_log(self.log_file, rpc_error[1])
-        except BrokenProcessPool as e:
-            if self.log_file:
-                append_log(self.log_file, 'WARNING: Broken ProcessPoolExecutor detected. '
-                           'Starting a new ProcessPoolExecutor', echo=True)
-            try:
-                # restart process pool and try again once
-                self.process_executor.shutdown(wait=True)
-                self._process_executor = ProcessPoolExecutor()
-                result = await self.loop.run_in_executor(executor, executable)
-            except BrokenProcessPool as e:
-                rpc_error = -32050, str(e)
-        except BrokenThreadPool as e:
-            if self.log_file:
-                append_log(self.log_file, 'WARNING: Broken ThreadPoolExecutor detected. '
-                           'Starting a new ThreadPoolExecutor', echo=True)
+        for retry in (True, False):
             try:
-                # restart thread pool and try again once
-                self.thread_executor.shutdown(wait=True)
-                self._thread_executor = ThreadPoolExecutor()
-                result = await self.loop.run_in_executor(executor, executable)
-            except BrokenThreadPool as e:
-                rpc_error = -32060, str(e)
-        except Exception as e:
-            stacktrace = traceback.format_exc()
-            rpc_error = -32000, "Server Error %s: %s\n%s" % (str(type(e)), str(e), stacktrace)
-            append_log(self.log_file, rpc_error[1])
+                if executor is None:
+                    result = (await executable()) if asyncio.iscoroutinefunction(method) \
+                        else executable()
+                else:
+                    result = await self.loop.run_in_executor(executor, executable)
+            except TypeError as e:
+                stacktrace = traceback.format_exc()
+                rpc_error = -32602, f"Invalid Params: {e}\n{stacktrace}"
+                append_log(self.log_file, rpc_error[1])
+            except NameError as e:
+                stacktrace = traceback.format_exc()
+                rpc_error = -32601, f"Method not found: {e}\n{stacktrace}"
+                append_log(self.log_file, rpc_error[1])
+            except (BrokenProcessPool, BrokenThreadPool) as e:
+                broken = 'Process' if isinstance(e, BrokenProcessPool) else 'Thread'
+                if retry and executor is not None and not self._closed:
+                    # restart process or thread pool and try again once
+                    if self.log_file:
+                        append_log(self.log_file, f'WARNING: Broken {broken}PoolExecutor detected. '
+                                   f'Starting a new {broken}PoolExecutor', echo=True)
+                    executor = self.replace_executor(executor)
+                    continue
+                rpc_error = -32050 if broken == 'Process' else -32060, str(e)
+            except Exception as e:
+                stacktrace = traceback.format_exc()
+                rpc_error = -32000, "Server Error %s: %s\n%s" % (str(type(e)), str(e), stacktrace)
+                append_log(self.log_file, rpc_error[1])
+            break
         return result, rpc_error
 
+    def replace_executor(self, broken: Executor) -> Executor:
+        """Shuts a broken executor down and returns its replacement. The broken executor
+        will be replaced only once, no matter how many requests have been affected."""
+        with self.submit_pool_lock:
+            if broken is self._process_executor:
+                self._process_executor = None
+            elif broken is self._thread_executor:
+                self._thread_executor = None
+        broken.shutdown(wait=False)
+        return self.thread_executor if isinstance(broken, ThreadPoolExecutor) \
+            else self.process_executor
+
     def submit_as_process(self, func, *args) -> Future:
         """Submits a long-running function to the secondary process-pool.
         Other than `execute()` this works synchronously and thread-safe.
-- 
2.43.0


From 4f581b0c15e5db751b2b214c660aefb2f33c0da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:38 +0000
Subject: [PATCH 008/101] fix: escape lone surrogates in server-initiated calls

---
 DHParser/server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/server.py b/DHParser/server.py
index 8c3b855..6df413e 100644
--- a/DHParser/server.py
+++ b/DHParser/server.py
@@ -865,7 +865,7 @@ class Connection:
         json_str = json_rpc(method, params, ID)
         self.log('SERVER NOTIFICATION: ' if ID is None else 'SERVER REQUEST: ',
                  pp_json_str(json_str), '\n\n')
-        request = json_str.encode()
+        request = json_str.encode(errors='backslashreplace')  # escapes lone surrogates
         # self.writer.write(JSONRPC_HEADER_BYTES % len(request))
         # sefl.writer.write(request)
         request = JSONRPC_HEADER_BYTES % len(request) + request
-- 
2.43.0


From 7cb53e009a93c1b89f7bd3765f45c451d2878d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:18 +0000
Subject: [PATCH 009/101] fix: invalid life-cycle requests do not change the
 state of the connection

---
 DHParser/server.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/DHParser/server.py b/DHParser/server.py
index 6df413e..e8a4e37 100644
--- a/DHParser/server.py
+++ b/DHParser/server.py
@@ -1511,10 +1511,7 @@ class Server:
         result = None      # type: Optional[JSON_Type]
         rpc_error = None   # type: Optional[RPC_Error_Type]
         method_name = json_obj.get('method', '')
-        if str(json_obj.get('jsonrpc', '0.0')) < '2.0':
-            rpc_error = -32600, 'Invalid Request: jsonrpc version 2.0 needed, version "' \
-                                ' "%s" found.' % json_obj.get('jsonrpc', b'unknown')
-        elif not method_name:
+        if not method_name:
             rpc_error = -32600, 'Invalid Request: No method specified.'
         elif method_name == STOP_SERVER_REQUEST:
             result = self.stop_response
@@ -1838,6 +1835,10 @@ class Server:
                     method = json_obj.get('method', '')
                     if not isinstance(method, str):
                         rpc_error = -32600, 'Invalid Request: "method" must be a string'
+                    elif method and str(json_obj.get('jsonrpc', '0.0')) < '2.0':
+                        # must be checked before the request can affect the connection's state
+                        rpc_error = -32600, 'Invalid Request: jsonrpc version 2.0 needed, ' \
+                            'version "%s" found.' % json_obj.get('jsonrpc', 'unknown')
                     elif raw_id is not None and method and raw_id in connection.active_tasks:
                         rpc_error = -32600, 'Invalid Request: id %s is already in use' % raw_id
                     elif method:
-- 
2.43.0


From aa5fdbd5091ba2694a3d94ccdf5b826e25d4dafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:29 +0000
Subject: [PATCH 010/101] fix: stop a server even if the client does not read
 its responses; leave the rpc-table alone

The second server with the same rpc-table raised an AttributeError.
---
 DHParser/server.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/DHParser/server.py b/DHParser/server.py
index e8a4e37..2acd405 100644
--- a/DHParser/server.py
+++ b/DHParser/server.py
@@ -1109,8 +1109,10 @@ class Server:
                  strict_lsp: bool = True):
         self.server_name = server_name or self.__class__.__name__
         self.strict_lsp = strict_lsp
+        self._log_file = ''       # type: str
         if isinstance(rpc_functions, Dict):
-            self.rpc_table = cast(RPC_Table, rpc_functions)  # type: RPC_Table
+            # copy, because the service-functions of this server will be added to the table
+            self.rpc_table = cast(RPC_Table, rpc_functions).copy()  # type: RPC_Table
             if 'default' not in self.rpc_table:
                 self.rpc_table['default'] = default_fallback
             self.default = 'default'
@@ -1169,7 +1171,6 @@ class Server:
 
         self._echo_log = get_config_value('echo_server_log')  # type: bool
         self.use_jsonrpc_header = get_config_value('jsonrpc_header')  # type: bool
-        self._log_file = ''       # type: str
         self.log_filter = LogFilter()
         if get_config_value('log_server'):
             self.start_logging()
@@ -1409,9 +1410,9 @@ class Server:
             await respond("Data too large! Only %i MB allowed"
                           % (self.max_data_size // (1024 ** 2)))
         elif data.startswith(STOP_SERVER_REQUEST_BYTES):
-            await respond(self.stop_response)
-            self.kill_switch = True
+            self.kill_switch = True  # first, because the client might not read the response
             reader.feed_eof()
+            await respond(self.stop_response)
         else:
             m = re.match(RE_FUNCTION_CALL, data)
             if m:
@@ -1470,11 +1471,11 @@ class Server:
                     elif argument[-3:].lower() == '.js':  mime = 'text/javascript'
                 argument = (argument,) if argument else ()
                 if func_name == STOP_SERVER_REQUEST:
+                    self.kill_switch = True
+                    reader.feed_eof()
                     await self.respond(
                         writer, http_response(HTML_TEMPLATE.format(heading=self.stop_response,
                                                                    content='')))
-                    self.kill_switch = True
-                    reader.feed_eof()
                 else:
                     err_func = lambda *args, **kwargs: UNKNOWN_FUNC_HTML.format(func=func_name)
                     func = self.rpc_table.get(func_name, err_func)
@@ -1653,11 +1654,11 @@ class Server:
             writer.close()
             if sys.version_info >= (3, 7, 0):
                 await asyncio.wait_for(writer.wait_closed(), timeout)
-        except (ConnectionError, OSError) as err:
-            self.log('ERROR while closing connection: ', str(err), '\n')
-        except asyncio.TimeoutError:
+        except asyncio.TimeoutError:  # must be first: it is an OSError with Python >= 3.11
             if isinstance(writer, asyncio.StreamWriter):
                 writer.transport.abort()
+        except (ConnectionError, OSError) as err:
+            self.log('ERROR while closing connection: ', str(err), '\n')
         if id_connection:
             self.log('SERVER MESSAGE: Closing connection: {}.\n\n'.format(id_connection))
         else:
-- 
2.43.0


From 258b4a1959462ab26ea301023bd35c252b128576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:24 +0000
Subject: [PATCH 011/101] fix: stream transports deliver all bytes in order and
 never block the server

---
 DHParser/server.py  | 72 ++++++++++++++++++++++++++-------------------
 DHParser/testing.py | 47 ++++++++++++++---------------
 2 files changed, 64 insertions(+), 55 deletions(-)

diff --git a/DHParser/server.py b/DHParser/server.py
index 2acd405..1bd67ad 100644
--- a/DHParser/server.py
+++ b/DHParser/server.py
@@ -53,6 +53,7 @@ For the specification and implementation of the language server protocol, see:
 from __future__ import annotations
 
 import asyncio
+from collections import deque
 from concurrent.futures import Future, Executor, ThreadPoolExecutor, ProcessPoolExecutor
 try:
     from concurrent.futures import InterpreterPoolExecutor
@@ -636,31 +637,38 @@ class StreamReaderProxy:
         self.exec = None    # type: Optional[Executor]
         self.max_data_size = get_config_value('max_rpc_size')
         self._eof = False   # type: bool
+        self._reading = None  # type: Optional[asyncio.Future]
+        self._eof_fed = None  # type: Optional[asyncio.Future]
 
     def feed_eof(self):
         self._eof = True
-        self.buffered_io.close()
+        if self._reading is None or self._reading.done():
+            self.buffered_io.close()
+        elif not self._eof_fed.done():
+            # A thread is waiting for data. While some kinds of streams can be closed,
+            # nonetheless, others do not return from close() before the data has arrived.
+            self._eof_fed.set_result(True)
+            self.loop.run_in_executor(self.exec, self.buffered_io.close)
 
     def at_eof(self) -> bool:
-        try:
-            return self.buffered_io.closed
-        except AttributeError:
-            return self._eof
+        # Don't ask buffered_io.closed, here: There may still be unread data!
+        return self._eof
 
     async def _read(self, n=-1) -> bytes:
         if self._eof:
             return b''
         if 1 <= n < self.max_data_size:
-            return await self.loop.run_in_executor(self.exec, self.buffered_io.read, n)
-            # return self.buffered_io.read(n)
+            reading = self.loop.run_in_executor(self.exec, self.buffered_io.read, n)
         else:
-            data = await self.loop.run_in_executor(self.exec, self.buffered_io.readline)
-            # if len(data) > 0:
-            #     data += await self.loop.run_in_executor(self.exec, self.buffered_io.readline)
-            #     # data += self.buffered_io.readline()
-            if len(data) <= 0:
-                self.feed_eof()
-            return data
+            reading = self.loop.run_in_executor(self.exec, self.buffered_io.readline)
+        self._reading, self._eof_fed = reading, self.loop.create_future()
+        await asyncio.wait({reading, self._eof_fed}, return_when=asyncio.FIRST_COMPLETED)
+        if self._eof:
+            return b''
+        data = await reading
+        if len(data) <= 0:
+            self.feed_eof()
+        return data
 
     async def read(self, n=-1) -> bytes:
         try:
@@ -700,10 +708,10 @@ async def read_full_block(reader: StreamReaderType) -> Tuple[int, bytes, bytes]:
             m2 = re.search(RE_DATA_START, data)
         if m2:
             header_size = m2.end()
-            missing = header_size + content_length - len(data)
-            if missing > 0:
-                data += await reader.read(missing)
-                backlog = data[header_size + content_length:]
+            size = header_size + content_length
+            while len(data) < size and not reader.at_eof():
+                data += await reader.read(size - len(data))
+            data, backlog = data[:size], data[size:]
         else:
             header_size = 0
     else:
@@ -723,7 +731,8 @@ class StreamWriterProxy:
             self.buffered_io = io_writer.buffer
         except AttributeError:
             self.buffered_io = io_writer
-        self.buffer = []
+        self.buffer = deque()  # type: Deque[bytes]
+        self.lock = threading.Lock()  # ensures that data from different threads is written in order
         self.loop = None    # type: Optional[asyncio.AbstractEventLoop]
         self.exec = None    # type: Optional[Executor]
 
@@ -736,13 +745,12 @@ class StreamWriterProxy:
         return True
 
     def write_eof(self):
-        data, self.buffer = self.buffer, []
         try:
-            self.buffered_io.writelines(data)
-            self.buffered_io.flush()
+            self._drain()
         except ValueError:
             pass
-        self.buffered_io.close()
+        with self.lock:
+            self.buffered_io.close()
 
     def close(self):
         # if not self.buffered_io.closed:
@@ -751,19 +759,23 @@ class StreamWriterProxy:
     async def wait_closed(self):
         assert self.buffered_io.closed, "buffer is not even closing!"
 
-    def _drain(self, data: List[str]):
-        self.buffered_io.writelines(data)
-        self.buffered_io.flush()
+    def _drain(self):
+        with self.lock:
+            data = []
+            while self.buffer:
+                data.append(self.buffer.popleft())
+            if data:
+                self.buffered_io.writelines(data)
+                self.buffered_io.flush()
 
     async def drain(self):
-        data, self.buffer = self.buffer, []
-        if data:
+        if self.buffer:
             try:
-                await self.loop.run_in_executor(self.exec, self._drain, data)
+                await self.loop.run_in_executor(self.exec, self._drain)
             except AttributeError:
                 self.loop = asyncio.get_running_loop() if sys.version_info >= (3, 7, 0) \
                     else asyncio.get_event_loop()
-                await self.loop.run_in_executor(self.exec, self._drain, data)
+                await self.loop.run_in_executor(self.exec, self._drain)
 
 
 StreamWriterType = Union[asyncio.StreamWriter, StreamWriterProxy]
diff --git a/DHParser/testing.py b/DHParser/testing.py
index 6411b99..ada072d 100644
--- a/DHParser/testing.py
+++ b/DHParser/testing.py
@@ -1516,13 +1516,18 @@ class MockStream:
 
     @property
     def closed(self) -> bool:
-        countdown = 50
-        while self._closed and self.data and countdown > 0:
-            self.data_waiting.set()
-            time.sleep(0.01)
-            countdown -= 1
         return self._closed
 
+    def _no_more_data(self) -> bool:
+        """Returns True, if all data has been read and no further data can be written."""
+        with self.lock:
+            return self._closed and not self.data
+
+    def _data_consumed(self):
+        """Must be called with the lock being held after data has been read."""
+        if not self.data and not self._closed:
+            self.data_waiting.clear()
+
     def data_available(self) -> int:
         """Returns the size of the available data."""
         return sum(len(chunk) for chunk in self.data)
@@ -1547,19 +1552,13 @@ class MockStream:
         with self.lock:
             self.data_waiting.set()
 
-    def _read(self, n=-1) -> Union[List[bytes], Deque[bytes]]:
+    def _read(self, n=-1) -> List[bytes]:
         with self.lock:
             if n < 0:
-                self.data_waiting.clear()
-                if len(self.data) == 1:
-                    return [self.data.popleft()]
-                else:
-                    data = self.data
-                    # use pop() to clear data, so the data-list object stays in place
-                    # which would not be the case when simply assigning an empty list.
-                    while self.data:
-                        self.data.pop()
-                    return data
+                data = list(self.data)
+                self.data.clear()
+                self._data_consumed()
+                return data
             elif n > 0:
                 size = 0
                 data = []
@@ -1569,17 +1568,16 @@ class MockStream:
                         data.append(self.data.popleft())
                         size += i
                     else:
-                        cut = size + i - n
+                        cut = n - size
                         data.append(self.data[0][:cut])
                         self.data[0] = self.data[0][cut:]
                         size = n
-                if not self.data:
-                    self.data_waiting.clear()
+                self._data_consumed()
                 return data
             else:
                 return [b'']
 
-    def _readline(self) -> Union[List[bytes], Deque[bytes]]:
+    def _readline(self) -> List[bytes]:
         with self.lock:
             data = []
             while self.data:
@@ -1593,24 +1591,23 @@ class MockStream:
                     data.append(self.data[0][:i + 1])
                     self.data[0] = self.data[0][i + 1:]
                     break
-            if not self.data:
-                self.data_waiting.clear()
+            self._data_consumed()
             return data
 
     def read(self, n=-1) -> bytes:
         data = self._read(n)
         if n > 0:
             N = sum(len(chunk) for chunk in data)
-            while N < n:
+            while N < n and not self._no_more_data():
                 self.data_waiting.wait()
-                more = self._read(n)
+                more = self._read(n - N)
                 N += sum(len(chunk) for chunk in more)
                 data.extend(more)
         return b''.join(data)
 
     def readline(self) -> bytes:
         data = self._readline()
-        while not self._closed and (not data or data[-1][-1] != ord(b'\n')):
+        while not (data and data[-1].endswith(b'\n')) and not self._no_more_data():
             self.data_waiting.wait()
             data.extend(self._readline())
         return b''.join(data)
-- 
2.43.0


From 948ac69ed1a121576c67d0b24f591196a2953eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:52 +0000
Subject: [PATCH 012/101] fix: client-side helpers keep to their timeout and
 report the truth

---
 DHParser/server.py | 55 ++++++++++++++++++++++++++++++++--------------
 1 file changed, 38 insertions(+), 17 deletions(-)

diff --git a/DHParser/server.py b/DHParser/server.py
index 1bd67ad..3eeb549 100644
--- a/DHParser/server.py
+++ b/DHParser/server.py
@@ -589,9 +589,14 @@ async def asyncio_connect(
     OSError_countdown = 10
     while not connected and delay < retry_timeout:
         try:
-            reader, writer = await asyncio.open_connection(host, port)
+            reader, writer = await asyncio.wait_for(asyncio.open_connection(host, port),
+                                                    retry_timeout or SERVER_REPLY_TIMEOUT)
             delay = retry_timeout
             connected = True
+        except asyncio.TimeoutError:  # must precede OSError
+            save_error = asyncio.TimeoutError('No connection to %s:%i within %f seconds'
+                                              % (host, port, retry_timeout))
+            delay = retry_timeout  # exit while loop
         except ConnectionRefusedError as error:
             save_error = error
             if delay > 0.0:
@@ -1986,15 +1991,15 @@ async def probe_tcp_server(host, port, timeout=SERVER_REPLY_TIMEOUT) -> str:
     """Connects to server and sends an identify-request. Returns the response
     or an empty string if connection failed or command timed out."""
     try:
-        reader, writer = await asyncio.open_connection(host, port)
+        reader, writer = await asyncio.wait_for(asyncio.open_connection(host, port), timeout)
         try:
             # request = b'{"jsonrpc": "2.0", "method": "identify", "params": [], "id": null}'
             writer.write(IDENTIFY_REQUEST_BYTES)
             ident = await asyncio.wait_for(reader.read(get_config_value('max_rpc_size')), timeout)
             return ident.decode()
-        except asyncio.TimeoutError:
-            return ''
-    except ConnectionRefusedError:
+        finally:
+            writer.close()
+    except (asyncio.TimeoutError, OSError):
         return ''
 
 
@@ -2171,10 +2176,18 @@ async def has_server_stopped(host: str = USE_DEFAULT_HOST,
     delay = timeout / 1.5**12 if timeout > 0.0 else timeout - 0.001
     try:
         while delay < timeout:
-            _, writer = await asyncio_connect(host, port, retry_timeout=0.0)
-            writer.close()
-            if sys.version_info >= (3, 7, 0):
-                await writer.wait_closed()
+            try:
+                _, writer = await asyncio.wait_for(
+                    asyncio_connect(host, port, retry_timeout=0.0), timeout or SERVER_REPLY_TIMEOUT)
+                writer.close()
+                if sys.version_info >= (3, 7, 0):
+                    await writer.wait_closed()
+            except ConnectionRefusedError:
+                raise
+            except asyncio.TimeoutError:
+                break
+            except OSError:
+                pass  # a connection that fails is not a proof that the server has stopped
             if delay > 0.0:
                 await asyncio.sleep(delay)
                 delay *= 1.5
@@ -2203,15 +2216,23 @@ async def send_stop_request(reader: StreamReaderType, writer: StreamWriterType):
 
 async def send_stop_server(host: str, port: int, timeout) -> Optional[Exception]:
     try:
-        reader, writer = await asyncio.open_connection(host, port)
-        await send_stop_request(reader, writer)
+        reply_timeout = timeout if timeout > 0.0 else SERVER_REPLY_TIMEOUT
+        stopped = timeout <= 0.0
+        try:
+            reader, writer = await asyncio.wait_for(
+                asyncio.open_connection(host, port), reply_timeout)
+            try:
+                await asyncio.wait_for(send_stop_request(reader, writer), reply_timeout)
+            finally:
+                writer.close()
+        except asyncio.TimeoutError:  # must precede OSError
+            stopped = False
         if timeout > 0.0:
-            if not await has_server_stopped(host, port, timeout):
-                raise AssertionError('Could not stop server on host %s port %i '
-                                     'within timeout %f !' % (host, port, timeout))
-    except ConnectionRefusedError as error:
-        return error
-    except ConnectionResetError as error:
+            stopped = await has_server_stopped(host, port, timeout)
+        if not stopped:
+            raise AssertionError('Could not stop server on host %s port %i '
+                                 'within timeout %f !' % (host, port, timeout))
+    except OSError as error:
         return error
     return None
 
-- 
2.43.0


From 876c6c8621fb0a5c692ed4ae823d4f08590b6169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:37 +0000
Subject: [PATCH 013/101] fix: presets survive failures and can be accessed
 from several threads

---
 DHParser/configuration.py | 187 +++++++++++++++++++++++---------------
 1 file changed, 116 insertions(+), 71 deletions(-)

diff --git a/DHParser/configuration.py b/DHParser/configuration.py
index 963ba4e..063c93d 100644
--- a/DHParser/configuration.py
+++ b/DHParser/configuration.py
@@ -82,24 +82,28 @@ __all__ = ('CONFIG_PRESET',
 CONFIG_PRESET = dict()  # type: Dict[str, Any]
 CONFIG_PRESET['syncfile_path'] = ''
 ACCESSING_PRESETS = False
+PRESETS_OWNER = (0, None)  # id of the thread that is accessing the presets and its lock
 PRESETS_CHANGED = False
 THREAD_LOCALS = None
 ALLOWED_PRESET_VALUES = dict()  # Dict[str, Union[Set, Tuple[int, int]]
 # dictionary that maps config variables to a set or range of allowed values
 
 
-access_lock = None  # = threading.Lock()
+# objects from the threading-module that are created upon first usage. (setdefault() is atomic!)
+THREADING_OBJECTS = dict()  # type: Dict[str, Any]
 
 
 def get_access_lock():  # -> threading.Lock()
     """Return a global threading.Lock, create it upon first usage."""
-    global access_lock
-    if access_lock is None:
-        import threading
-        lock = threading.Lock()
-        if access_lock is None:
-            access_lock = lock
-    return access_lock
+    import threading
+    return THREADING_OBJECTS.setdefault('access_lock', threading.Lock())
+
+
+def get_presets_lock():  # -> threading.Lock()
+    """Return the lock that is held between access_presets() and finalize_presets().
+    (A process that has been forked in between does not share its parent's lock.)"""
+    import os, threading
+    return THREADING_OBJECTS.setdefault('presets_lock_%i' % os.getpid(), threading.Lock())
 
 
 def validate_value(key: str, value: Any):
@@ -170,15 +174,43 @@ def access_presets():
     changed preset-values to spawned processes. For an explanation why,
     see: https://docs.python.org/3/library/multiprocessing.html#the-spawn-and-forkserver-start-methods
     """
-    global ACCESSING_PRESETS, CONFIG_PRESET
-    if ACCESSING_PRESETS:
+    if is_accessing_presets():
         raise AssertionError('Presets are already being accessed! '
                              'Calls to access_presets() cannot be nested.')
+    _open_presets()
+
+
+def _open_presets(blocking: bool=True) -> bool:
+    """Waits until no other thread accesses the presets (or returns `False`
+    immediately, if `blocking` is False) and makes them accessible for this thread."""
+    global ACCESSING_PRESETS, PRESETS_OWNER
+    import threading
+    lock = get_presets_lock()
+    if not lock.acquire(blocking):
+        return False
+    PRESETS_OWNER = (threading.get_ident(), lock)
     ACCESSING_PRESETS = True
+    try:
+        _load_syncfile()
+    except BaseException:
+        _close_presets()
+        raise
+    return True
+
+
+def _close_presets():
+    global ACCESSING_PRESETS, PRESETS_OWNER
+    lock = PRESETS_OWNER[1]
+    PRESETS_OWNER = (0, None)
+    ACCESSING_PRESETS = False
+    lock.release()
+
+
+def _load_syncfile():
+    global CONFIG_PRESET
     import multiprocessing
     mp_method = multiprocessing.get_start_method()
     if mp_method != 'fork' or CONFIG_PRESET['multicore_pool'] == 'InterpreterPool':
-        import os
         import pickle
         syncfile_path = get_syncfile_path(mp_method)
         f = None
@@ -198,14 +230,15 @@ def access_presets():
 
 
 def is_accessing_presets() -> bool:
-    """Checks if presets are currently open for changes."""
-    global ACCESSING_PRESETS
-    return ACCESSING_PRESETS
+    """Checks if presets are currently open for changes by the current thread."""
+    import threading
+    return ACCESSING_PRESETS and PRESETS_OWNER[0] == threading.get_ident()
 
 
 def remove_cfg_tempfile(filename: str):
     import os
-    os.remove(filename)
+    if os.path.exists(filename):
+        os.remove(filename)
 
 
 def finalize_presets(fail_on_error: bool=False):
@@ -214,9 +247,16 @@ def finalize_presets(fail_on_error: bool=False):
     This method should always be called after changing preset values to
     make sure the changes will be visible to processes spawned later.
     """
-    global ACCESSING_PRESETS, PRESETS_CHANGED, CONFIG_PRESET
-    if not ACCESSING_PRESETS:
+    if not is_accessing_presets():
         raise AssertionError('Presets are not being accessed and therefore cannot be finalized!')
+    try:
+        _save_syncfile(fail_on_error)
+    finally:
+        _close_presets()
+
+
+def _save_syncfile(fail_on_error: bool=False):
+    global PRESETS_CHANGED
     if PRESETS_CHANGED:
         import multiprocessing
         mp_method = multiprocessing.get_start_method()
@@ -229,16 +269,20 @@ def finalize_presets(fail_on_error: bool=False):
                     if not os.path.exists(syncfile_path):
                         raise AssertionError(
                             "finalize_presets() can only be called from the main process!")
-            with open(syncfile_path, 'wb') as f:
-                existing_syncfile = CONFIG_PRESET['syncfile_path']
-                CONFIG_PRESET['syncfile_path'] = syncfile_path
-                if existing_syncfile != syncfile_path:
-                    atexit.register(remove_cfg_tempfile, syncfile_path)
-                pickle.dump(CONFIG_PRESET, f)
+            existing_syncfile = CONFIG_PRESET['syncfile_path']
+            CONFIG_PRESET['syncfile_path'] = syncfile_path
+            if existing_syncfile != syncfile_path:
+                atexit.register(remove_cfg_tempfile, syncfile_path)
+            # never leave an incomplete syncfile for other processes to read
+            tmp_path = '%s.%i.tmp' % (syncfile_path, os.getpid())
+            try:
+                with open(tmp_path, 'wb') as f:
+                    pickle.dump(CONFIG_PRESET, f)
+                os.replace(tmp_path, syncfile_path)
+            except BaseException:
+                remove_cfg_tempfile(tmp_path)
+                raise
         PRESETS_CHANGED = False
-    ACCESSING_PRESETS = False
-    # if THREAD_LOCALS is not None:
-    #     THREAD_LOCALS.config = {}  # reset THREAD_LOCALS
 
 
 RENAMED_KEYS = {
@@ -275,18 +319,20 @@ def ingest_config_data(config, sources=''):
     configparser.ConfigParser-object."""
     errors = []
     access_presets()
-    for section in config.sections():
-        try:
-            if section.lower() == "dhparser":
-                for variable, value in config[section].items():
-                    set_preset_value(f"{variable}", eval(value))
-            else:
-                for variable, value in config[section].items():
-                    set_preset_value(f"{section}.{variable}", eval(value),
-                                     allow_new_key=True)
-        except ValueError as e:
-            errors.append(' '.join(e.args))
-    finalize_presets()
+    try:
+        for section in config.sections():
+            try:
+                if section.lower() == "dhparser":
+                    for variable, value in config[section].items():
+                        set_preset_value(f"{variable}", eval(value))
+                else:
+                    for variable, value in config[section].items():
+                        set_preset_value(f"{section}.{variable}", eval(value),
+                                         allow_new_key=True)
+            except ValueError as e:
+                errors.append(' '.join(e.args))
+    finally:
+        finalize_presets()
     if errors:
         sources = f' files: {sources}'
         raise ValueError(f"\n\nErrors found in configuration{sources}:\n\n"
@@ -394,7 +440,7 @@ def get_preset_values(key_pattern: str) -> Dict:
         raise AssertionError('Presets must be made accessible with access_presets() first, '
                              'before they can be read!')
     import fnmatch
-    return {key: value for key, value in CONFIG_PRESET.items()
+    return {key: value for key, value in CONFIG_PRESET.copy().items()
             if fnmatch.fnmatchcase(key, key_pattern)}
 
 
@@ -406,7 +452,8 @@ def access_thread_locals() -> Any:
     global THREAD_LOCALS
     if THREAD_LOCALS is None:
         import threading
-        THREAD_LOCALS = threading.local()  # TODO: Use ContextVars, here!!!
+        # TODO: Use ContextVars, here!!!
+        THREAD_LOCALS = THREADING_OBJECTS.setdefault('thread_locals', threading.local())
     return THREAD_LOCALS
 
 
@@ -436,45 +483,41 @@ def get_config_value(key: str, default: Any = NO_DEFAULT) -> Any:
         exists for the key.
     :return:     the value
     """
-    with get_access_lock():
-        cfg = _config_dict()
-        try:
+    cfg = _config_dict()
+    try:
+        return cfg[key]
+    except KeyError:
+        for k, v in _current_presets().items():
+            if k not in cfg:
+                cfg[k] = v
+        if default is NO_DEFAULT:
             return cfg[key]
-        except KeyError:
-            access_presets()
-            # value = get_preset_value(key, default)
-            for k, v in CONFIG_PRESET.items():
-                if k not in cfg:
-                    cfg[k] = v
-            finalize_presets()
-            if default is NO_DEFAULT:
-                value = cfg[key]
-            else:
-                value = cfg.get(key, default)
-            return value
+        return cfg.get(key, default)
+
+
+def _current_presets() -> Dict:
+    """Returns a copy of the presets. This never waits for other threads."""
+    opened = not is_accessing_presets() and _open_presets(blocking=False)
+    try:
+        return CONFIG_PRESET.copy()
+    finally:
+        if opened:
+            _close_presets()
 
 
 def get_config_values(key_pattern: str = "*", *additional_patterns) -> Dict:
     """Returns a dictionary of all configuration entries that match
     `key_pattern`."""
-    access_presets()
-    presets = get_preset_values(key_pattern)
-    for pattern in additional_patterns:
-        presets.update(get_preset_values(pattern))
-    finalize_presets()
     import fnmatch
-    with get_access_lock():
-        cfg = _config_dict()
-        cfg_values = dict()
+    cfg = _config_dict()
+    presets = _current_presets()
+    values = dict()
+    for source in (presets, cfg):
         for pattern in (key_pattern, *additional_patterns):
-            if pattern == "*":
-                cfg_values.update(cfg)
-            else:
-                cfg_values.update({key: value for key, value in cfg.items()
-                                   if fnmatch.fnmatchcase(key, key_pattern)})
-        presets.update(cfg_values)
-        cfg.update(presets)
-    return presets
+            values.update({key: value for key, value in source.items()
+                           if fnmatch.fnmatchcase(key, pattern)})
+    cfg.update(values)
+    return values
 
 
 def set_config_value(key: str, value: Any, allow_new_key: bool = False):
@@ -509,6 +552,8 @@ def add_config_values(configuration: dict):
     """
     with get_access_lock():
         cfg = _config_dict()
+        for key, value in configuration.items():
+            validate_value(key, value)
         cfg.update(configuration)
 
 
-- 
2.43.0


From 84115f076e032f312d97cdd66ab360f1c7797f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:11 +0000
Subject: [PATCH 014/101] fix: names of thread-local singletons are unique even
 if memory addresses are reused

---
 DHParser/toolkit.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/DHParser/toolkit.py b/DHParser/toolkit.py
index cdd93b0..0417f26 100644
--- a/DHParser/toolkit.py
+++ b/DHParser/toolkit.py
@@ -29,6 +29,7 @@ from __future__ import annotations
 # import concurrent.futures # commented out to save startup time
 import functools
 import io
+import itertools
 import json
 import os
 import re
@@ -1750,14 +1751,12 @@ def pp_json_str(jsons: str) -> str:
 #
 #######################################################################
 
-global_id_counter: int = 0
+global_id_counter = itertools.count(1)
 
 
 def gen_id() -> int:
-    """Generates a unique id. (Not thread-safe!)"""
-    global global_id_counter
-    global_id_counter += 1
-    return global_id_counter
+    """Generates a unique id. (Thread-safe, because next() is an atomic operation.)"""
+    return next(global_id_counter)
 
 
 class ThreadLocalSingletonFactory:
@@ -1779,12 +1778,8 @@ class ThreadLocalSingletonFactory:
         self.class_or_factory = class_or_factory
         # partial functions do not have a __name__ attribute!
         name = name or getattr(class_or_factory, '__name__', '') or class_or_factory.func.__name__
-        if not uniqueID:
-            if not hasattr(self.__class__, 'lock'):
-                import threading
-                self.__class__.lock = threading.Lock()
-            with self.__class__.lock:
-                uniqueID = gen_id()
+        # the id of an object can be reused after its deletion, therefore always add gen_id()
+        uniqueID = f"{uniqueID}_{gen_id()}" if uniqueID else gen_id()
         self.singleton_name = f"{name}_{str(id(self))}_{str(uniqueID)}_singleton"
         THREAD_LOCALS = access_thread_locals()
         assert not hasattr(THREAD_LOCALS, self.singleton_name), self.singleton_name
-- 
2.43.0


From 8e9aab888a4b5092d56e99f28550f5965feb16df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:11 +0000
Subject: [PATCH 015/101] fix: several threads can instantiate the same grammar
 class at the same time

---
 DHParser/parse.py | 52 +++++++++++++++++++++++++++++------------------
 1 file changed, 32 insertions(+), 20 deletions(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index 0753432..b46495c 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -35,6 +35,7 @@ import functools
 from collections import defaultdict
 import copy
 from functools import lru_cache
+import threading
 from typing import Callable, cast, Collection, DefaultDict, Sequence, Union, Optional, \
     NamedTuple, Iterator
 
@@ -1355,6 +1356,9 @@ def is_disposable(name: str, disposables: AbstractSet[str]|RxPatternType) -> boo
         return bool(re.match(disposables, name))
 
 
+_class_initialization_lock = threading.RLock()
+
+
 class Grammar:
     r"""
     Class Grammar directs the parsing process and stores global state
@@ -1681,21 +1685,28 @@ class Grammar:
         (www.python.org/dev/peps/pep-0520/) for an explanation of why.
         """
         if cls.parser_initialization__[0] != "done" and cls != Grammar:
-            cdict = cls.__dict__
-            # cls.static_analysis_errors__ = []
-            cls.parser_names__ = []
-            for entry, parser in cdict.items():
-                if isinstance(parser, Parser) and entry not in RESERVED_PARSER_NAMES:
-                    anonymous = ":" if is_disposable(entry, cls.disposable__) else ""
-                    assert anonymous or not parser.drop_content, entry
-                    if isinstance(parser, Forward):
-                        if not cast(Forward, parser).parser.pname:
-                            cast(Forward, parser).parser.name(anonymous + entry)
-                    else:
-                        parser.name(anonymous + entry)
-                    cls.parser_names__.append(entry)
-                    ensure_drop_propagation(parser)
-            cls.parser_initialization__ = ["done"]  # (over-)write subclass-variable
+            with _class_initialization_lock:  # other threads must wait until all names are assigned
+                if cls.parser_initialization__[0] != "done":
+                    cls._assign_parser_names_once__()
+
+
+    @classmethod
+    def _assign_parser_names_once__(cls):
+        cdict = cls.__dict__
+        # cls.static_analysis_errors__ = []
+        cls.parser_names__ = []
+        for entry, parser in cdict.items():
+            if isinstance(parser, Parser) and entry not in RESERVED_PARSER_NAMES:
+                anonymous = ":" if is_disposable(entry, cls.disposable__) else ""
+                assert anonymous or not parser.drop_content, entry
+                if isinstance(parser, Forward):
+                    if not cast(Forward, parser).parser.pname:
+                        cast(Forward, parser).parser.name(anonymous + entry)
+                else:
+                    parser.name(anonymous + entry)
+                cls.parser_names__.append(entry)
+                ensure_drop_propagation(parser)
+        cls.parser_initialization__ = ["done"]  # (over-)write subclass-variable
 
 
     def __deepcopy__(self, memo):
@@ -1798,9 +1809,12 @@ class Grammar:
         self.unconnected_parsers__: MutableSet[Parser] = set()
         self.resume_parsers__: MutableSet[Parser] = set()
         resume_lists = []
+        # copy the rules from class to instance, because they will contain parsers of this instance
         if hasattr(self, 'resume_rules__'):
+            self.resume_rules__ = {sym: list(rules) for sym, rules in self.resume_rules__.items()}
             resume_lists.extend(self.resume_rules__.values())
         if hasattr(self, 'skip_rules__'):
+            self.skip_rules__ = {sym: list(rules) for sym, rules in self.skip_rules__.items()}
             resume_lists.extend(self.skip_rules__.values())
         for l in resume_lists:
             for i in range(len(l)):
@@ -1822,11 +1836,9 @@ class Grammar:
                  or (static_analysis is None
                      and get_config_value('static_analysis') in {'early', 'late'}))):
             analysis_errors = self.static_analysis__()
-            # clears any stored errors without overwriting the pointer
-            while self.static_analysis_errors__:
-                self.static_analysis_errors__.pop()
-            self.static_analysis_errors__.extend(analysis_errors)
-            self.static_analysis_pending__.pop()
+            # replaces any stored errors without overwriting the pointer
+            self.static_analysis_errors__[:] = analysis_errors
+            self.static_analysis_pending__.clear()
             # raise a GrammarError even if result only contains warnings.
             # It is up to the caller to decide whether to ignore warnings
             # # has_errors = any(is_error(tpl[-1].code) for tpl in result)
-- 
2.43.0


From c704634fa861427074d81e029ae4d683b9232e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:16 +0000
Subject: [PATCH 016/101] fix: late-bound parsers belong to the grammar object
 that they are used by

---
 DHParser/parse.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index b46495c..8087389 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -1775,6 +1775,7 @@ class Grammar:
         self.cancel_query__: Optional[CancelQuery] = None
         self.cancel_query_last__: Optional[CancelQuery] = None
         self.cancel_interval__: int = CANCEL_QUERY_INTERVAL
+        self.parser_copies__: dict = dict()  # memo-dictionary for copy.deepcopy()
         self._reset__()
 
         # prepare parsers in the class, first
@@ -1795,7 +1796,7 @@ class Grammar:
         else:
             assert self.__class__ == Grammar or not is_parser_placeholder(self.__class__.root__),\
                 "Please add `root__` field to definition of class " + self.__class__.__name__
-            self.root_parser__ = copy.deepcopy(self.__class__.root__)
+            self.root_parser__ = copy.deepcopy(self.__class__.root__, self.parser_copies__)
             self.static_analysis_pending__ = self.__class__.static_analysis_pending__
             self.static_analysis_errors__ = self.__class__.static_analysis_errors__
         self.static_analysis_caches__ = dict()  # type: Dict[str, Dict]
@@ -1861,13 +1862,22 @@ class Grammar:
                     raise AttributeError(
                         f'Illegal parser-name "{key}" for grammar {self.__class__.__name__}!')
                 # add parser to grammar-object on the fly...
-                parser = copy.deepcopy(parser_template)
+                parser = copy.deepcopy(parser_template, self.parser_copies__)
                 parser.apply(self._add_parser__, self)
                 assert self[key] == parser
                 return self[key]
             raise AttributeError(f'Unknown parser "{key}" in grammar {self.__class__.__name__}!')
 
 
+    def _late_bound_parser__(self, name: str) -> Parser:
+        """Returns this grammar's own copy of the parser with the given name. Other
+        than with __getitem__(), the parser does not need to be connected, yet."""
+        if name not in self.__dict__:
+            parser_template = getattr(self.__class__, name)
+            setattr(self, name, copy.deepcopy(parser_template, self.parser_copies__))
+        return self.__dict__[name]
+
+
     def __contains__(self, key):
         return key in self.__dict__ or hasattr(self, key)
 
@@ -3657,6 +3667,7 @@ class LateBindingUnary(UnaryParser):
 
     def  __deepcopy__(self, memo):
         duplicate = self.__class__(self.parser_name)
+        memo[id(self)] = duplicate  # the late-bound parser may be recursive
         if not is_parser_placeholder(self.parser):
             duplicate.parser = copy.deepcopy(self.parser, memo)
             duplicate.sub_parsers = frozenset({duplicate.parser})
@@ -3669,7 +3680,7 @@ class LateBindingUnary(UnaryParser):
             if is_grammar_placeholder(self._grammar):
                 raise UninitializedError(
                     f'Grammar hast not yet been set in LateBindingUnary "{self}"')
-            self.parser = getattr(self.grammar, self.parser_name)
+            self.parser = self.grammar._late_bound_parser__(self.parser_name)
         return self.parser
 
     @property
-- 
2.43.0


From c2c41be1961c92166ccc2efda9c3d55a624f5bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:46 +0000
Subject: [PATCH 017/101] fix: history tracking is restored after a failed
 search for a re-entry point

---
 DHParser/parse.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index 8087389..db47395 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -437,7 +437,8 @@ def reentry_point(rest: StringView,
                     f"Error while searching re-entry point with parser {parser}: {pe}",
                     ERROR_WHILE_RECOVERING_FROM_ERROR)
                 _node, _text = None, ''
-            grammar.history_tracking__ = save
+            finally:
+                grammar.history_tracking__ = save
             if _node:
                 pos = len(rest) - len(_text)
                 if pos < closest_match:
-- 
2.43.0


From 3f91725f593d1ef0263835ca0050e90d59172f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:46 +0000
Subject: [PATCH 018/101] fix: the order of parsers does not depend on memory
 addresses

---
 DHParser/parse.py | 83 +++++++++++++++++++++++++----------------------
 1 file changed, 44 insertions(+), 39 deletions(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index db47395..4a6f9e6 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -608,7 +608,7 @@ class Parser:
         self.node_name = self.ptype   # type: str   # can be changed later
         self.disposable = True        # type: bool
         self.drop_content = False     # type: bool
-        self._sub_parsers = frozenset()  # type: FrozenSet[Parser]
+        self._sub_parsers = frozenset()  # type: Collection[Parser]
         # this indirection is required for Cython-compatibility
         self._parse_proxy = self._parse  # type: BoundParseFunc
         try:
@@ -616,9 +616,9 @@ class Parser:
         except NameError:
             pass                        # ensures Cython-compatibility
         self._symbol = ''               # type: str
-        self._descendants_cache = None  # type: Optional[AbstractSet[Parser]]
+        self._descendants_cache = None  # type: Optional[Tuple[Parser, ...]]
         self._anon_desc_cache = None    # type: Optional[AbstractSet[Parser]]
-        self._desc_trails_cache = None  # type: Optional[AbstractSet[ParserTrail]]
+        self._desc_trails_cache = None  # type: Optional[Tuple[ParserTrail, ...]]
         self.reset()
 
     def __deepcopy__(self, memo):
@@ -905,15 +905,15 @@ class Parser:
             self._grammar = grammar
 
     @property
-    def sub_parsers(self) -> FrozenSet[Parser]:
+    def sub_parsers(self) -> Collection[Parser]:
         return self._sub_parsers
 
     @sub_parsers.setter
-    def sub_parsers(self, f: FrozenSet[Parser]):
+    def sub_parsers(self, f: Collection[Parser]):
         self._sub_parsers = f
 
-    def descendants(self, grammar = _GRAMMAR_PLACEHOLDER) -> AbstractSet[Parser]:
-        """Returns a set of self and all descendant parsers,
+    def descendants(self, grammar = _GRAMMAR_PLACEHOLDER) -> Tuple[Parser, ...]:
+        """Returns self and all descendant parsers in pre-order,
         avoiding circles."""
         if self._descendants_cache is None:
             # Caches descendants, avoiding cycles; updates grammar if needed
@@ -921,40 +921,40 @@ class Parser:
                 self._descendants_cache = tuple(pt[-1] for pt in self._desc_trails_cache)
             else:
                 if  is_grammar_placeholder(grammar):   grammar = self._grammar
-                visited = set()
+                visited = dict()  # dictionaries keep the (pre-)order
 
                 def collect(parser: Parser):
                     nonlocal visited
                     if parser not in visited:
                         parser.grammar = grammar
-                        visited.add(parser)
+                        visited[parser] = True
                         for p in parser.sub_parsers:
                             collect(p)
                 collect(self)
-                self._descendants_cache = frozenset(visited)  # tuple(p for p in collect(self))
+                self._descendants_cache = tuple(visited)
         return self._descendants_cache
 
-    def descendant_trails(self) -> AbstractSet[ParserTrail]:
-        """Returns a set of the trails of self and all descendant
-        parsers, avoiding circles. NOTE: The algorithm is rather sloppy and
-        the returned set is not really comprehensive, but sufficient to trace
+    def descendant_trails(self) -> Tuple[ParserTrail, ...]:
+        """Returns the trails of self and all descendant
+        parsers in pre-order, avoiding circles. NOTE: The algorithm is rather sloppy and
+        the result is not really comprehensive, but sufficient to trace
         anonymous parsers to their nearest named ancestor."""
         if self._desc_trails_cache is None:
             visited = set()
-            trails = set()
+            trails = []
 
             def collect_trails(parser: Parser, ptrl: List[Parser]):
                 nonlocal visited, trails
                 if parser not in visited:
                     visited.add(parser)
                     ptrl.append(parser)
-                    trails.add(tuple(ptrl))
+                    trails.append(tuple(ptrl))
                     for p in parser.sub_parsers:
                         collect_trails(p, ptrl)
                     ptrl.pop()
 
             collect_trails(self, [])
-            self._desc_trails_cache = frozenset(trails)
+            self._desc_trails_cache = tuple(trails)
         return self._desc_trails_cache
 
     def apply(self, func: ApplyFunc, grammar = _GRAMMAR_PLACEHOLDER) -> Optional[bool]:
@@ -2375,7 +2375,7 @@ class Grammar:
             symbol = parser
         else:
             if not self.root_parser__.apply_to_trail(find_symbol_for_parser):
-                for resume_parser in self.unconnected_parsers__:
+                for resume_parser in self.sorted_unconnected_parsers__():
                     if resume_parser.apply_to_trail(find_symbol_for_parser):
                         break
             if symbol is None:
@@ -2386,28 +2386,31 @@ class Grammar:
         return symbol
 
 
+    def sorted_unconnected_parsers__(self) -> List[Parser]:
+        """Returns the unconnected parsers in an order that does not depend
+        on the memory addresses of the parser-objects."""
+        return sorted(self.unconnected_parsers__, key=lambda p: p.pname or cast(Forward, p).parser.pname)
+
+
     def fill_associated_symbol_cache__(self):
         """Pre-fills the associated symbol cache with an algorithm that
         is more efficient than filling the cache by calling
         ``associated_symbol__()`` on each parser individually.
         """
-        symbol = get_parser_placeholder()
-
-        def add_anonymous_descendants(p: Parser):
-            nonlocal symbol
-            self.associated_symbol_cache__[p] = symbol
-            for d in p.sub_parsers:
-                if not d.pname and not (isinstance(d, Forward) and cast(Forward, d).parser.pname):
-                    add_anonymous_descendants(d)
-
-        for p in self.all_parsers__:
-            if isinstance(p, Forward) and cast(Forward, p).parser.pname:
-                symbol = cast(Forward, p).parser
-                self.associated_symbol_cache__[p] = symbol
-                add_anonymous_descendants(symbol)
-            elif p.pname:
-                symbol = p
-                add_anonymous_descendants(symbol)
+        cache = self.associated_symbol_cache__
+        for root in (self.root_parser__, *self.sorted_unconnected_parsers__()):
+            for ptrail in root.descendant_trails():
+                for p in ptrail[-1:] + tuple(ptrail[-1].sub_parsers):
+                    if p in cache:
+                        continue
+                    if isinstance(p, Forward) and cast(Forward, p).parser.pname:
+                        cache[p] = cast(Forward, p).parser
+                    elif p.pname:
+                        cache[p] = p
+                    else:
+                        symbol = next((q for q in reversed(ptrail) if q.pname), None)
+                        if symbol is not None:
+                            cache[p] = symbol
 
 
     def static_analysis__(self) -> List[AnalysisError]:
@@ -2450,7 +2453,9 @@ class Grammar:
         self.fill_associated_symbol_cache__()
         # cache = dict()  # type: Dict[Parser, MutableSet[Parser]]
         # for debugging: all_parsers = sorted(list(self.all_parsers__), key=lambda p:p.pname)
-        for parser in self.all_parsers__:
+        for parser in dict.fromkeys(p for root in (self.root_parser__,
+                                                   *self.sorted_unconnected_parsers__())
+                                    for p in root.descendants()):
             error_list.extend(parser.static_analysis())
             if parser.pname and not has_leaf_parsers(parser):
                 error_list.append(AnalysisError(parser.symbol, parser, Error(
@@ -3685,13 +3690,13 @@ class LateBindingUnary(UnaryParser):
         return self.parser
 
     @property
-    def sub_parsers(self) -> FrozenSet[Parser]:
+    def sub_parsers(self) -> Collection[Parser]:
         if not self._sub_parsers:
             self._sub_parsers = frozenset({self._resolve_parser_name()})
         return self._sub_parsers
 
     @sub_parsers.setter
-    def sub_parsers(self, f: FrozenSet[Parser]):
+    def sub_parsers(self, f: Collection[Parser]):
         """Sets sub‑parsers unless placeholder is present"""
         if len(f) == 1 and is_parser_placeholder(list(f)[0]):
             self._sub_parsers = frozenset()
@@ -4005,7 +4010,7 @@ class NaryParser(CombinedParser):
             raise ValueError('Cannot initialize NaryParser with zero parsers.')
         # assert all(isinstance(p, Parser) for p in parsers)
         self.parsers = parsers  # type: Tuple[Parser, ...]
-        self.sub_parsers = frozenset(parsers)
+        self.sub_parsers = tuple(dict.fromkeys(parsers))
 
     def __deepcopy__(self, memo):
         parsers = copy.deepcopy(self.parsers, memo)
-- 
2.43.0


From f747dac6a0a9e65dcef04d3d4732d8a651ce01d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:46 +0000
Subject: [PATCH 019/101] fix: error code for left-over captures does not
 depend on memory addresses

---
 DHParser/parse.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index 4a6f9e6..1b5019e 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -1167,21 +1167,28 @@ def is_parser_placeholder(parser: Optional[Parser]) -> bool:
 # functions for analysing the parser tree/graph ###
 
 
-def has_non_autocaptured_symbols(ptrail: ParserTrail) -> Optional[bool]:
-    """Returns True, if the parser-path contains a Capture-Parser that is not
-    shielded by a Retrieve-Parser. This is the case for captured symbols
-    that are not "auto-captured" by a Retrieve-Parser.
+def has_non_autocaptured_symbols(root: Parser) -> bool:
+    """Returns True, if there is a Capture-Parser among the descendants of
+    the parser that is not shielded by a Retrieve-Parser. This is the case
+    for captured symbols that are not "auto-captured" by a Retrieve-Parser.
     """
-    for parser in ptrail:
+    visited = {root}
+    pending = [root]
+    while pending:
+        parser = pending.pop()
         if parser.ptype == ":Retrieve":
-            break
-        elif parser.ptype == ":Capture":
+            continue
+        if parser.ptype == ":Capture":
             p = cast(UnaryParser, parser).parser
             while p.ptype in (":Synonym", ":Forward"):
                 p = cast(UnaryParser, p).parser
             if not isinstance(p, Retrieve):
                 return True
-    return None
+        for sub_parser in parser.sub_parsers:
+            if sub_parser not in visited:
+                visited.add(sub_parser)
+                pending.append(sub_parser)
+    return False
 
 
 ########################################################################
@@ -2201,7 +2208,7 @@ class Grammar:
             error_msg = "Capture-stack not empty after end of parsing: " \
                 + ', '.join(f'{v} {len(l)} {"items" if len(l) > 1 else "item"}'
                             for v, l in self.variables__.items() if len(l) >= 1)
-            if parser.apply_to_trail(has_non_autocaptured_symbols):
+            if has_non_autocaptured_symbols(parser):
                 if all(cast(Capture, self[v]).can_capture_zero_length
                        for v, l in self.variables__.items() if len(l) >= 1):
                     error_code = CAPTURE_STACK_NOT_EMPTY_WARNING
-- 
2.43.0


From f2601105a2f0b8259d8e9d12fb1149eeee16c2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:46 +0000
Subject: [PATCH 020/101] fix: copies of grammar objects yield the same results
 as the original

---
 DHParser/parse.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index 1b5019e..fdd7142 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -1718,7 +1718,8 @@ class Grammar:
 
 
     def __deepcopy__(self, memo):
-        duplicate = self.__class__(self.root_parser__)
+        duplicate = self.__class__(self.root_parser__ if self.custom_root__ else None)
+        duplicate.left_recursion__ = self.left_recursion__
         duplicate.history_tracking__ = self.history_tracking__
         duplicate.resume_notices__ = self.resume_notices__
         duplicate.max_parser_dropouts__ = self.max_parser_dropouts__
@@ -1794,6 +1795,7 @@ class Grammar:
         # on demand (see Grammar.__getitem__()).
         # (Usually, all parsers should be connected to the root object. But
         # during testing and development this does not need to be the case.)
+        self.custom_root__: bool = bool(root)
         if root:
             self.root_parser__ = copy.deepcopy(root)
             if not self.root_parser__.pname:
-- 
2.43.0


From 4a09a7e21d1720488e807c18e84a60973d7584c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:47 +0000
Subject: [PATCH 021/101] fix: parsing of empty documents can be cancelled

---
 DHParser/parse.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index fdd7142..03b3b03 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -2054,6 +2054,11 @@ class Grammar:
                 result, _ = parser(0)
             except ParserError as pe:
                 result = pe.node
+            except CancelError as ce:
+                result = Node(EMPTY_NODE.name, '').with_pos(0)
+                self.tree__.new_error(
+                    result, f'Parsing was canceled at position: {ce.location} of {L}!', CANCELED)
+                self.variables__.clear()
             if result is None:
                 result = Node(ZOMBIE_TAG, '').with_pos(0)
                 if lookahead_failure_only(parser):
-- 
2.43.0


From cc072963e85d603fc87c88ae7d2f0e576f11d057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:47 +0000
Subject: [PATCH 022/101] fix: clear captured variables after errors and
 cancellation

---
 DHParser/parse.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index 03b3b03..1c89816 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -2079,13 +2079,13 @@ class Grammar:
                 result, location = parser(location)
             except ParserError as pe:
                 result, location = pe.node, L
-                for k in self.variables__:  del self.variables__[k]
+                self.variables__.clear()
             except CancelError as ce:
                 result = Node(EMPTY_NODE.name, '').with_pos(0)
                 self.tree__.new_error(
                     result, f'Parsing was canceled at position: {ce.location} of {L}!', CANCELED)
                 location = L
-                for k in self.variables__:  del self.variables__[k]
+                self.variables__.clear()
             if result is EMPTY_NODE:  # don't ever deal out the EMPTY_NODE singleton!
                 result = Node(EMPTY_PTYPE, '').with_pos(0)
 
-- 
2.43.0


From 2051f149b642c27498feca51be0168e40a02d813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:47 +0000
Subject: [PATCH 023/101] fix: parser errors at the beginning of the document
 don't raise an AssertionError

---
 DHParser/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index 1c89816..c37f548 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -2105,7 +2105,7 @@ class Grammar:
                 rest = self.document__[location:]
                 fwd = rest.find("\n") + 1 or len(rest)
                 skip, location = rest[:fwd], location + fwd
-                if result is None or (result.name == ZOMBIE_TAG and len(result) == 0):
+                if result is None or (result.name == ZOMBIE_TAG and result.strlen() == 0):
                     err_pos = self.ff_pos__
                     associated_symbol = self.associated_symbol__(self.ff_parser__)
                     if associated_symbol != self.ff_parser__:
-- 
2.43.0


From 689856b2e03406dcdb0607b855cd2691744b4e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:47 +0000
Subject: [PATCH 024/101] fix: cancel-queries survive interrupts and don't
 remove or reject tracers

---
 DHParser/parse.py | 7 +++++--
 DHParser/trace.py | 2 ++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index c37f548..97400e4 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -2287,11 +2287,14 @@ class Grammar:
 
 
     def set_cancel_query__(self):
-        if self.cancel_query__ != self.cancel_query_last__:
+        if self.cancel_query__ is not None or self.cancel_query_last__ is not None:
+            if self.cancel_query__ is not None:
+                self.cancel_query_last__ = self.cancel_query__  # in case of an interrupt
             for p in self.all_parsers__:
                 if isinstance(p, LeafParser):
                     if self.cancel_query__ is None:
-                        p.set_proxy(None)
+                        if p._parse_proxy.__name__ == "cancel_proxy":  # don't remove any tracers!
+                            p.set_proxy(None)
                     elif p._parse_proxy == p._parse:
                         p.set_proxy(cancel_proxy)
                     else:
diff --git a/DHParser/trace.py b/DHParser/trace.py
index e7e0f67..bc31274 100644
--- a/DHParser/trace.py
+++ b/DHParser/trace.py
@@ -91,6 +91,8 @@ def set_tracer(parsers: Union[Grammar, Parser, Iterable[Parser]], tracer: Option
             pivot._grammar.resume_notices__ = True
         for parser in parsers:
             if parser.ptype != ':Forward':
+                if parser._parse_proxy.__name__ == 'cancel_proxy':
+                    parser.set_proxy(None)  # will be set again by Grammar, if needed
                 parser.set_proxy(tracer)
 
 
-- 
2.43.0


From adee068074579e9722b21673df4f5cab92a026f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:47 +0000
Subject: [PATCH 025/101] fix: node name of named SmartRE-lookaheads does not
 depend on earlier parses

---
 DHParser/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index 97400e4..725652c 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -3452,7 +3452,7 @@ class SmartRE(CombinedParser):
         pattern = RX_NAMED_GROUPS.sub('(', pattern)
         self.regexp = re.compile(pattern)
 
-        if self.is_lookahead() and self.node_name[:1] == ":":
+        if self.is_lookahead() and self.node_name == self.ptype:
             self.node_name = ":SmartRE_Lookahead"
 
     def __deepcopy__(self, memo):
-- 
2.43.0


From 56c96f909a77db6d112e84dd72a39c37ad2d29ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:48 +0000
Subject: [PATCH 026/101] fix: check for zero length captures is independent of
 the parsed document

---
 DHParser/parse.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index 725652c..68c4a47 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -4890,9 +4890,26 @@ class Capture(ContextSensitive):
     @property
     def can_capture_zero_length(self) -> bool:
         if self._can_capture_zero_length is None:
-            self._can_capture_zero_length = self.parser._parse(0)[0] is not None
+            self._can_capture_zero_length = self._matches_empty_document()
         return cast(bool, self._can_capture_zero_length)
 
+    def _matches_empty_document(self) -> bool:
+        """Tries the captured parser on an empty document. (Neither the document that
+        is being parsed at the moment must affect the result nor the other way around.)"""
+        grammar = self._grammar
+        saved_state = grammar.__dict__.copy()
+        try:
+            grammar._reset__()
+            grammar.history_tracking__ = False
+            grammar.cancel_interval__ = INFINITE
+            self.parser.apply(reset_parser)
+            return self.parser._parse(0)[0] is not None
+        except ParserError:
+            return False
+        finally:
+            grammar.__dict__.update(saved_state)
+            self.parser.apply(reset_parser)
+
     def _rollback(self):
         return self._grammar.variables__[self.pname].pop()
 
@@ -4926,8 +4943,7 @@ class Capture(ContextSensitive):
                 0, CAPTURE_DROPPED_CONTENT_WARNING
             )))
         if self.zero_length_warning:
-            node, _ = self.parser._parse(0)
-            if node is not None:
+            if self._matches_empty_document():
                 errors.append(AnalysisError(self.pname, self, Error(
                     'Variable "%s" captures zero length strings, which can lead to '
                     'its remaining on the stack after backtracking!' % (self.pname or str(self)),
-- 
2.43.0


From d0b7dcc8186a73d923aecc38684fc14c580c28ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:51 +0000
Subject: [PATCH 027/101] fix: SmartRE- and custom parsers poll the
 cancel-query, too

---
 DHParser/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index 68c4a47..d8db20d 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -2291,7 +2291,7 @@ class Grammar:
             if self.cancel_query__ is not None:
                 self.cancel_query_last__ = self.cancel_query__  # in case of an interrupt
             for p in self.all_parsers__:
-                if isinstance(p, LeafParser):
+                if isinstance(p, (LeafParser, SmartRE, CustomParser)):
                     if self.cancel_query__ is None:
                         if p._parse_proxy.__name__ == "cancel_proxy":  # don't remove any tracers!
                             p.set_proxy(None)
-- 
2.43.0


From 6425793b275434aa10a5c153b0030bf9baaa3c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:51 +0000
Subject: [PATCH 028/101] fix: Compiler is reset after an interrupted reset and
 keeps a cancel_query set beforehand

---
 DHParser/compile.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/DHParser/compile.py b/DHParser/compile.py
index e298bc7..8f917a6 100644
--- a/DHParser/compile.py
+++ b/DHParser/compile.py
@@ -258,12 +258,16 @@ class Compiler:
         :returns: The resulting object of the compilation.
         """
         if self._dirty_flag:
-            self.reset()
+            try:
+                self.reset()
+            finally:
+                self._dirty_flag = True  # reset() must be repeated if it has been interrupted
         self._dirty_flag = True
-        self.cancel_query = cancel_query
-        self.tree = root if isinstance(root, RootNode) else RootNode(root)
-        self.prepare(self.tree)
         try:
+            if cancel_query is not None:  # otherwise, self.cancel_query may have been set beforehand
+                self.cancel_query = cancel_query
+            self.tree = root if isinstance(root, RootNode) else RootNode(root)
+            self.prepare(self.tree)
             result = self.compile(self.tree)
             while self.finalizers:
                 task, parameters = self.finalizers.pop()
-- 
2.43.0


From d271af544ca93c59eb656ba3185084ec96b6b2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:51 +0000
Subject: [PATCH 029/101] fix: canceling a compilation at a node without a
 position does not raise an AssertionError

---
 DHParser/compile.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/DHParser/compile.py b/DHParser/compile.py
index 8f917a6..00d712f 100644
--- a/DHParser/compile.py
+++ b/DHParser/compile.py
@@ -378,6 +378,9 @@ class Compiler:
 
         if self.cancel_query is not None:
             if self.cancel_query():
+                # nodes that have been created by a compiler may lack a position
+                if node._pos < 0:  node = self.tree
+                if node._pos < 0:  node.with_pos(0)
                 self.tree.new_error(node, "Compilation stopped by cancel request!", CANCELED)
                 raise CancelRequest
 
-- 
2.43.0


From 0a8be1b460798c8c4d8ecf7eb766c276fcc62822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:51 +0000
Subject: [PATCH 030/101] fix: compile_source() leaves no cancel-query behind
 and survives canceled transformers

---
 DHParser/compile.py | 49 ++++++++++++++++++++++++++++-----------------
 1 file changed, 31 insertions(+), 18 deletions(-)

diff --git a/DHParser/compile.py b/DHParser/compile.py
index 00d712f..3200255 100644
--- a/DHParser/compile.py
+++ b/DHParser/compile.py
@@ -512,8 +512,11 @@ def compile_source(source: str,
 
     # parsing
 
-    if hasattr(parser, 'cancel_query__'):  parser.cancel_query__ = cancel_query
-    syntax_tree: RootNode = parser(source_text, start_parser, source_mapping)
+    try:
+        if hasattr(parser, 'cancel_query__'):  parser.cancel_query__ = cancel_query
+        syntax_tree: RootNode = parser(source_text, start_parser, source_mapping)
+    finally:
+        if hasattr(parser, 'cancel_query__'):  parser.cancel_query__ = None
     syntax_tree.docname = source_name if source_name else "DHParser_Document"
     for e in errors:  syntax_tree.add_error(None, e)
     syntax_tree.source = original_text
@@ -533,20 +536,26 @@ def compile_source(source: str,
 
         # AST-transformation
 
-        if is_error(syntax_tree.error_flag):
-            # catch Python exception, because if an error has occurred
-            # earlier, the syntax tree might not look like expected,
-            # which could (fatally) break AST transformations.
-            try:
-                if hasattr(transformer, 'cancel_query'):  transformer.cancel_query = cancel_query
+        parser_tree = syntax_tree
+        try:
+            if hasattr(transformer, 'cancel_query'):  transformer.cancel_query = cancel_query
+            if is_error(syntax_tree.error_flag):
+                # catch Python exception, because if an error has occurred
+                # earlier, the syntax tree might not look like expected,
+                # which could (fatally) break AST transformations.
+                try:
+                    syntax_tree = transformer(syntax_tree)
+                except Exception as e:
+                    syntax_tree.new_error(syntax_tree,
+                                          "AST-Transformation failed due to earlier parser errors. "
+                                          "Crash Message: %s: %s" % (e.__class__.__name__, str(e)),
+                                          AST_TRANSFORM_CRASH)
+            else:
                 syntax_tree = transformer(syntax_tree)
-            except Exception as e:
-                syntax_tree.new_error(syntax_tree,
-                                      "AST-Transformation failed due to earlier parser errors. "
-                                      "Crash Message: %s: %s" % (e.__class__.__name__, str(e)),
-                                      AST_TRANSFORM_CRASH)
-        else:
-            syntax_tree = transformer(syntax_tree)
+        finally:
+            if hasattr(transformer, 'cancel_query'):  transformer.cancel_query = None
+        if syntax_tree is None and is_fatal(parser_tree.error_flag):
+            syntax_tree = parser_tree  # transformer has been canceled
         assert isinstance(syntax_tree, RootNode)
         # syntax_tree.stage = 'AST'
 
@@ -563,9 +572,13 @@ def compile_source(source: str,
 
             # Compilation
 
-            if hasattr(compiler, 'cancel_query'):
-                compiler.cancel_query = cancel_query
-            result = process_tree(compiler, syntax_tree)
+            try:
+                if hasattr(compiler, 'cancel_query'):
+                    compiler.cancel_query = cancel_query
+                result = process_tree(compiler, syntax_tree)
+            finally:
+                if hasattr(compiler, 'cancel_query'):
+                    compiler.cancel_query = None
 
     messages = syntax_tree.errors_sorted  # type: List[Error]
     # Obsolete, because RootNode adjusts error locations whenever an error is added:
-- 
2.43.0


From eb3f219e36fb65253b3cc7bf4a0b9f98097fa1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:51 +0000
Subject: [PATCH 031/101] fix: parse_ebnf() restores the configured syntax
 variant after exceptions, too

---
 DHParser/ebnf.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/DHParser/ebnf.py b/DHParser/ebnf.py
index 8a000c7..d29d3d5 100644
--- a/DHParser/ebnf.py
+++ b/DHParser/ebnf.py
@@ -745,9 +745,11 @@ def parse_ebnf(ebnf: str, syntax_variant: str = 'dhparser') -> RootNode:
     of the EBNF code."""
     configured_syntax_variant = get_config_value('syntax_variant')
     if syntax_variant != configured_syntax_variant:
-        set_config_value('syntax_variant', syntax_variant)
-        root = get_ebnf_grammar()(ebnf)
-        set_config_value('syntax_variant', configured_syntax_variant)
+        try:
+            set_config_value('syntax_variant', syntax_variant)
+            root = get_ebnf_grammar()(ebnf)
+        finally:
+            set_config_value('syntax_variant', configured_syntax_variant)
     else:
         root = get_ebnf_grammar()(ebnf)
     return root
-- 
2.43.0


From 06388627604d669d09408630479913b24b9586dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:51 +0000
Subject: [PATCH 032/101] fix: parsers that drop their content don't deal out
 or crash on EMPTY_NODE

---
 DHParser/parse.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index d8db20d..1ce8462 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -2070,6 +2070,8 @@ class Grammar:
                     self.tree__.new_error(
                         result, 'Parser %s did not match empty document.' % str(parser),
                         PARSER_STOPPED_BEFORE_END)
+            elif result is EMPTY_NODE:  # don't ever deal out the EMPTY_NODE singleton!
+                result = Node(EMPTY_PTYPE, '').with_pos(0)
 
         # copy to local variable, so break condition can be triggered manually
         max_parser_dropouts = self.max_parser_dropouts__
@@ -4517,6 +4519,7 @@ class Series(ErrorCatchingNary):
         ret_node = self._return_values(tuple(results))  # type: Node
         if error and reloc < 0:  # no worry: reloc is always defined when error is True
             # parser will be moved forward, even if no relocation point has been found
+            if ret_node is EMPTY_NODE:  ret_node = Node(EMPTY_PTYPE, '')
             raise ParserError(self, ret_node.with_pos(location_),
                               location_ - location,
                               location, error, first_throw=True)
@@ -4637,6 +4640,7 @@ class Interleave(ErrorCatchingNary):
         nd = self._return_values(results)  # type: Node
         if error and reloc < 0:  # no worry: reloc is always defined when error is True
             # parser will be moved forward, even if no relocation point has been found
+            if nd is EMPTY_NODE:  nd = Node(EMPTY_PTYPE, '')
             raise ParserError(self, nd.with_pos(location),
                               location_ - location,
                               location, error, first_throw=True)
-- 
2.43.0


From c18f26d413226c3ce18d1fad5a3e3419b5bba2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:52 +0000
Subject: [PATCH 033/101] fix: run_pipeline() reports cancellation just once
 and leaves no cancel-query behind

---
 DHParser/pipeline.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/DHParser/pipeline.py b/DHParser/pipeline.py
index 96627e0..ee561ad 100644
--- a/DHParser/pipeline.py
+++ b/DHParser/pipeline.py
@@ -345,14 +345,21 @@ def run_pipeline(junctions: Set[Junction],
                                          f'and, therefore, cannot be processed to {t}')
                     verify_stage(tree.stage, junction, 0)
                     transformation = junction[1]()
-                    if hasattr(transformation, 'cancel_query'):
-                        transformation.cancel_query = cancel_query
-                    elif hasattr(transformation, 'cancel_query__'):
-                        transformation.cancel_query__ = cancel_query
-                    results[t] = process_tree(transformation, tree)  # TODO: pass cancel query, here
-                    errata[t] = copy.copy(tree.errors_sorted)
-                    if cancel_query is not None and cancel_query():
+                    try:
+                        if hasattr(transformation, 'cancel_query'):
+                            transformation.cancel_query = cancel_query
+                        elif hasattr(transformation, 'cancel_query__'):
+                            transformation.cancel_query__ = cancel_query
+                        results[t] = process_tree(transformation, tree)
+                    finally:  # transformation might be a thread-local singleton
+                        if hasattr(transformation, 'cancel_query'):
+                            transformation.cancel_query = None
+                        elif hasattr(transformation, 'cancel_query__'):
+                            transformation.cancel_query__ = None
+                    if cancel_query is not None and not is_fatal(tree.error_flag) \
+                            and cancel_query():
                         tree.new_error(tree, "Pipeline-processing canceled!", CANCELED)
+                    errata[t] = copy.copy(tree.errors_sorted)
                     if is_fatal(tree.error_flag):
                         cancel = True
                         break
-- 
2.43.0


From c8a308e0c34bb0a871bbe4f2046f5581e11384ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:52 +0000
Subject: [PATCH 034/101] fix: expansion of a transformation table never leaves
 an incomplete table

---
 DHParser/transform.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/DHParser/transform.py b/DHParser/transform.py
index eee6236..da50ffc 100644
--- a/DHParser/transform.py
+++ b/DHParser/transform.py
@@ -383,16 +383,17 @@ def traverse(tree: Node,
 
     """
 
+    # take a snapshot, because another thread might just be expanding the same table
+    table = dict(transformation_table)             # type: TransformationTableType
     # Is this optimization really needed?
-    if '__cache__' in transformation_table:
+    if '__cache__' in table:
         # assume that processing table has already been expanded
-        table = transformation_table               # type: TransformationTableType
-        cache = cast(TransformationDict, transformation_table['__cache__'])  # type: TransformationDict
+        cache = cast(TransformationDict, table['__cache__'])  # type: TransformationDict
     else:
         # normalize transformation_table entries by turning single values
         # into lists with a single value
         table = {name: cast(Sequence[Callable], smart_list(call))
-                 for name, call in list(transformation_table.items())}
+                 for name, call in table.items()}
         table = expand_table(table)
         # substitute key for insignificant whitespace
         assert '+' not in table, 'Symbol "+" in processing table is obsolete, use "<" instead'
@@ -409,7 +410,7 @@ def traverse(tree: Node,
         cache = cast(TransformationDict,
                      table.setdefault('__cache__', cast(TransformationDict, dict())))
         # change processing table in place, so its already expanded and cache filled next time
-        transformation_table.clear()
+        # (in one step and without clearing the table first, so that it is never incomplete)
         transformation_table.update(table)
 
     def split_filter(callables: Sequence[Callable]) -> Tuple[List[Filter], List[Callable]]:
-- 
2.43.0


From 6f5b3e980683e986a48bf1170fa077517f91bfc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:52 +0000
Subject: [PATCH 035/101] fix: traverse() applies filters of a node-type
 already on its first occurrence

---
 DHParser/transform.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DHParser/transform.py b/DHParser/transform.py
index da50ffc..c4f784b 100644
--- a/DHParser/transform.py
+++ b/DHParser/transform.py
@@ -442,7 +442,8 @@ def traverse(tree: Node,
             all_filters = filters + more_filters
             if BLOCK_CHILDREN in all_filters:
                 all_filters = [BLOCK_CHILDREN]
-            cache[key] = (all_filters, sequence)
+            filters = all_filters
+            cache[key] = (filters, sequence)
 
         children = node._children
         for filter in filters:
-- 
2.43.0


From 18b27a97771063a52f1d041d8fa361c345cc97c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:56 +0000
Subject: [PATCH 036/101] fix: stage-verification reports its error also for
 junctions without __name__

---
 DHParser/pipeline.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/DHParser/pipeline.py b/DHParser/pipeline.py
index ee561ad..404007e 100644
--- a/DHParser/pipeline.py
+++ b/DHParser/pipeline.py
@@ -260,9 +260,10 @@ def run_pipeline(junctions: Set[Junction],
         stage_type = 'source stage' if field == 0 else 'target stage'
         if given_stage.lower() != expected_stage.lower():
             if isinstance(junction[1], ThreadLocalSingletonFactory):
-                func = junction[1].class_or_factory.__name__
+                factory = junction[1].class_or_factory
             else:
-                func = junction[1].__name__
+                factory = junction[1]
+            func = getattr(factory, '__name__', str(factory))
             error_msg = (f'Expected {stage_type} "{expected_stage}" but found '
                 f'"{given_stage}" when applying {junction[0]}->{junction[2]} ({func})! '
                 'Possible causes: a) wrong stage name specified in junction  b) stage name not '
-- 
2.43.0


From 59e81da6f70dd0c0c8e412a964989e5385a26934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:56 +0000
Subject: [PATCH 037/101] fix: tracing switched on by configuration is switched
 off again with the configuration

---
 DHParser/pipeline.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/DHParser/pipeline.py b/DHParser/pipeline.py
index 404007e..5fc3978 100644
--- a/DHParser/pipeline.py
+++ b/DHParser/pipeline.py
@@ -49,7 +49,7 @@ from DHParser.preprocess import PreprocessorFactory, PreprocessorFunc, Tokenizer
     DeriveFileNameFunc, PreprocessorResult
 from DHParser.toolkit import ThreadLocalSingletonFactory, deprecation_warning, deprecated, \
     get_annotations, CancelQuery
-from DHParser.trace import resume_notices_on, set_tracer, trace_history
+from DHParser.trace import resume_notices_on, resume_notices_off, set_tracer, trace_history
 from DHParser.transform import TransformerFunc, TransformerFactory, transformer, TransformationDict
 
 __all__ = ('Junction',
@@ -472,9 +472,15 @@ def create_preprocess_junction(prep_func: Union[PreprocessorFunc, Tokenizer],
 def _parser_factory(raw_grammar) -> Grammar:
     grammar = raw_grammar()
     if get_config_value('resume_notices'):
+        grammar.traced_by_config__ = True
         resume_notices_on(grammar)
     elif get_config_value('history_tracking'):
+        grammar.traced_by_config__ = True
         set_tracer(grammar, trace_history)
+    elif getattr(grammar, 'traced_by_config__', False):
+        # grammar is a singleton and the configuration has been changed since the last call
+        resume_notices_off(grammar)
+        grammar.traced_by_config__ = False
     try:
         if not grammar.__class__.python_src__:
             grammar.__class__.python_src__ = getattr(_parser_factory, 'python_src__','')
-- 
2.43.0


From 70fd51e51c2f0130b83c87fd25acaa6a7a9b3bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:56 +0000
Subject: [PATCH 038/101] fix: names of junctions starting from stages other
 than CST are normalized, too

---
 DHParser/pipeline.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/DHParser/pipeline.py b/DHParser/pipeline.py
index 5fc3978..95a3974 100644
--- a/DHParser/pipeline.py
+++ b/DHParser/pipeline.py
@@ -288,13 +288,7 @@ def run_pipeline(junctions: Set[Junction],
         return NAME if NAME in ('AST', 'CST') else name
 
     def normalize_junction(j: Junction):
-        SRC = j[0].upper()
-        if SRC == 'CST':
-            return Junction('CST', j[1], normalize_name(j[2]))
-        elif SRC == 'AST' and SRC != j[0]:
-            return Junction('AST', j[1], j[2])
-        else:
-            return j
+        return Junction(normalize_name(j[0]), j[1], normalize_name(j[2]))
 
     t_to_j = {normalize_name(j[-1]): normalize_junction(j) for j in junctions}
     target_stages = {normalize_name(t) for t in target_stages}
-- 
2.43.0


From 773cbca9abc0efe2cd5b4f638c3a6bb3323fa688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:56 +0000
Subject: [PATCH 039/101] fix: run_pipeline() processes stages in the order of
 their dependencies and failing stages only affect dependent stages

---
 DHParser/pipeline.py | 140 +++++++++++++++++++------------------------
 1 file changed, 61 insertions(+), 79 deletions(-)

diff --git a/DHParser/pipeline.py b/DHParser/pipeline.py
index 95a3974..719a507 100644
--- a/DHParser/pipeline.py
+++ b/DHParser/pipeline.py
@@ -33,8 +33,6 @@ algorithmically.
 
 from __future__ import annotations
 
-import functools
-
 from functools import partial
 from typing import Set, Union, Any, Dict, List, Tuple, Iterable, Optional, Sequence, NamedTuple, \
     Callable
@@ -243,16 +241,6 @@ def run_pipeline(junctions: Set[Junction],
     """
     import copy
 
-    def cmp_junctions(a, b) -> int:
-        if a[-1] == b[0]:
-            return -1
-        if b[-1] == a[0]:
-            return 1
-        if b[-1] > a[-1]:
-            return -1
-        else:
-            return 0
-
     def verify_stage(given_stage, junction, field, further_info=''):
         if not given_stage:  return  # verification is considered as turned off
         assert field in (0, 2)
@@ -293,77 +281,71 @@ def run_pipeline(junctions: Set[Junction],
     t_to_j = {normalize_name(j[-1]): normalize_junction(j) for j in junctions}
     target_stages = {normalize_name(t) for t in target_stages}
     source_stages = {normalize_name(s): source_stages[s] for s in source_stages}
-    steps = []
-    targets = target_stages.copy()
-    already_reached = targets | source_stages.keys()
-    while targets:
-        try:
-            j_sequence = [t_to_j[t] for t in targets if t not in source_stages]
-            j_sequence.sort(key=functools.cmp_to_key(cmp_junctions))
-            steps.append(j_sequence)
-        except KeyError as e:
-            raise AssertionError(f"{e.args[0]} is not a valid target.")
-        targets = {j[0] for j in steps[-1] if j[0] not in already_reached}
-        already_reached |= targets
-        for step in steps[:-1]:
-            for j in steps[-1]:
-                try:
-                    step.remove(j)
-                except ValueError:
-                    pass
-    if not (target_stages <= already_reached):
-        raise ValueError(f'Target-stages: {target_stages - already_reached} '
-                         f'cannot be reached with junctions: {junctions}.')
-    sources = [j[0] for step in steps for j in step]
+    # collect all junctions on the paths from the source-stages to the target-stages
+    depth: Dict[Junction, int] = dict()
+    for target in target_stages:
+        path: List[Junction] = []
+        stage = target
+        while stage not in source_stages:
+            if stage not in t_to_j:
+                raise AssertionError(f"{stage} is not a valid target.")
+            if t_to_j[stage] in path:
+                raise ValueError(f'Target-stage: {target} '
+                                 f'cannot be reached with junctions: {junctions}.')
+            path.append(t_to_j[stage])
+            stage = path[-1][0]
+        depth.update({junction: i for i, junction in enumerate(reversed(path))})
+    # process stages in the order of their distance from the source-stages
+    steps = sorted(depth, key=lambda junction: (depth[junction], junction[-1]))
+    sources = [j[0] for j in steps]
     disposables = {s for s in set(sources) if s not in target_stages and sources.count(s) <= 1}
-    steps.reverse()
     results: Dict[str, Any] = source_stages.copy()
     errata: Dict[str, List[Error]] = {s: source_stages[s].errors_sorted for s in source_stages}
-    cancel = False
-    for step in steps:
-        for junction in step:
-            t = junction[-1]
-            if t not in results:
-                s = junction[0]
-                tree = results[s] if s in disposables else copy.deepcopy(results[s])
-                if s not in target_stages:
-                    sources.remove(s)
-                    if sources.count(s) <= 1:
-                        disposables.add(s)
-                if tree is None:
-                    results[t] = None
-                    errata[t] = errata[s]
-                else:
-                    if not isinstance(tree, RootNode):
-                        raise ValueError(f'Object in stage "{s}" is not a tree (RootNode) '
-                                         f'but a {type(tree)} '
-                                         f'and, therefore, cannot be processed to {t}')
-                    verify_stage(tree.stage, junction, 0)
-                    transformation = junction[1]()
-                    try:
-                        if hasattr(transformation, 'cancel_query'):
-                            transformation.cancel_query = cancel_query
-                        elif hasattr(transformation, 'cancel_query__'):
-                            transformation.cancel_query__ = cancel_query
-                        results[t] = process_tree(transformation, tree)
-                    finally:  # transformation might be a thread-local singleton
-                        if hasattr(transformation, 'cancel_query'):
-                            transformation.cancel_query = None
-                        elif hasattr(transformation, 'cancel_query__'):
-                            transformation.cancel_query__ = None
-                    if cancel_query is not None and not is_fatal(tree.error_flag) \
-                            and cancel_query():
-                        tree.new_error(tree, "Pipeline-processing canceled!", CANCELED)
-                    errata[t] = copy.copy(tree.errors_sorted)
-                    if is_fatal(tree.error_flag):
-                        cancel = True
+    failed: Set[str] = set()
+    for junction in steps:
+        s, t = junction[0], junction[-1]
+        if s in failed:  # stages that do not depend on the failed stage will still be processed
+            failed.add(t)
+        elif t not in results:
+            tree = results[s] if s in disposables else copy.deepcopy(results[s])
+            if s not in target_stages:
+                sources.remove(s)
+                if sources.count(s) <= 1:
+                    disposables.add(s)
+            if tree is None:
+                results[t] = None
+                errata[t] = errata[s]
+            else:
+                if not isinstance(tree, RootNode):
+                    raise ValueError(f'Object in stage "{s}" is not a tree (RootNode) '
+                                     f'but a {type(tree)} '
+                                     f'and, therefore, cannot be processed to {t}')
+                verify_stage(tree.stage, junction, 0)
+                transformation = junction[1]()
+                try:
+                    if hasattr(transformation, 'cancel_query'):
+                        transformation.cancel_query = cancel_query
+                    elif hasattr(transformation, 'cancel_query__'):
+                        transformation.cancel_query__ = cancel_query
+                    results[t] = process_tree(transformation, tree)
+                finally:  # transformation might be a thread-local singleton
+                    if hasattr(transformation, 'cancel_query'):
+                        transformation.cancel_query = None
+                    elif hasattr(transformation, 'cancel_query__'):
+                        transformation.cancel_query__ = None
+                if cancel_query is not None and not is_fatal(tree.error_flag) \
+                        and cancel_query():
+                    tree.new_error(tree, "Pipeline-processing canceled!", CANCELED)
+                errata[t] = copy.copy(tree.errors_sorted)
+                if is_fatal(tree.error_flag):
+                    if any(e.code == CANCELED for e in errata[t]):
                         break
-                    if tree.stage == s:  # tree stage hasn't been set by the processing function
-                        tree.stage = junction[2]
-                    else:
-                        verify_stage(tree.stage, junction, 2)
-        if cancel:
-            break
+                    failed.add(t)
+                elif tree.stage.lower() == s.lower():
+                    # tree stage hasn't been set by the processing function
+                    tree.stage = junction[2]
+                else:
+                    verify_stage(tree.stage, junction, 2)
     return {t: (extract_data(results[t]), errata[t]) for t in results.keys()}
 
 
-- 
2.43.0


From 8686ddc119db98fefd8e0ab9af2404101e3039dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:25 +0000
Subject: [PATCH 040/101] fix: node_errors() returns errors in the order in
 which they have been added instead of an address-dependent order

---
 DHParser/nodetree.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/DHParser/nodetree.py b/DHParser/nodetree.py
index 015c22c..feb947a 100644
--- a/DHParser/nodetree.py
+++ b/DHParser/nodetree.py
@@ -3153,7 +3153,9 @@ class RootNode(Node):
         for pos, ids in self.error_positions.items():   # TODO: use bisect here...
             if start_pos <= pos < end_pos:
                 error_node_ids.update(ids)
-        for nid in error_node_ids:
+        for nid in self.error_nodes:  # unlike error_node_ids, the order of error_nodes
+            if nid not in error_node_ids:  # does not depend on memory-addresses
+                continue
             if nid == node_id:
                 # add the node's errors
                 errors.extend(self.error_nodes[nid])
-- 
2.43.0


From 13f34a4d6e08ca3db34b866d4134e280caf9a598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:26 +0000
Subject: [PATCH 041/101] fix: process_file() writes the error file of a
 blocked target directory to the output directory

---
 DHParser/dsl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/dsl.py b/DHParser/dsl.py
index 33912d3..cf0892f 100644
--- a/DHParser/dsl.py
+++ b/DHParser/dsl.py
@@ -823,7 +823,7 @@ def process_file(source: str, out_dir: str,
             os.makedirs(path)
         except FileExistsError:
             if not os.path.isdir(path):
-                error_file_name = dest_name + '_FATAL_ERROR.txt'
+                error_file_name = os.path.join(out_dir, dest_name + '_FATAL_ERROR.txt')
                 with open(error_file_name, 'w', encoding='utf-8') as f:
                     f.write(f'Destination directory path "{path}" already in use!')
                 return error_file_name
-- 
2.43.0


From 2255a1e0f6e7c61b9a6f5fcc603843cba01ba683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:26 +0000
Subject: [PATCH 042/101] fix: multithreading mode works when a multi-core
 executor is requested

---
 DHParser/toolkit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DHParser/toolkit.py b/DHParser/toolkit.py
index 0417f26..057e844 100644
--- a/DHParser/toolkit.py
+++ b/DHParser/toolkit.py
@@ -2142,7 +2142,8 @@ def instantiate_executor(allow_parallel: bool,
         if mode == "singlethread":
             return SingleThreadExecutor()
         elif mode == "multithreading" or multiprocessing_broken():
-            if not (issubclass(preferred_executor, concurrent.futures.ThreadPoolExecutor)):
+            if not (isinstance(preferred_executor, type)
+                    and issubclass(preferred_executor, concurrent.futures.ThreadPoolExecutor)):
                 return concurrent.futures.ThreadPoolExecutor(*args, **kwargs)
         else:
             assert mode in ("multicore", "multiprocessing"), \
-- 
2.43.0


From 52bb787061d556c862993e2c0ea8302c0a56a979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:26 +0000
Subject: [PATCH 043/101] fix: batch_process() calls process_file consistently
 and ends all work before it returns or raises

---
 DHParser/dsl.py | 60 ++++++++++++++++++++++++++++---------------------
 1 file changed, 34 insertions(+), 26 deletions(-)

diff --git a/DHParser/dsl.py b/DHParser/dsl.py
index cf0892f..411ac05 100644
--- a/DHParser/dsl.py
+++ b/DHParser/dsl.py
@@ -927,9 +927,13 @@ def batch_process(file_names: List[str], out_dir: str,
             'DHParser.dsl.batch_process() is deprected. Use "cancel_query" instead!')
         if cancel_query is None:
             cancel_query = cancel_func
-    signature = inspect.signature(process_file)
-    parm_tuple = list(signature.parameters.values())[0]
-    pf_parms = len(str(parm_tuple.annotation).split(","))
+    parameters = list(inspect.signature(process_file).parameters.values())
+    # process_file() receives its arguments either as one tuple or one by one
+    takes_tuple = len(parameters) == 1 and parameters[0].kind != inspect.Parameter.VAR_POSITIONAL
+    if takes_tuple:
+        pf_parms = len(str(parameters[0].annotation).split(","))
+    else:
+        pf_parms = 3 if any(p.name.find('cancel') >= 0 for p in parameters[2:3]) else 2
     if pf_parms <= 2:
         deprecation_warning("'process_file'-function passed to DHParser.dsl.batch_process() "
                             "appears to be outdated as it does not take a third paramter. "
@@ -938,33 +942,37 @@ def batch_process(file_names: List[str], out_dir: str,
         pf_parms = 2
     else:
         pf_parms = 3
+    if pf_parms == 3:
+        args_list = [(name, out_dir, cancel_query) for name in file_names]
+    else:
+        args_list = [(name, out_dir) for name in file_names]
     if submit_func is None:
         pool = instantiate_executor(get_config_value('batch_processing_parallelization'),
                                     PickMultiCoreExecutor)
-        chunksize = min(get_config_value('batch_processing_max_chunk_size'),
-                        max(1, len(file_names) // (cpu_count() * 4)))
-        if pf_parms == 3:
-            res_iter = pool.map(process_file,
-                                ((name, out_dir, cancel_query) for name in file_names),
-                                chunksize=chunksize)
-        else:
-            res_iter = pool.map(process_file, ((name, out_dir) for name in file_names),
-                                chunksize=chunksize)
-        error_files = collect_results(res_iter, file_names, log_func, cancel_query or never_cancel)
-        if sys.version_info >= (3, 9, 0):
-            pool.shutdown(wait=True, cancel_futures=True)
-        else:
-            pool.shutdown(wait=True)
+        try:
+            chunksize = min(get_config_value('batch_processing_max_chunk_size'),
+                            max(1, len(file_names) // (cpu_count() * 4)))
+            iterables = [args_list] if takes_tuple else list(zip(*args_list)) or [[]]
+            res_iter = pool.map(process_file, *iterables, chunksize=chunksize)
+            error_files = collect_results(res_iter, file_names, log_func,
+                                          cancel_query or never_cancel)
+        finally:
+            if sys.version_info >= (3, 9, 0):
+                pool.shutdown(wait=True, cancel_futures=True)
+            else:
+                pool.shutdown(wait=True)
     else:
-        if pf_parms == 3:
-            futures = [submit_func(process_file, name, out_dir, cancel_query)
-                       for name in file_names]
-        else:
-            futures = [submit_func(process_file, name, out_dir) for name in file_names]
-        res_iter = (f.result() for f in futures)
-        error_files = collect_results(res_iter, file_names, log_func, cancel_query or never_cancel)
-        for f in futures:  f.cancel()
-        concurrent.futures.wait(futures)
+        futures: List = []
+        try:
+            for args in args_list:
+                futures.append(submit_func(process_file, args) if takes_tuple
+                               else submit_func(process_file, *args))
+            res_iter = (f.result() for f in futures)
+            error_files = collect_results(res_iter, file_names, log_func,
+                                          cancel_query or never_cancel)
+        finally:
+            for f in futures:  f.cancel()
+            concurrent.futures.wait(futures)
     return error_files
 
 
-- 
2.43.0


From c315df053639d786702ed6c490328d7bf4ada66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:32 +0000
Subject: [PATCH 044/101] fix: preprocess_includes() does not try to open a
 file without name if the document is empty

---
 DHParser/preprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/preprocess.py b/DHParser/preprocess.py
index 3d72da5..7713978 100644
--- a/DHParser/preprocess.py
+++ b/DHParser/preprocess.py
@@ -575,7 +575,7 @@ def preprocess_includes(original_text: Optional[str],
     :return: the result of the preprocessing: (original document,
         processed document, source mapping, (possibly empty) list of errors)
     """
-    if not original_text:
+    if original_text is None:
         with open(original_name, 'r', encoding='utf-8') as f:
             original_text = f.read()
     include_map, result = generate_include_map(
-- 
2.43.0


From e0f154efeeac1a8909ac0cdf64a0baa93db0747e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:32 +0000
Subject: [PATCH 045/101] fix: compile_on_disk() never destroys a script:
 unreadable scripts are left alone, scripts are replaced atomically, failure
 is reported

---
 DHParser/dsl.py     | 64 +++++++++++++++++++--------------------------
 DHParser/toolkit.py | 35 +++++++++++++++++++++++++
 2 files changed, 62 insertions(+), 37 deletions(-)

diff --git a/DHParser/dsl.py b/DHParser/dsl.py
index 411ac05..a54bb4d 100644
--- a/DHParser/dsl.py
+++ b/DHParser/dsl.py
@@ -36,7 +36,7 @@ from DHParser.configuration import get_config_value, set_config_value
 from DHParser.ebnf import EBNFCompiler, DHPARSER_IMPORTS, \
     get_ebnf_preprocessor, get_ebnf_grammar, get_ebnf_transformer, get_ebnf_compiler
 from DHParser.error import Error, is_error, has_errors, only_errors, canonical_error_strings, \
-    ErrorCode, ERROR
+    ErrorCode, ERROR, FATAL
 from DHParser.log import suspend_logging, resume_logging, is_logging, append_log
 from DHParser.nodetree import Node
 from DHParser.parse import Grammar, ParserFactory
@@ -45,7 +45,8 @@ from DHParser.preprocess import nil_preprocessor, PreprocessorFunc, \
 from DHParser.transform import TransformerFunc, TransformerFactory
 from DHParser.toolkit import DHPARSER_DIR, load_if_file, is_python_code, is_filename, \
     compile_python_object, re, as_identifier, cpu_count, LazyRE, CancelQuery, md5, \
-    deprecated, deprecation_warning, instantiate_executor, PickMultiCoreExecutor
+    deprecated, deprecation_warning, instantiate_executor, PickMultiCoreExecutor, \
+    write_atomically
 from DHParser.versionnumber import __version__, __version_info__
 
 
@@ -543,20 +544,18 @@ def compile_on_disk(source_file: str,
         ebnf_compiler = cast(EBNFCompiler, compiler1)  # type: EBNFCompiler
         global SECTION_MARKER, RX_SECTION_MARKER, PREPROCESSOR_SECTION, PARSER_SECTION, \
             AST_SECTION, COMPILER_SECTION, END_SECTIONS_MARKER, RX_WHITESPACE
-        f = None
         try:
-            f = open(parser_name, 'r', encoding="utf-8")
-            source = f.read()
+            with open(parser_name, 'r', encoding="utf-8") as f:
+                source = f.read()
             sections = split_source(parser_name, source)
             intro, imports, preprocessor, _, ast, compiler, outro = sections
             if imports[-1:] != '\n':  imports += "\n\n"
             # TODO: Verify compiler
-        except (PermissionError, FileNotFoundError, IOError):
+        except FileNotFoundError:
             intro, imports, preprocessor, _, ast, compiler, outro = '', '', '', '', '', '', ''
-        finally:
-            if f:
-                f.close()
-                f = None
+        except OSError as error:  # never overwrite a script that could not be read
+            return [*messages, Error(f'Could not read file "{parser_name}" because of: {error}',
+                                     0, FATAL)]
 
         if RX_WHITESPACE.fullmatch(intro):
             intro = '#!/usr/bin/env python3'
@@ -576,34 +575,25 @@ def compile_on_disk(source_file: str,
         if RX_WHITESPACE.fullmatch(compiler):
             compiler = ebnf_compiler.gen_compiler_skeleton()
 
+        script = ''.join([
+            intro,
+            SECTION_MARKER.format(marker=SYMBOLS_SECTION),
+            imports,
+            SECTION_MARKER.format(marker=PREPROCESSOR_SECTION),
+            preprocessor,
+            SECTION_MARKER.format(marker=PARSER_SECTION),
+            cast(str, result),
+            SECTION_MARKER.format(marker=AST_SECTION),
+            ast,
+            SECTION_MARKER.format(marker=COMPILER_SECTION),
+            compiler,
+            SECTION_MARKER.format(marker=END_SECTIONS_MARKER),
+            outro])
         try:
-            f = open(parser_name, 'w', encoding="utf-8")
-            f.write(intro)
-            f.write(SECTION_MARKER.format(marker=SYMBOLS_SECTION))
-            f.write(imports)
-            f.write(SECTION_MARKER.format(marker=PREPROCESSOR_SECTION))
-            f.write(preprocessor)
-            f.write(SECTION_MARKER.format(marker=PARSER_SECTION))
-            f.write(cast(str, result))
-            f.write(SECTION_MARKER.format(marker=AST_SECTION))
-            f.write(ast)
-            f.write(SECTION_MARKER.format(marker=COMPILER_SECTION))
-            f.write(compiler)
-            f.write(SECTION_MARKER.format(marker=END_SECTIONS_MARKER))
-            f.write(outro)
-        except (PermissionError, FileNotFoundError, IOError) as error:
-            print(f'# Could not write file "{parser_name}" because of: '
-                  + "\n# ".join(str(error).split('\n)')))
-            print(result)
-        finally:
-            if f:
-                f.close()
-
-        import platform, stat
-        if platform.system() != "Windows":
-            # set file permissions so that the parser_name can be executed
-            st = os.stat(parser_name)
-            os.chmod(parser_name, st.st_mode | stat.S_IEXEC)
+            write_atomically(parser_name, script, executable=True)
+        except OSError as error:
+            return [*messages, Error(f'Could not write file "{parser_name}" because of: {error}',
+                                     0, FATAL)]
 
     else:
         f = None
diff --git a/DHParser/toolkit.py b/DHParser/toolkit.py
index 057e844..f0eb62b 100644
--- a/DHParser/toolkit.py
+++ b/DHParser/toolkit.py
@@ -128,6 +128,7 @@ __all__ = ('re',
            'cached_load',
            'clear_from_cache',
            'load_if_file',
+           'write_atomically',
            'is_python_code',
            'md5',
            'expand_table',
@@ -1183,6 +1184,40 @@ def load_if_file(text_or_file) -> str:
 DeserializeFunc: TypeAlias = Union[Callable[[str], Any], functools.partial]
 
 
+def write_atomically(file_name: str, content: Union[str, bytes], executable: bool = False):
+    """
+    Writes `content` to the file `file_name` by writing a temporary file first
+    which then replaces the file. Thus, if writing fails or is interrupted at
+    any time, the former content of the file remains in place.
+
+    :param file_name: The name of the file to write.
+    :param content: The new content of the file. Strings are utf-8-encoded.
+    :param executable: If True, the file will be made executable (except on
+        MS Windows).
+    """
+    import shutil, stat
+    path = os.path.realpath(file_name)
+    temp_name = f"{path}.{os.getpid()}_{gen_id()}.tmp"
+    try:
+        if isinstance(content, str):
+            with open(temp_name, 'w', encoding='utf-8') as f:
+                f.write(content)
+        else:
+            with open(temp_name, 'wb') as f:
+                f.write(content)
+        if os.path.exists(path):
+            shutil.copymode(path, temp_name)
+        if executable and os.name != 'nt':
+            os.chmod(temp_name, os.stat(temp_name).st_mode | stat.S_IEXEC)
+        os.replace(temp_name, path)
+    except BaseException:
+        try:
+            os.remove(temp_name)
+        except OSError:
+            pass
+        raise
+
+
 def cached_load(file_name: str, deserialize: DeserializeFunc, cachedir: str = "~/.cache") -> Any:
     """
     Loads and deserializes a file into a python-object. The Python object will
-- 
2.43.0


From 0c7df87d346e7332f083c6145d7778566b8b08f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:33 +0000
Subject: [PATCH 046/101] fix: recompile_grammar() and create_scripts() with a
 directory find the grammars outside the working directory, and do not stop
 after the first failure

---
 DHParser/dsl.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/DHParser/dsl.py b/DHParser/dsl.py
index a54bb4d..ad47790 100644
--- a/DHParser/dsl.py
+++ b/DHParser/dsl.py
@@ -647,8 +647,9 @@ def recompile_grammar(ebnf_filename: str,
     if os.path.isdir(ebnf_filename):
         success = True
         for entry in os.listdir(ebnf_filename):
+            entry = os.path.join(ebnf_filename, entry)
             if entry.lower().endswith('.ebnf') and os.path.isfile(entry):
-                success = success and recompile_grammar(entry, parser_name, force)
+                success = recompile_grammar(entry, parser_name, force, notify) and success
         return success
 
     base, _ = os.path.splitext(ebnf_filename)
@@ -724,6 +725,7 @@ def create_scripts(ebnf_filename: str,
     """
     if os.path.isdir(ebnf_filename):
         for entry in os.listdir(ebnf_filename):
+            entry = os.path.join(ebnf_filename, entry)
             if entry.lower().endswith('.ebnf') and os.path.isfile(entry):
                 create_scripts(entry)
         return
-- 
2.43.0


From 431b936855f4ab4e0ecb380cf68937d08efe8036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:33 +0000
Subject: [PATCH 047/101] fix: recompile_grammar() restores the syntax_variant
 also if the second attempt fails

---
 DHParser/dsl.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/DHParser/dsl.py b/DHParser/dsl.py
index ad47790..dd4b8b3 100644
--- a/DHParser/dsl.py
+++ b/DHParser/dsl.py
@@ -668,8 +668,10 @@ def recompile_grammar(ebnf_filename: str,
             syntax_variant = get_config_value('syntax_variant')
             if syntax_variant != 'heuristic':
                 set_config_value('syntax_variant', 'heuristic')
-                messages2 = compile_on_disk(ebnf_filename, parser_name)
-                set_config_value('syntax_variant', syntax_variant)
+                try:
+                    messages2 = compile_on_disk(ebnf_filename, parser_name)
+                finally:
+                    set_config_value('syntax_variant', syntax_variant)
                 if not has_errors(messages2):
                     messages = messages2
 
-- 
2.43.0


From dc3a4838ebdce751837564b29835421f5d4f7084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:33 +0000
Subject: [PATCH 048/101] fix: recompile_grammar() does not fail if another
 process removes the messages-file first

---
 DHParser/dsl.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/DHParser/dsl.py b/DHParser/dsl.py
index dd4b8b3..1bbfb3c 100644
--- a/DHParser/dsl.py
+++ b/DHParser/dsl.py
@@ -684,8 +684,11 @@ def recompile_grammar(ebnf_filename: str,
             if has_errors(messages):
                 return False
 
-    if not messages and os.path.exists(error_file_name):
-        os.remove(error_file_name)
+    if not messages:
+        try:
+            os.remove(error_file_name)
+        except FileNotFoundError:
+            pass
     return True
 
 
-- 
2.43.0


From 7fef3d5dc44b0de524fbaa29b4f28fa660564753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:33 +0000
Subject: [PATCH 049/101] fix: grammar_changed() looks for the grammar-class
 only in the parser-section of scripts

---
 DHParser/dsl.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/DHParser/dsl.py b/DHParser/dsl.py
index 1bbfb3c..8092af5 100644
--- a/DHParser/dsl.py
+++ b/DHParser/dsl.py
@@ -212,6 +212,9 @@ def grammar_changed(grammar_class, grammar_source: str) -> bool:
         # grammar_class = load_compiler_suite(grammar_class)[1]
         with open(grammar_class, 'r', encoding='utf8') as f:
             pycode = f.read()
+        sections = RX_SECTION_MARKER.split(pycode)
+        if len(sections) == 7:
+            pycode = sections[3]  # do not look for the grammar inside hand-written code
         m = re.search(r'class \w*\(Grammar\)', pycode)
         if m:
             m = re.search(' {4}source_hash__ *= *"([a-z0-9]*)"',
-- 
2.43.0


From e1d7f7ec6173e999d596aa81e487593862baf309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:14 +0000
Subject: [PATCH 050/101] fix: cached_load() survives damaged and unwritable
 caches, verifies cached data, and recognises unchanged sources in later
 processes

---
 DHParser/toolkit.py | 87 +++++++++++++++++++++++++--------------------
 1 file changed, 49 insertions(+), 38 deletions(-)

diff --git a/DHParser/toolkit.py b/DHParser/toolkit.py
index f0eb62b..61d3fa8 100644
--- a/DHParser/toolkit.py
+++ b/DHParser/toolkit.py
@@ -1218,6 +1218,18 @@ def write_atomically(file_name: str, content: Union[str, bytes], executable: boo
         raise
 
 
+def _cache_name(file_name: str, cachedir: str) -> str:
+    """Returns the path of the pickled version of file `file_name`."""
+    if os.path.sep == "/": cachedir = cachedir.replace('\\', os.path.sep)
+    else: cachedir = cachedir.replace('/', os.path.sep)
+    if cachedir:
+        cachedir = os.path.realpath(os.path.expanduser(cachedir))
+        appname = os.path.splitext(os.path.basename(sys.argv[0]))[0]
+        cachedir = os.path.join(cachedir, appname)
+    name = os.path.splitext(os.path.basename(file_name))[0]
+    return os.path.join(cachedir, name + '.pickled')
+
+
 def cached_load(file_name: str, deserialize: DeserializeFunc, cachedir: str = "~/.cache") -> Any:
     """
     Loads and deserializes a file into a python-object. The Python object will
@@ -1230,42 +1242,46 @@ def cached_load(file_name: str, deserialize: DeserializeFunc, cachedir: str = "~
     to check whether the original file has been updated, in which case, the
     source-file will be loaded and deserialized anew.
 
+    If the cache cannot be read, written or is damaged, the source-file will be
+    loaded and deserialized just as if there was no cache.
+
     :param file_name: The name of the file to load.
     :param deserialize: The function to deserialize the content of the file.
     :param cachedir: The directory to cache the pickled version in.
     :returns: The deserialized python object.
     """
-    import pickle, typing
-    if os.path.sep == "/": cachedir = cachedir.replace('\\', os.path.sep)
-    else: cachedir = cachedir.replace('/', os.path.sep)
-    if cachedir:
-        cachedir = os.path.realpath(os.path.expanduser(cachedir))
-        appname = os.path.splitext(os.path.basename(sys.argv[0]))[0]
-        cachedir = os.path.join(cachedir, appname)
-        os.makedirs(cachedir, exist_ok=True)
-    name = os.path.splitext(os.path.basename(file_name))[0]
-    cache_name = os.path.join(cachedir, name + '.pickled')
+    import hashlib, pickle
+    # layout of the cache file: hash of the source, hash of what follows, pickled data
+    cache_name = _cache_name(file_name, cachedir)
     source: Optional[str] = None
-    if os.path.isfile(cache_name):
-        try:
-            with open(cache_name, 'rb') as f:
-                hash_data, data = pickle.load(f)
-            if cachedir:
-                with open(file_name, 'r', encoding='utf-8') as f:
-                    source = f.read()
-                if hash_data == hash(source):
-                    return data
-            else:
-                return data
-        except pickle.UnpicklingError as e:
-            print(f'{e} encountered while loading data from cache "{cache_name}"!'
-                  f'If this error persists, then delete the cache file "{cache_name}" manually.')
+    try:
+        with open(cache_name, 'rb') as f:
+            cached = f.read()
+    except OSError:
+        cached = b''
+    if len(cached) > 32 and hashlib.md5(cached[:16] + cached[32:]).digest() == cached[16:32]:
+        if cachedir:
+            with open(file_name, 'r', encoding='utf-8') as f:
+                source = f.read()
+        if source is None or cached[:16] == hashlib.md5(source.encode()).digest():
+            try:
+                return pickle.loads(cached[32:])
+            except Exception as e:
+                print(f'{e} encountered while loading data from cache "{cache_name}"!'
+                      f'If this error persists, then delete the cache file "{cache_name}" manually.')
     if source is None:
         with open(file_name, 'r', encoding='utf-8') as f:
             source = f.read()
-    data = deserialize(typing.cast(str, source))
-    with open(cache_name, 'wb') as f:
-        pickle.dump((hash(source), data), f)
+    data = deserialize(source)
+    try:
+        pickled = pickle.dumps(data)
+        source_hash = hashlib.md5(source.encode()).digest()
+        checksum = hashlib.md5(source_hash + pickled).digest()
+        if cachedir:
+            os.makedirs(os.path.dirname(cache_name), exist_ok=True)
+        write_atomically(cache_name, source_hash + checksum + pickled)
+    except Exception as e:
+        print(f'{e} encountered while writing data to cache "{cache_name}"!')
     return data
 
 
@@ -1273,18 +1289,13 @@ def clear_from_cache(file_name: str, cachedir: str = "~/.cache"):
     """Removes the cached version of `file_name` from the cache.
     (See :py:func:`cached_load`)
     """
-    if os.path.sep == "/": cachedir = cachedir.replace('\\', os.path.sep)
-    else: cachedir = cachedir.replace('/', os.path.sep)
-    appname = ""
-    if cachedir:
-        cachedir = os.path.realpath(os.path.expanduser(cachedir))
-        appname = os.path.splitext(os.path.basename(sys.argv[0]))[0]
-        cachedir = os.path.join(cachedir, appname)
-    name = os.path.splitext(os.path.basename(file_name))[0]
-    cache_name = os.path.join(cachedir, name + '.pickled')
+    cache_name = _cache_name(file_name, cachedir)
     os.remove(cache_name)
-    if appname and not os.listdir(cachedir):
-        os.rmdir(cachedir)
+    if cachedir:
+        try:
+            os.rmdir(os.path.dirname(cache_name))
+        except OSError:
+            pass  # directory contains other files
 
 
 def is_python_code(text_or_file: str) -> bool:
-- 
2.43.0


From 2d9451335d648543a7f480b58c6061bd1c2977a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:04 +0000
Subject: [PATCH 051/101] fix: errors are never attributed to new nodes that
 occupy the memory of deleted nodes

---
 DHParser/nodetree.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/DHParser/nodetree.py b/DHParser/nodetree.py
index feb947a..1fcabe7 100644
--- a/DHParser/nodetree.py
+++ b/DHParser/nodetree.py
@@ -2927,6 +2927,7 @@ class RootNode(Node):
         self._error_set: Set[Error] = set()
         self.error_nodes: Dict[int, List[Error]] = dict()   # id(node) -> error list
         self.error_positions: Dict[int, Set[int]] = dict()  # pos -> set of id(node)
+        self._error_node_refs: List[Node] = []  # keeps nodes alive, so that no id is used twice
         self.error_flag: ErrorCode = ErrorCode(0)
         self.source: Union[str, StringView] = source
         self.lbreaks: List[int] = linebreaks(source)
@@ -2969,8 +2970,8 @@ class RootNode(Node):
             duplicate._children = tuple()
             duplicate._result = self._result
         duplicate._pos = self._pos
-        new_node_ids = [id(nd) for nd in duplicate.walk_tree(include_root=True)]
-        map_id = dict(zip(old_node_ids, new_node_ids))
+        new_nodes = list(duplicate.walk_tree(include_root=True))
+        map_id = dict(zip(old_node_ids, (id(nd) for nd in new_nodes)))
         if self.has_attr():
             duplicate.attr.update(self._attributes)
             # duplicate._attributes = copy.deepcopy(self._attributes)  # this is blocked by cython
@@ -2979,6 +2980,8 @@ class RootNode(Node):
         duplicate.error_nodes = {map_id.get(i, i): el[:] for i, el in self.error_nodes.items()}
         duplicate.error_positions = {pos: {map_id.get(i, i) for i in s}
                                      for pos, s in self.error_positions.items()}
+        duplicate._error_node_refs = self._error_node_refs \
+            + [nd for nd in new_nodes if id(nd) in duplicate.error_nodes]
         duplicate.source = self.source
         duplicate.source_mapping = self.source_mapping
         duplicate.lbreaks = copy.deepcopy(self.lbreaks, memodict)
@@ -3097,8 +3100,9 @@ class RootNode(Node):
                 "Wrong error position when processing error: %s\n" % str(error) + \
                 "%i <= %i <= %i ?" % (node.pos, error.pos, node.pos + max(1, node.strlen() - 1))
             assert node.pos >= 0, "Errors cannot be assigned to nodes without position!"
-        self.error_nodes.setdefault(id(node), []).append(error)
         node = cast(Node, node)
+        self.error_nodes.setdefault(id(node), []).append(error)
+        self._error_node_refs.append(node)
         if node.pos <= error.pos <= node.pos + max(node.strlen(), 1):  # node.pos == error.pos:
             self.error_positions.setdefault(error.pos, set()).add(id(node))
         if self.source:
@@ -3181,6 +3185,7 @@ class RootNode(Node):
         if srcId != destId and srcId in self.error_nodes:
             errorList = self.error_nodes[srcId]
             self.error_nodes.setdefault(destId, []).extend(errorList)
+            self._error_node_refs.append(dest)
             del self.error_nodes[srcId]
             for nodeSet in self.error_positions.values():
                 nodeSet.discard(srcId)
-- 
2.43.0


From 81acf5b246ee6ad2843aae6461ddc7dcee60fc1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:29 +0000
Subject: [PATCH 052/101] fix: compile_on_disk() replaces outputs atomically
 and returns an error if the output cannot be written

---
 DHParser/dsl.py | 28 ++++++++++------------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/DHParser/dsl.py b/DHParser/dsl.py
index 8092af5..fd73e2d 100644
--- a/DHParser/dsl.py
+++ b/DHParser/dsl.py
@@ -599,25 +599,17 @@ def compile_on_disk(source_file: str,
                                      0, FATAL)]
 
     else:
-        f = None
+        if isinstance(result, Node):
+            data = result.as_xml() if extension.lower() == '.xml' else result.as_sxpr()
+        elif isinstance(result, str):
+            data = result
+        else:
+            raise AssertionError('Illegal result type: ' + str(type(result)))
         try:
-            f = open(rootname + extension, 'w', encoding="utf-8")
-            if isinstance(result, Node):
-                if extension.lower() == '.xml':
-                    f.write(result.as_xml())
-                else:
-                    f.write(result.as_sxpr())
-            elif isinstance(result, str):
-                f.write(result)
-            else:
-                raise AssertionError('Illegal result type: ' + str(type(result)))
-        except (PermissionError, FileNotFoundError, IOError) as error:
-            print('# Could not write file "' + rootname + '.py" because of: '
-                  + "\n# ".join(str(error).split('\n)')))
-            print(result)
-        finally:
-            if f:
-                f.close()
+            write_atomically(rootname + extension, data)
+        except OSError as error:
+            return [*messages, Error(f'Could not write file "{rootname + extension}" '
+                                     f'because of: {error}', 0, FATAL)]
 
     return messages
 
-- 
2.43.0


From f6f366e8e5fd9fcaa3462bbc4209dbd31130301f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:29 +0000
Subject: [PATCH 053/101] fix: process_file() uses the default serialization if
 none is specified

---
 DHParser/dsl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/dsl.py b/DHParser/dsl.py
index fd73e2d..1f66e58 100644
--- a/DHParser/dsl.py
+++ b/DHParser/dsl.py
@@ -834,7 +834,7 @@ def process_file(source: str, out_dir: str,
             path = os.path.join(out_dir, t, '.'.join([dest_name, t]))
             if isinstance(result, Node):
                 slist = serializations.get(t, serializations.get(
-                    '*', get_config_value('default_serialization')))
+                    '*', [get_config_value('default_serialization')]))
                 for s in slist:
                     s = s.lower()  # normalize file-extensions:
                     if s == 'default':  s = get_config_value('default_serialization').lower()
-- 
2.43.0


From 0f3084f7d9a6431a63b60bf9b112017c1d967457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:30 +0000
Subject: [PATCH 054/101] fix: process_file() writes complete files only, no
 outputs for stages with fatal errors, and leaves no outdated reports

---
 DHParser/dsl.py | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/DHParser/dsl.py b/DHParser/dsl.py
index 1f66e58..4bfef9f 100644
--- a/DHParser/dsl.py
+++ b/DHParser/dsl.py
@@ -809,6 +809,7 @@ def process_file(source: str, out_dir: str,
     end_results = {t: r for t, r in results.items() if t in targets}
 
     # create target directories
+    os.makedirs(out_dir, exist_ok=True)
     for t in end_results.keys():
         path = os.path.join(out_dir, t)
         try:  # do not use os.path.exists(), here: RACE CONDITION!!
@@ -816,12 +817,13 @@ def process_file(source: str, out_dir: str,
         except FileExistsError:
             if not os.path.isdir(path):
                 error_file_name = os.path.join(out_dir, dest_name + '_FATAL_ERROR.txt')
-                with open(error_file_name, 'w', encoding='utf-8') as f:
-                    f.write(f'Destination directory path "{path}" already in use!')
+                write_atomically(error_file_name,
+                                 f'Destination directory path "{path}" already in use!')
                 return error_file_name
 
-    # write data
+    # collect data and errors
     errors = [];  errstrs = set()
+    files: Dict[str, str] = {}
     items = end_results.items() if len(end_results) == len(targets) else results.items()
     for t, r in items:
         result, err = r
@@ -830,7 +832,7 @@ def process_file(source: str, out_dir: str,
             if estr not in errstrs:
                 errstrs.add(estr)
                 errors.append(e)
-        if t in end_results:
+        if t in end_results and not has_errors(err, FATAL):
             path = os.path.join(out_dir, t, '.'.join([dest_name, t]))
             if isinstance(result, Node):
                 slist = serializations.get(t, serializations.get(
@@ -840,21 +842,27 @@ def process_file(source: str, out_dir: str,
                     if s == 'default':  s = get_config_value('default_serialization').lower()
                     elif s == 's-expression':  s = 'sxpr'
                     elif s == 'indented':  s = 'tree'
-                    data = result.serialize(s)
-                    with open('.'.join([path, s]), 'w', encoding='utf-8') as f:
-                        f.write(data)
+                    files['.'.join([path, s])] = result.serialize(s)
             else:
-                with open(path, 'w', encoding='utf-8') as f:
-                    f.write(str(result))
+                files[path] = str(result)
 
+    # write error report first, then the data, and finally remove outdated reports
     errors.sort(key=lambda e: e.pos)
+    err_filename = ''
     if errors:
         err_ext = '_ERRORS.txt' if has_errors(errors, ERROR) else '_WARNINGS.txt'
         err_filename = os.path.join(out_dir, dest_name + err_ext)
-        with open(err_filename, 'w', encoding='utf-8') as f:
-            f.write('\n'.join(canonical_error_strings(errors)))
-        return err_filename
-    return ''
+        write_atomically(err_filename, '\n'.join(canonical_error_strings(errors)))
+    for path, data in files.items():
+        write_atomically(path, data)
+    for ext in ('_FATAL_ERROR.txt', '_ERRORS.txt', '_WARNINGS.txt'):
+        outdated = os.path.join(out_dir, dest_name + ext)
+        if outdated != err_filename:
+            try:
+                os.remove(outdated)
+            except FileNotFoundError:
+                pass
+    return err_filename
 
 
 def never_cancel() -> bool:
-- 
2.43.0


From da7b88afcb2eb43f1290929ead5ae13910c67bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:26 +0000
Subject: [PATCH 055/101] fix: log files can be created, appended to and
 cleared by several threads and processes at a time

---
 DHParser/log.py | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/DHParser/log.py b/DHParser/log.py
index 6ebee8e..91c125f 100644
--- a/DHParser/log.py
+++ b/DHParser/log.py
@@ -214,8 +214,7 @@ def create_log(log_name: str) -> str:
     if not ldir:
         ldir = log_dir()
     if ldir:
-        if not os.path.exists(ldir):
-            os.makedirs(ldir)
+        os.makedirs(ldir, exist_ok=True)
         with open(os.path.join(ldir, file_name), 'w', encoding='utf-8') as f:
             f.write('LOG-FILE: ' + log_name + '\n\n')
         return log_name
@@ -241,12 +240,15 @@ def append_log(log_name: str, *strings, echo: bool = False) -> None:
         ldir = log_dir()
     if ldir and log_name:
         log_path = os.path.join(ldir, log_name)
-        if not os.path.exists(log_path):
-            assert create_log(log_path), 'Could not create log file: "{}"'.format(log_path)
-        with open(log_path, 'a', encoding='utf-8') as f:
-            for text in strings:
-                f.write(text)
-            f.flush()
+        os.makedirs(ldir, exist_ok=True)
+        with open(log_path, 'ab', buffering=0) as f:
+            text = ''.join(strings)
+            if f.tell() == 0:
+                text = 'LOG-FILE: ' + log_path + '\n\n' + text
+            # write records in one go, because other threads or processes may append, too
+            data = text.replace('\n', os.linesep).encode('utf-8')
+            while data:
+                data = data[f.write(data):]
     if echo:
         print(''.join(strings))
 
@@ -263,11 +265,17 @@ def clear_logs(logfile_types=frozenset(['.cst', '.ast', '.log'])):
         for file in files:
             path = os.path.join(log_dirname, file)
             if os.path.splitext(file)[1] in logfile_types or file == 'info.txt':
-                os.remove(path)
+                try:
+                    os.remove(path)
+                except FileNotFoundError:
+                    pass  # file has already been removed by another thread or process
             else:
                 only_log_files = False
         if only_log_files:
-            os.rmdir(log_dirname)
+            try:
+                os.rmdir(log_dirname)
+            except OSError:
+                pass  # new log-files have been created or directory has already been removed
 
 
 #######################################################################
-- 
2.43.0


From d0c7628cce60b05611109ee305d40713f03427b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:26 +0000
Subject: [PATCH 056/101] fix: start_logging() leaves the configuration presets
 in order if it fails

---
 DHParser/log.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/DHParser/log.py b/DHParser/log.py
index 91c125f..770e9b5 100644
--- a/DHParser/log.py
+++ b/DHParser/log.py
@@ -104,15 +104,17 @@ def start_logging(dirname: str = "LOGS"):
 
     This function should best be called before spawning any subprocesses,
     otherwise the dirname might not be propagated to the subprocesses."""
+    log_dir = os.path.abspath(dirname) if dirname else ''
     accessing_presets = is_accessing_presets()
     if not accessing_presets:
         access_presets()
-    log_dir = os.path.abspath(dirname) if dirname else ''
-    if log_dir != get_preset_value('log_dir'):
-        set_preset_value('log_dir', log_dir)
-        # set_config_value('log_dir', log_dir)
-    if not accessing_presets:
-        finalize_presets()
+    try:
+        if log_dir != get_preset_value('log_dir'):
+            set_preset_value('log_dir', log_dir)
+    finally:
+        if not accessing_presets:
+            finalize_presets()
+    set_config_value('log_dir', log_dir)  # logging might have been suspended in this thread
 
 
 def suspend_logging() -> str:
-- 
2.43.0


From 87c8b0206a57a4515871bd0fa4a658ef04703475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:26 +0000
Subject: [PATCH 057/101] fix: logged syntax-trees and parsing-histories are
 written completely or not at all

---
 DHParser/log.py | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/DHParser/log.py b/DHParser/log.py
index 770e9b5..bbbc86b 100644
--- a/DHParser/log.py
+++ b/DHParser/log.py
@@ -68,7 +68,7 @@ from DHParser.configuration import access_presets, finalize_presets, get_config_
 from DHParser.error import Error
 from DHParser.stringview import StringView
 from DHParser.nodetree import Node, FrozenNode, ZOMBIE_TAG, EMPTY_PTYPE
-from DHParser.toolkit import escape_ctrl_chars, abbreviate_middle, TypeAlias
+from DHParser.toolkit import escape_ctrl_chars, abbreviate_middle, TypeAlias, write_atomically
 
 __all__ = ('CallItem',
            'start_logging',
@@ -610,8 +610,7 @@ def log_ST(syntax_tree, log_file_name) -> bool:
         path = os.path.join(log_dir(), log_file_name)
         # if os.path.exists(path):
         #     print('WARNING: Log-file "%s" already exists and will be overwritten!' % path)
-        with open(path, "w", encoding="utf-8") as f:
-            f.write(syntax_tree.serialize())
+        write_atomically(path, syntax_tree.serialize())
         return True
     return False
 
@@ -635,17 +634,11 @@ def log_parsing_history(grammar, log_file_name: str = '', as_html: bool = True)
     def write_log(history: List[str], log_name: str) -> None:
         htm = '.html' if as_html else ''
         path = os.path.join(log_dir(), log_name + "_parser.log" + htm)
-        if os.path.exists(path):
-            os.remove(path)
-            # print('WARNING: Log-file "%s" already existed and was deleted.' % path)
-        if history:
-            with open(path, "w", encoding="utf-8") as f:
-                if as_html:
-                    f.write(HistoryRecord.HTML_LEAD_IN + '\n')
-                    f.writelines(history)
-                    f.write('\n</table>\n' + HistoryRecord.HTML_LEAD_OUT)
-                else:
-                    f.write("\n".join(history))
+        if as_html:
+            write_atomically(path, ''.join([HistoryRecord.HTML_LEAD_IN, '\n', *history,
+                                            '\n</table>\n', HistoryRecord.HTML_LEAD_OUT]))
+        else:
+            write_atomically(path, "\n".join(history))
 
     def append_line(log: List[str], line: str) -> None:
         """Appends a line to a list of HTML table rows. Starts a new
-- 
2.43.0


From 7736f0867e2a86cfce2d51b3ce7b1c9753e8c47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:26 +0000
Subject: [PATCH 058/101] fix: logging is resumed if compiling a grammar raises
 an error

---
 DHParser/dsl.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/DHParser/dsl.py b/DHParser/dsl.py
index 4bfef9f..d4d8e17 100644
--- a/DHParser/dsl.py
+++ b/DHParser/dsl.py
@@ -166,11 +166,13 @@ def grammar_instance(grammar_representation) -> Tuple[Grammar, str]:
             messages = []            # type: List[Error]
         else:
             lg_dir = suspend_logging()
-            result, messages, _ = compile_source(
-                grammar_src, None,
-                get_ebnf_grammar(grammar_src), get_ebnf_transformer(), get_ebnf_compiler())
+            try:
+                result, messages, _ = compile_source(
+                    grammar_src, None,
+                    get_ebnf_grammar(grammar_src), get_ebnf_transformer(), get_ebnf_compiler())
+            finally:
+                resume_logging(lg_dir)
             parser_py = cast(str, result)
-            resume_logging(lg_dir)
         if has_errors(messages):
             raise DefinitionError(only_errors(messages), grammar_src)
         imports = DHPARSER_IMPORTS
@@ -416,10 +418,12 @@ def load_compiler_suite(compiler_suite: str) -> \
         # Assume source is an ebnf grammar.
         # Is there really any reasonable application case for this?
         lg_dir = suspend_logging()
-        compiler_py, messages, _ = compile_source(source, None, get_ebnf_grammar(),
-                                                  get_ebnf_transformer(),
-                                                  get_ebnf_compiler(compiler_suite, source))
-        resume_logging(lg_dir)
+        try:
+            compiler_py, messages, _ = compile_source(source, None, get_ebnf_grammar(),
+                                                      get_ebnf_transformer(),
+                                                      get_ebnf_compiler(compiler_suite, source))
+        finally:
+            resume_logging(lg_dir)
         if has_errors(messages):
             raise DefinitionError(only_errors(messages), source)
         preprocessor = get_ebnf_preprocessor
-- 
2.43.0


From 2e02c6eb64d51728db8787fe72f048c5d69db393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:27 +0000
Subject: [PATCH 059/101] fix: errors while writing the log do not interfere
 with serving requests

---
 DHParser/server.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/DHParser/server.py b/DHParser/server.py
index 3eeb549..3fa0556 100644
--- a/DHParser/server.py
+++ b/DHParser/server.py
@@ -406,6 +406,16 @@ def rpc_error_response(rpc_error: Tuple[int, str], json_id: Union[int, float, st
                        "id": json_id})
 
 
+def write_log(log_file: str, *strings, echo: bool = False):
+    """Appends strings to the server log. Other than with :py:func:`log.append_log`,
+    a log that cannot be written (e.g. because the disk is full) does not
+    interfere with serving requests."""
+    try:
+        append_log(log_file, *strings, echo=echo)
+    except OSError as e:
+        print(f'Could not write to log-file "{log_file}": {e}', file=sys.stderr)
+
+
 class ExecutionEnvironment:
     """Class ExecutionEnvironment provides methods for executing server tasks
     in separate processes, threads, as asynchronous task or as simple function.
@@ -499,17 +509,17 @@ class ExecutionEnvironment:
             except TypeError as e:
                 stacktrace = traceback.format_exc()
                 rpc_error = -32602, f"Invalid Params: {e}\n{stacktrace}"
-                append_log(self.log_file, rpc_error[1])
+                write_log(self.log_file, rpc_error[1])
             except NameError as e:
                 stacktrace = traceback.format_exc()
                 rpc_error = -32601, f"Method not found: {e}\n{stacktrace}"
-                append_log(self.log_file, rpc_error[1])
+                write_log(self.log_file, rpc_error[1])
             except (BrokenProcessPool, BrokenThreadPool) as e:
                 broken = 'Process' if isinstance(e, BrokenProcessPool) else 'Thread'
                 if retry and executor is not None and not self._closed:
                     # restart process or thread pool and try again once
                     if self.log_file:
-                        append_log(self.log_file, f'WARNING: Broken {broken}PoolExecutor detected. '
+                        write_log(self.log_file, f'WARNING: Broken {broken}PoolExecutor detected. '
                                    f'Starting a new {broken}PoolExecutor', echo=True)
                     executor = self.replace_executor(executor)
                     continue
@@ -517,7 +527,7 @@ class ExecutionEnvironment:
             except Exception as e:
                 stacktrace = traceback.format_exc()
                 rpc_error = -32000, "Server Error %s: %s\n%s" % (str(type(e)), str(e), stacktrace)
-                append_log(self.log_file, rpc_error[1])
+                write_log(self.log_file, rpc_error[1])
             break
         return result, rpc_error
 
@@ -943,7 +953,7 @@ class Connection:
 
     def log(self, *args):
         if self.log_file:
-            append_log(self.log_file, *args, echo=self.echo_log)
+            write_log(self.log_file, *args, echo=self.echo_log)
 
 
 #######################################################################
@@ -1267,7 +1277,7 @@ class Server:
 
     def log(self, *args):
         if self.log_file:
-            append_log(self.log_file, *args, echo=self.echo_log)
+            write_log(self.log_file, *args, echo=self.echo_log)
 
     def rpc_identify_server(self, service_call: bool = False, html: bool = False, *args, **kwargs):
         """Returns an identification string for the server."""
-- 
2.43.0


From 8338a3d7b2aaeec55dc81ff36dbf364f1f899db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:51 +0000
Subject: [PATCH 060/101] fix: include-once readers work across nested
 includes, source-maps stay consistent, and circular includes are recognized
 regardless of how paths are written

---
 DHParser/preprocess.py | 41 ++++++++++++++++++++++++++++++-----------
 1 file changed, 30 insertions(+), 11 deletions(-)

diff --git a/DHParser/preprocess.py b/DHParser/preprocess.py
index 7713978..f456da6 100644
--- a/DHParser/preprocess.py
+++ b/DHParser/preprocess.py
@@ -460,12 +460,24 @@ def gen_find_include_func(rx: Union[str, Any],
     return find_include if comment_rx is None else meta_find_include
 
 
+def read_source(file_name: str) -> str:
+    """Reads a text-file. If this fails, the error names the file."""
+    try:
+        with open(file_name, 'r', encoding='utf-8') as f:
+            return f.read()
+    except UnicodeDecodeError as e:
+        e.reason += f' in file "{file_name}"'
+        raise
+    except OSError as e:
+        if e.filename is None:  e.filename = file_name
+        raise
+
+
 class ReadIncludeClass:
     def __call__(self, include_name: str) -> str:
         return self.read_include(include_name)
     def read_include(self, include_name: str) -> str:
-        with open(include_name, 'r', encoding='utf-8') as f:
-            return f.read()
+        return read_source(include_name)
 
 
 class ReadIncludeOnce(ReadIncludeClass):
@@ -473,10 +485,11 @@ class ReadIncludeOnce(ReadIncludeClass):
         self.already_included = set()
 
     def __call__(self, include_name: str) -> str:
-        if include_name in self.already_included:
+        file_id = os.path.realpath(include_name)
+        if file_id in self.already_included:
             return ""     # don't include the same file twice
         else:
-            self.already_included.add(include_name)
+            self.already_included.add(file_id)
             return self.read_include(include_name)
 
 
@@ -486,15 +499,18 @@ def generate_include_map(original_name: str,
                          include_reader: IncludeReaderFactory = ReadIncludeClass) \
                          -> Tuple[SourceMap, str]:
     file_names: set = set()
+    originals: Dict[str, str] = dict()
+    read_include = include_reader()
 
     def generate_map(source_name, source_text, find_next) -> Tuple[SourceMap, str]:
         nonlocal file_names
         map = SourceMap(source_name, [0], [0], [source_name], {source_name: source_text})
         result = []
 
-        if source_name in file_names:
+        file_id = os.path.realpath(source_name)  # the same file can be named differently
+        if file_id in file_names:
             raise ValueError(f'Circular include of {source_name} detected!')
-        file_names.add(source_name)
+        file_names.add(file_id)
 
         dirname = os.path.dirname(source_name)
         original_pointer = 0
@@ -503,13 +519,15 @@ def generate_include_map(original_name: str,
         last_begin = -1
         begin, length, include_name = find_next(source_text, 0)
         include_name = os.path.join(dirname, include_name)
-        read_include = include_reader()
         while begin >= 0:
             assert begin > last_begin
             source_delta = begin - original_pointer
             original_pointer += source_delta
             result_pointer += source_delta
             included_text = read_include(include_name)
+            if included_text:
+                # source-maps know only one text per file, even if the file has changed meanwhile
+                included_text = originals.setdefault(include_name, included_text)
             inner_map, inner_text = generate_map(include_name, included_text, find_next)
             assert len(inner_map.positions) == len(inner_map.offsets) == len(inner_map.file_names)
             for i in range(len(inner_map.positions)):
@@ -524,7 +542,9 @@ def generate_include_map(original_name: str,
             map.file_names.extend(inner_map.file_names[:-1])
             map.positions.extend(inner_map.positions[:-1])
             map.offsets.extend(inner_map.offsets[:-1])
-            map.originals_dict.update(inner_map.originals_dict)
+            for name, text in inner_map.originals_dict.items():
+                if text or name not in map.originals_dict:
+                    map.originals_dict[name] = text
             result.append(inner_text)
             inner_length = len(inner_text)
             result_pointer += inner_length
@@ -541,7 +561,7 @@ def generate_include_map(original_name: str,
             map.positions.append(map.positions[-1] + len(rest))
             map.offsets.append(original_offset)
             map.file_names.append(source_name)
-        file_names.remove(source_name)
+        file_names.remove(file_id)
         # map.file_offsets = [-offset for offset in map.offsets]  # only for debugging!
         return map, ''.join(result)
 
@@ -576,8 +596,7 @@ def preprocess_includes(original_text: Optional[str],
         processed document, source mapping, (possibly empty) list of errors)
     """
     if original_text is None:
-        with open(original_name, 'r', encoding='utf-8') as f:
-            original_text = f.read()
+        original_text = read_source(original_name)
     include_map, result = generate_include_map(
         original_name, original_text, find_next_include, include_reader)
     mapping_func = functools.partial(srcmap_includes, inclmap=include_map)
-- 
2.43.0


From eba314e008f41e09c22e4468ffc7c43c9dfc015b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:20 +0000
Subject: [PATCH 061/101] fix: create_project() creates complete files only,
 leaves the mode of existing files alone and restores the working directory

---
 DHParser/scripts/dhparser.py | 60 ++++++++++++++++++------------------
 1 file changed, 30 insertions(+), 30 deletions(-)

diff --git a/DHParser/scripts/dhparser.py b/DHParser/scripts/dhparser.py
index 0249a36..d29f860 100755
--- a/DHParser/scripts/dhparser.py
+++ b/DHParser/scripts/dhparser.py
@@ -34,7 +34,7 @@ from DHParser.dsl import compileDSL, compile_on_disk, read_template
 from DHParser.error import is_error, has_errors, ERROR
 from DHParser.ebnf import get_ebnf_grammar, get_ebnf_transformer, get_ebnf_compiler
 from DHParser.log import start_logging
-from DHParser.toolkit import re, split_path
+from DHParser.toolkit import re, split_path, write_atomically
 from DHParser import versionnumber
 
 
@@ -45,12 +45,11 @@ TEST_DIRNAME = 'tests_grammar'
 def create_project(path: str):
     """Creates a new DHParser-project in the given `path`.
     """
-    def create_file(name, content):
+    def create_file(name, content, executable=False):
         """Create a file with `name` and write `content` to file."""
         if not os.path.exists(name):
             print('Creating file "%s".' % name)
-            with open(name, 'w', encoding='utf-8') as f:
-                f.write(content)
+            write_atomically(name, content, executable)
         else:
             print('"%s" already exists! Not overwritten.' % name)
 
@@ -88,33 +87,34 @@ def create_project(path: str):
             sys.exit(1)
     curr_dir = os.getcwd()
     os.chdir(path)
-    if os.path.exists(TEST_DIRNAME):
-        if not os.path.isdir(TEST_DIRNAME):
-            print('Cannot overwrite existing file "%s"' % TEST_DIRNAME)
-            sys.exit(1)
-    else:
-        os.mkdir(TEST_DIRNAME)
+    try:
+        if os.path.exists(TEST_DIRNAME):
+            if not os.path.isdir(TEST_DIRNAME):
+                print('Cannot overwrite existing file "%s"' % TEST_DIRNAME)
+                sys.exit(1)
+        else:
+            os.mkdir(TEST_DIRNAME)
 
-    create_file(os.path.join(TEST_DIRNAME, '01_test_Regular_Expressions.ini'),
-                TEST_WORD_TEMPLATE)
-    create_file(os.path.join(TEST_DIRNAME, '02_test_Structure_and_Components.ini'),
-                TEST_DOCUMENT_TEMPLATE)
-    create_file(name + '.ebnf', EBNF_TEMPLATE.replace('GRAMMAR_NAME', name, 1))
-    create_file('README.md', README_TEMPLATE.format(name=name))
-    create_file(f'{name}Config.ini', CONFIG_TEMPLATE.format(name=name))
-    reldhparserdir = os.path.relpath(dhparserdir, os.path.abspath('.'))
-    grammar_test_py = GRAMMAR_TEST_TEMPLATE.format(
-        name=name, reldhparserdir=str(split_path(reldhparserdir))[1:-1])
-    create_file(f'tst_{name}_grammar.py', grammar_test_py)
-    create_file('example.dsl', 'Life is but a working shadow\n')
-    os.chmod(f'tst_{name}_grammar.py', 0o755)
-    # os.chmod('%sServer.py' % name, 0o755)
-    # The following is left to the user as an exercise
-    # print('Creating file "%s".' % (name + 'Parser.py'))
-    # recompile_grammar(name + '.ebnf', force=True)
-    print(f'\nNow generate a parser for {name}-files from the EBNF-grammar by running\n'
-          f'\n    python tst_{name}_gramar.py\n')
-    os.chdir(curr_dir)
+        create_file(os.path.join(TEST_DIRNAME, '01_test_Regular_Expressions.ini'),
+                    TEST_WORD_TEMPLATE)
+        create_file(os.path.join(TEST_DIRNAME, '02_test_Structure_and_Components.ini'),
+                    TEST_DOCUMENT_TEMPLATE)
+        create_file(name + '.ebnf', EBNF_TEMPLATE.replace('GRAMMAR_NAME', name, 1))
+        create_file('README.md', README_TEMPLATE.format(name=name))
+        create_file(f'{name}Config.ini', CONFIG_TEMPLATE.format(name=name))
+        reldhparserdir = os.path.relpath(dhparserdir, os.path.abspath('.'))
+        grammar_test_py = GRAMMAR_TEST_TEMPLATE.format(
+            name=name, reldhparserdir=str(split_path(reldhparserdir))[1:-1])
+        create_file(f'tst_{name}_grammar.py', grammar_test_py, executable=True)
+        create_file('example.dsl', 'Life is but a working shadow\n')
+        # os.chmod('%sServer.py' % name, 0o755)
+        # The following is left to the user as an exercise
+        # print('Creating file "%s".' % (name + 'Parser.py'))
+        # recompile_grammar(name + '.ebnf', force=True)
+        print(f'\nNow generate a parser for {name}-files from the EBNF-grammar by running\n'
+              f'\n    python tst_{name}_gramar.py\n')
+    finally:
+        os.chdir(curr_dir)
 
 
 def selftest(silent: bool=False) -> bool:
-- 
2.43.0


From 20bd3f11e5df586f82b9813971e0d578f22e181c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:20 +0000
Subject: [PATCH 062/101] fix: create_scripts() writes complete scripts only
 and honours its arguments in directories, too

---
 DHParser/dsl.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/DHParser/dsl.py b/DHParser/dsl.py
index d4d8e17..b6456f5 100644
--- a/DHParser/dsl.py
+++ b/DHParser/dsl.py
@@ -731,7 +731,10 @@ def create_scripts(ebnf_filename: str,
         for entry in os.listdir(ebnf_filename):
             entry = os.path.join(ebnf_filename, entry)
             if entry.lower().endswith('.ebnf') and os.path.isfile(entry):
-                create_scripts(entry)
+                create_scripts(entry,
+                               server_name=None if server_name is None else '',
+                               app_name=None if app_name is None else '',
+                               overwrite=overwrite)
         return
 
     base, _ = os.path.splitext(ebnf_filename)
@@ -740,13 +743,8 @@ def create_scripts(ebnf_filename: str,
     def create_script(script_name, template_name):
         nonlocal base
         template = read_template(template_name)
-        with open(script_name, 'w', encoding='utf-8') as f:
-            f.write(template.replace('DSL', name))
-        import platform, stat
-        if platform.system() != "Windows":
-            # set file permissions so that the server-script can be executed
-            st = os.stat(script_name)
-            os.chmod(script_name, st.st_mode | stat.S_IEXEC)
+        # set file permissions so that the server-script can be executed
+        write_atomically(script_name, template.replace('DSL', name), executable=True)
 
     if not parser_name:  parser_name = base + 'Parser.py'
     if server_name is not None and not server_name:  server_name = base + 'Server.py'
-- 
2.43.0


From 092ebb95c5b747e8b2c43afe253d0571c4109f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:20 +0000
Subject: [PATCH 063/101] fix: create_test_templates() writes complete files
 only, can be resumed and leaves the working directory alone

---
 DHParser/testing.py | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/DHParser/testing.py b/DHParser/testing.py
index ada072d..9a52c53 100644
--- a/DHParser/testing.py
+++ b/DHParser/testing.py
@@ -58,7 +58,7 @@ from DHParser.preprocess import nil_preprocessor_factory
 from DHParser.trace import set_tracer, trace_history
 from DHParser.transform import traverse, remove_children
 from DHParser.toolkit import load_if_file, re, instantiate_executor, TypeAlias, \
-    PickMultiCoreExecutor
+    PickMultiCoreExecutor, write_atomically
 
 
 __all__ = ('UNIT_STAGES',
@@ -1210,26 +1210,25 @@ def create_test_templates(symbols_or_ebnf: Union[str, SymbolsDictType],
     if not os.path.exists(path):
         os.mkdir(path)
     if os.path.isdir(path):
-        save = os.getcwd()
-        os.chdir(path)
         keys = reversed(list(symbols.keys()))
-        existing_tests = {fname[3:]: fname for fname in os.listdir() if os.path.isfile(fname)}
-        for i, k in enumerate(keys):
+        existing_tests = {fname[3:]: fname for fname in os.listdir(path)
+                          if os.path.isfile(os.path.join(path, fname))
+                          and not fname.endswith('.tmp')}
+        # start with ALL_SYMBOLS, because it will be left out if there are any tests, already
+        for i, k in sorted(enumerate(keys), key=lambda item: item[1] is not ALL_SYMBOLS):
             filename = '{num:0>2}_test_{section}'.format(num=i + 1, section=k) + fmt
-            if not os.path.exists(filename):
+            file_path = os.path.join(path, filename)
+            if not os.path.exists(file_path):
                 if filename[3:] in existing_tests:
                     old_name = existing_tests[filename[3:]]
                     print(f'Renaming test file "{old_name}" to "{filename}"')
-                    os.rename(old_name, filename)
+                    os.rename(os.path.join(path, old_name), file_path)
                     existing_tests[filename[3:]] = filename
                 elif k is not ALL_SYMBOLS or not existing_tests:
                     print('Creating test file template "{name}".'.format(name=filename))
-                    with open(filename, 'w', encoding='utf-8') as f:
-                        for sym in symbols[k]:
-                            f.write('\n[match:{sym}]\n\n'.format(sym=sym))
-                            f.write('[ast:{sym}]\n\n'.format(sym=sym))
-                            f.write('[fail:{sym}]\n\n'.format(sym=sym))
-        os.chdir(save)
+                    write_atomically(file_path, ''.join(
+                        f'\n[match:{sym}]\n\n[ast:{sym}]\n\n[fail:{sym}]\n\n'
+                        for sym in symbols[k]))
     else:
         raise ValueError(path + ' is not a directory!')
 
-- 
2.43.0


From 91a868c9db398be5e9fcff65f87e6527b33a8d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:43 +0000
Subject: [PATCH 064/101] fix: grammar_suite() restores the working directory
 when it fails

---
 DHParser/testing.py | 56 +++++++++++++++++++++++----------------------
 1 file changed, 29 insertions(+), 27 deletions(-)

diff --git a/DHParser/testing.py b/DHParser/testing.py
index 9a52c53..9459e58 100644
--- a/DHParser/testing.py
+++ b/DHParser/testing.py
@@ -1064,37 +1064,39 @@ def grammar_suite(directory, parser_factory, transformer_factory,
     if verbose:
         print("\nScanning test-directory: " + directory)
     save_cwd = os.getcwd()
-    os.chdir(directory)
-    if is_logging():
-        clear_logs()
+    try:
+        os.chdir(directory)
+        if is_logging():
+            clear_logs()
 
-    tests = [fn for fn in sorted(os.listdir('.'))
-             if any(fnmatch.fnmatch(fn, pattern) for pattern in fn_patterns)]
+        tests = [fn for fn in sorted(os.listdir('.'))
+                 if any(fnmatch.fnmatch(fn, pattern) for pattern in fn_patterns)]
 
-    assert tests, f"No pattern from {fn_patterns} matched any test in directory {os.getcwd()}"
+        assert tests, f"No pattern from {fn_patterns} matched any test in directory {os.getcwd()}"
 
-    with instantiate_executor(get_config_value('test_parallelization') and len(tests) > 1,
-                              PickMultiCoreExecutor) as pool:
-        results = []
-        for filename in tests:
-            parameters = (filename, parser_factory, transformer_factory,
-                          report, verbose, junctions, show, serializations,
-                          preprocessor_factory)
-            results.append(pool.submit(grammar_unit, *parameters))
-        done, not_done = concurrent.futures.wait(results)
-        assert not not_done, str(not_done)
-        for filename, err_future in zip(tests, results):
-            try:
-                errata = err_future.result()
-                if errata:
-                    all_errors[filename] = errata
-            except ValueError as e:
-                if not ignore_unknown_filetypes or str(e).find("Unknown") < 0:
+        with instantiate_executor(get_config_value('test_parallelization') and len(tests) > 1,
+                                  PickMultiCoreExecutor) as pool:
+            results = []
+            for filename in tests:
+                parameters = (filename, parser_factory, transformer_factory,
+                              report, verbose, junctions, show, serializations,
+                              preprocessor_factory)
+                results.append(pool.submit(grammar_unit, *parameters))
+            done, not_done = concurrent.futures.wait(results)
+            assert not not_done, str(not_done)
+            for filename, err_future in zip(tests, results):
+                try:
+                    errata = err_future.result()
+                    if errata:
+                        all_errors[filename] = errata
+                except ValueError as e:
+                    if not ignore_unknown_filetypes or str(e).find("Unknown") < 0:
+                        raise e
+                except AssertionError as e:
+                    e.args = ('When processing "%s":\n%s' % (filename, e.args[0]) if e.args else '',)
                     raise e
-            except AssertionError as e:
-                e.args = ('When processing "%s":\n%s' % (filename, e.args[0]) if e.args else '',)
-                raise e
-    os.chdir(save_cwd)
+    finally:
+        os.chdir(save_cwd)
     error_report = []
     err_N = 0
     if all_errors:
-- 
2.43.0


From 43eae407783ed322f8d1868a98f3c762e265eec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:43 +0000
Subject: [PATCH 065/101] fix: get_report() restores the configuration when it
 fails

---
 DHParser/testing.py | 110 ++++++++++++++++++++++----------------------
 1 file changed, 56 insertions(+), 54 deletions(-)

diff --git a/DHParser/testing.py b/DHParser/testing.py
index 9459e58..71f95a7 100644
--- a/DHParser/testing.py
+++ b/DHParser/testing.py
@@ -460,60 +460,62 @@ def get_report(test_unit, serializations: Dict[str, List[str]] = dict()) -> str:
     srl = { k: v[0] for k, v in serializations.items()}
     save = get_config_value('xml_attribute_error_handling')
     set_config_value('xml_attribute_error_handling', 'fix')
-    for parser_name, tests in test_unit.items():
-        if parser_name[-2:] == '__':
-            heading = parser_name[:-2]
-            report.append(f"{heading}\n{'=' * len(heading)}\n\n    "
-                + '\n    '.join(f"{k} = {repr(v)}" for k, v in tests.items()))
-            continue
-        heading = 'Test of parser: "%s"' % parser_name
-        report.append('\n\n%s\n%s' % (heading, '=' * len(heading)))
-        for test_name, test_code in tests.get('match', dict()).items():
-            heading = '\nMatch-test "%s"' % test_name
-            report.append('\n%s\n%s\n' % (heading, '-' * len(heading)))
-            report.append('### Test-code:\n')
-            report.append(indent(test_code))
-            error = tests.get('__err__', {}).get(test_name, "")
-            if error:
-                report.append('\n### Error:\n')
-                report.append(error)
-            ast = tests.get('__AST__', {}).get(test_name, None)
-            cst = tests.get('__CST__', {}).get(test_name, None)
-            if cst and (not ast or str(test_name).endswith('*')):
-                report.append('\n### CST\n')
-                report.append(indent(cst.serialize(srl.get('CST', 'CST'))))
-            if ast:
-                report.append('\n### AST\n')
-                report.append(indent(ast.serialize(srl.get('AST', 'AST'))))
-
-            compilation_stages = [key for key in tests
-                                  if key[:2] + key[-2:] == '____' and key not in
-                                  {'__AST__', '__CST__', '__err__', 'match', 'fail'}]
-            for stage in compilation_stages:
-                if test_name in tests[stage]:
-                    result = tests[stage][test_name]
-                    report.append(f'\n### {stage.strip("_")}\n')
-                    if isinstance(result, Node):
-                        result_str = cast(Node, result).serialize(
-                            srl.get(stage.strip('_'), srl.get('*', 'default')))
-                    else:
-                        result_str = str(result)
-                    report.append(indent(result_str))
-
-        for test_name, test_code in tests.get('fail', dict()).items():
-            heading = '\nFail-test "%s"' % test_name
-            report.append('\n%s\n%s\n' % (heading, '-' * len(heading)))
-            report.append('### Test-code:')
-            report.append(indent(test_code))
-            messages = tests.get('__msg__', {}).get(test_name, "")
-            if messages:
-                report.append('\n### Messages:\n')
-                report.append(messages)
-            error = tests.get('__err__', {}).get(test_name, "")
-            if error:
-                report.append('\n### Error:\n')
-                report.append(error)
-    set_config_value('xml_attribute_error_handling', save)
+    try:
+        for parser_name, tests in test_unit.items():
+            if parser_name[-2:] == '__':
+                heading = parser_name[:-2]
+                report.append(f"{heading}\n{'=' * len(heading)}\n\n    "
+                    + '\n    '.join(f"{k} = {repr(v)}" for k, v in tests.items()))
+                continue
+            heading = 'Test of parser: "%s"' % parser_name
+            report.append('\n\n%s\n%s' % (heading, '=' * len(heading)))
+            for test_name, test_code in tests.get('match', dict()).items():
+                heading = '\nMatch-test "%s"' % test_name
+                report.append('\n%s\n%s\n' % (heading, '-' * len(heading)))
+                report.append('### Test-code:\n')
+                report.append(indent(test_code))
+                error = tests.get('__err__', {}).get(test_name, "")
+                if error:
+                    report.append('\n### Error:\n')
+                    report.append(error)
+                ast = tests.get('__AST__', {}).get(test_name, None)
+                cst = tests.get('__CST__', {}).get(test_name, None)
+                if cst and (not ast or str(test_name).endswith('*')):
+                    report.append('\n### CST\n')
+                    report.append(indent(cst.serialize(srl.get('CST', 'CST'))))
+                if ast:
+                    report.append('\n### AST\n')
+                    report.append(indent(ast.serialize(srl.get('AST', 'AST'))))
+
+                compilation_stages = [key for key in tests
+                                      if key[:2] + key[-2:] == '____' and key not in
+                                      {'__AST__', '__CST__', '__err__', 'match', 'fail'}]
+                for stage in compilation_stages:
+                    if test_name in tests[stage]:
+                        result = tests[stage][test_name]
+                        report.append(f'\n### {stage.strip("_")}\n')
+                        if isinstance(result, Node):
+                            result_str = cast(Node, result).serialize(
+                                srl.get(stage.strip('_'), srl.get('*', 'default')))
+                        else:
+                            result_str = str(result)
+                        report.append(indent(result_str))
+
+            for test_name, test_code in tests.get('fail', dict()).items():
+                heading = '\nFail-test "%s"' % test_name
+                report.append('\n%s\n%s\n' % (heading, '-' * len(heading)))
+                report.append('### Test-code:')
+                report.append(indent(test_code))
+                messages = tests.get('__msg__', {}).get(test_name, "")
+                if messages:
+                    report.append('\n### Messages:\n')
+                    report.append(messages)
+                error = tests.get('__err__', {}).get(test_name, "")
+                if error:
+                    report.append('\n### Error:\n')
+                    report.append(error)
+    finally:
+        set_config_value('xml_attribute_error_handling', save)
     return '\n'.join(report)
 
 
-- 
2.43.0


From c400a2ac65e22048517ffbb6ec5cc3a76fe27c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:43 +0000
Subject: [PATCH 066/101] fix: grammar_unit() restores configuration and
 tracing when it is aborted

---
 DHParser/testing.py | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/DHParser/testing.py b/DHParser/testing.py
index 71f95a7..e029b69 100644
--- a/DHParser/testing.py
+++ b/DHParser/testing.py
@@ -31,6 +31,7 @@ import asyncio
 import collections
 from collections.abc import Set
 import concurrent.futures
+import contextlib
 import copy
 import fnmatch
 import json
@@ -566,6 +567,16 @@ def grammar_unit(test_unit, parser_factory, transformer_factory, report='REPORT'
         configuration variable test_skip_preprocessor is set to True. Beware that in this
         case, all source snippets must already have been preprocessed.
     """
+    # whatever is registered with cleanup, here, will be undone, even if the tests
+    # are aborted by an exception
+    with contextlib.ExitStack() as cleanup:
+        return _grammar_unit(cleanup, test_unit, parser_factory, transformer_factory, report,
+                             verbose, junctions, show, serializations, preprocessor_factory)
+
+
+def _grammar_unit(cleanup, test_unit, parser_factory, transformer_factory, report, verbose,
+                  junctions, show, serializations, preprocessor_factory):
+    """Does the work for :py:func:`grammar_unit`."""
     assert isinstance(report, str)
     assert isinstance(junctions, Set) and all(isinstance(e[0], str) and isinstance(e[2], str)
                                               and callable(e[1]) for e in junctions), \
@@ -685,8 +696,8 @@ def grammar_unit(test_unit, parser_factory, transformer_factory, report='REPORT'
     def log_history(parser_name, test_code, test_name, test_type, track_history):
         nonlocal parser, config_history_tracking
         if not track_history:
-            set_tracer(parser[parser_name].descendants(), trace_history)
             try:
+                set_tracer(parser[parser_name].descendants(), trace_history)
                 _, prepped_text, _ ,_ = preprocessor(test_code, parser_name)
                 _ = parser(prepped_text, parser_name)
             except AttributeError:
@@ -703,18 +714,24 @@ def grammar_unit(test_unit, parser_factory, transformer_factory, report='REPORT'
             tname = test_name.replace('*', '')
             log_parsing_history(parser, f"{test_type}_{parser_name}_{tname}.log")
 
-    saved_config_values = dict()
+    def stop_tracing(parser_name):
+        set_tracer(parser[parser_name].descendants(), None)
+        parser.history_tracking__ = False
+        parser.resume_notices__ = config_resume_notices
+
     for parser_name, tests in test_unit.items():
         if parser_name[-2:] == '__':
             assert parser_name == 'config__', f'Unknown metadata-type: "{parser_name}"'
             for key, value in tests.items():
-                saved_config_values[key] = get_config_value(key)
+                cleanup.callback(set_config_value, key, get_config_value(key))
                 set_config_value(key, eval(value))
             continue
 
         track_history = config_history_tracking
         try:
             if has_lookahead(parser_name) or track_history:
+                if not config_history_tracking:
+                    cleanup.callback(stop_tracing, parser_name)
                 set_tracer(parser[parser_name].descendants(), trace_history)
                 track_history = True
         except AttributeError:
@@ -971,8 +988,7 @@ def grammar_unit(test_unit, parser_factory, transformer_factory, report='REPORT'
                 write(infostr + ("OK" if len(errata) == errflag else "FAIL"))
 
         if track_history and not config_history_tracking:
-            set_tracer(parser[parser_name].descendants(), None)
-            parser.history_tracking__ = False
+            stop_tracing(parser_name)
         parser.resume_notices__ = config_resume_notices
 
     # write test-report
@@ -987,10 +1003,6 @@ def grammar_unit(test_unit, parser_factory, transformer_factory, report='REPORT'
                 f.write(test_report)
                 f.flush()
 
-    # restore changed config values
-    for key, value in saved_config_values.items():
-        set_config_value(key, value)
-
     print('\n'.join(output))
     return errata
 
-- 
2.43.0


From 826e72dc542268f5a6bb8cb36b00f8d1a839c9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:44 +0000
Subject: [PATCH 067/101] fix: unknown parsers in grammar tests are reported
 when logging is on

---
 DHParser/testing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DHParser/testing.py b/DHParser/testing.py
index e029b69..7bb3fba 100644
--- a/DHParser/testing.py
+++ b/DHParser/testing.py
@@ -695,6 +695,8 @@ def _grammar_unit(cleanup, test_unit, parser_factory, transformer_factory, repor
 
     def log_history(parser_name, test_code, test_name, test_type, track_history):
         nonlocal parser, config_history_tracking
+        if parser_name not in parser:
+            return  # unknown parser: there is no parsing-history to be logged
         if not track_history:
             try:
                 set_tracer(parser[parser_name].descendants(), trace_history)
-- 
2.43.0


From 933d7702758b90824b06b157f776d425dc4c25ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:44 +0000
Subject: [PATCH 068/101] fix: missing results of compilation-stages are
 reported as such

---
 DHParser/testing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/testing.py b/DHParser/testing.py
index 7bb3fba..590119c 100644
--- a/DHParser/testing.py
+++ b/DHParser/testing.py
@@ -850,7 +850,7 @@ def _grammar_unit(cleanup, test_unit, parser_factory, transformer_factory, repor
                     except KeyError as ke:
                         # ignore key errors in case they are only consequential errors
                         # of earlier errors
-                        if err.code != PYTHON_ERROR_IN_TEST:
+                        if err is None or err.code != PYTHON_ERROR_IN_TEST:
                             raise ke
                 # keep test-items, so that the order of the items is the same as
                 # in which they are processed in the pipeline.
-- 
2.43.0


From 132d69773b0d45f9d2d0de0b26c77813702aa260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:44 +0000
Subject: [PATCH 069/101] fix: fail-tests that raise exceptions are not judged
 by the previous test

---
 DHParser/testing.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/DHParser/testing.py b/DHParser/testing.py
index 590119c..c049f05 100644
--- a/DHParser/testing.py
+++ b/DHParser/testing.py
@@ -950,6 +950,7 @@ def _grammar_unit(cleanup, test_unit, parser_factory, transformer_factory, repor
 
         for test_name, test_code in tests.get('fail', dict()).items():
             errflag = len(errata)
+            clean_test_name = str(test_name).replace('*', '')
             try:
                 cst = parser(test_code, parser_name, complete_match=True)
                 # complete_math=True, because fail-tests are specifically needed
@@ -970,6 +971,8 @@ def _grammar_unit(cleanup, test_unit, parser_factory, transformer_factory, repor
             except Exception as e:
                 errata.append('Fail-test "%s" for parser "%s" failed with:\n%s' %
                               (test_name, parser_name, str(e)))
+                tests.setdefault('__err__', {})[test_name] = errata[-1]
+                continue
             if 'AST' in tests or report:
                 traverse(cst, {'*': remove_children({TEST_ARTIFACT})})
                 transform(cst)
@@ -981,7 +984,7 @@ def _grammar_unit(cleanup, test_unit, parser_factory, transformer_factory, repor
                 tests.setdefault('__err__', {})[test_name] = errata[-1]
                 store_fail_log = True
             if is_logging() and store_fail_log:
-                log_history(parser_name, test_code, test_name, 'fail', track_history)
+                log_history(parser_name, test_code, clean_test_name, 'fail', track_history)
             if cst.error_flag:
                 tests.setdefault('__msg__', {})[test_name] = \
                     "\n".join(str(e) for e in cst.errors)
-- 
2.43.0


From ff3d883405c0af4eb9abd76a23ed8f9f37a0d9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:44 +0000
Subject: [PATCH 070/101] fix: unknown parsers in test-files are not mistaken
 for unknown filetypes

---
 DHParser/testing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DHParser/testing.py b/DHParser/testing.py
index c049f05..6d909f2 100644
--- a/DHParser/testing.py
+++ b/DHParser/testing.py
@@ -1109,7 +1109,8 @@ def grammar_suite(directory, parser_factory, transformer_factory,
                     if errata:
                         all_errors[filename] = errata
                 except ValueError as e:
-                    if not ignore_unknown_filetypes or str(e).find("Unknown") < 0:
+                    if not ignore_unknown_filetypes \
+                            or str(e).find("Unknown unit test file type") < 0:
                         raise e
                 except AssertionError as e:
                     e.args = ('When processing "%s":\n%s' % (filename, e.args[0]) if e.args else '',)
-- 
2.43.0


From bc8488a0e7ea1030effc222bafb3875cf088abd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:44 +0000
Subject: [PATCH 071/101] fix: test-reports are written atomically

---
 DHParser/testing.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/DHParser/testing.py b/DHParser/testing.py
index 6d909f2..a81083a 100644
--- a/DHParser/testing.py
+++ b/DHParser/testing.py
@@ -1004,9 +1004,7 @@ def _grammar_unit(cleanup, test_unit, parser_factory, transformer_factory, repor
                 os.mkdir(report)   # is a process-Lock needed, here?
             except FileExistsError:
                 pass
-            with open(os.path.join(report, unit_name + '.md'), 'w', encoding='utf8') as f:
-                f.write(test_report)
-                f.flush()
+            write_atomically(os.path.join(report, unit_name + '.md'), test_report)
 
     print('\n'.join(output))
     return errata
-- 
2.43.0


From 85f4e2596cd3e2065da249616b649d79325026a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:55 +0000
Subject: [PATCH 072/101] fix: gen_chain_ID() could yield the same ID twice if
 several threads used it

The counter was read, increased and written back without a lock, so that a thread
that was overtaken set the counter back and the other threads received IDs again
that they had already used for other chains of the same tree.
---
 DHParser/nodetree.py | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/DHParser/nodetree.py b/DHParser/nodetree.py
index 1fcabe7..26bd769 100644
--- a/DHParser/nodetree.py
+++ b/DHParser/nodetree.py
@@ -96,6 +96,7 @@ import copy
 from enum import IntEnum
 import functools
 import json
+import threading
 from typing import Callable, cast, Iterator, Sequence, List, \
     Union, Tuple, Container, Optional, Dict, Any, NamedTuple
 
@@ -4472,6 +4473,7 @@ chain_step = 4231
 chain_len = 3
 chain_modulo = 23 ** chain_len
 chain_letters = "ABCDEFGHKLMNPQRSTUVWXYZ"
+chain_lock = threading.Lock()
 
 
 def reset_chain_ID(chain_length: int = 3):
@@ -4484,10 +4486,11 @@ def reset_chain_ID(chain_length: int = 3):
     global chain_id, chain_step, chain_len, chain_modulo
     assert chain_length >= 3
     multiplier = 23 ** (chain_length - 3)
-    chain_id = 4231 * multiplier
-    chain_step = 4231 * multiplier
-    chain_len = chain_length
-    chain_modulo = 23 ** chain_len
+    with chain_lock:
+        chain_id = 4231 * multiplier
+        chain_step = 4231 * multiplier
+        chain_len = chain_length
+        chain_modulo = 23 ** chain_len
 
 
 def gen_chain_ID() -> str:
@@ -4497,18 +4500,20 @@ def gen_chain_ID() -> str:
     Chain-IDs in different threads or processes can be identical. It is assumed
     that one tree is not processed by several threads at the same time."""
     global chain_id, chain_step, chain_len, chain_modulo
-    chain_id = (chain_id + chain_step) % chain_modulo
-    if chain_id == chain_step:
-        chain_step = chain_step * 23 - 1
-        chain_id = chain_step
-        chain_len += 1
-        chain_modulo *= 23
-    c = chain_id
+    with chain_lock:
+        chain_id = (chain_id + chain_step) % chain_modulo
+        if chain_id == chain_step:
+            chain_step = chain_step * 23 - 1
+            chain_id = chain_step
+            chain_len += 1
+            chain_modulo *= 23
+        c = chain_id
+        length = chain_len
     cid = []
     while c > 0:
         cid.append(chain_letters[c % 23])
         c = c // 23
-    while len(cid) < chain_len:
+    while len(cid) < length:
         cid.append('A')
     return ''.join(cid)
 
-- 
2.43.0


From dd20f8b3832a95b2f1a95fe263f8588670332afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:11 +0000
Subject: [PATCH 073/101] fix: page service: report a page as unchanged only if
 it really is

The checksum in the request was compared with the checksum noted when the page
was served last, so that later changes of the page were never delivered to
clients that knew this version. A checksum for a page that had not been served
before led to a KeyError. The list of checksums is replaced atomically now, so
that a crash or a full disk cannot destroy it.
---
 DHParser/server.py | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/DHParser/server.py b/DHParser/server.py
index 3fa0556..99f94c6 100644
--- a/DHParser/server.py
+++ b/DHParser/server.py
@@ -84,7 +84,7 @@ from DHParser.nodetree import DHParser_JSONEncoder
 from DHParser.log import create_log, append_log, is_logging, log_dir
 from DHParser.toolkit import re, JSON_Type, JSON_Dict, JSONstr, JSONnull, \
     json_encode_string, json_rpc, json_dumps, pp_json, pp_json_str, identify_python, \
-    normalize_docstring, md5, is_html_name, TypeAlias, PickMultiCoreExecutor
+    normalize_docstring, md5, is_html_name, write_atomically, TypeAlias, PickMultiCoreExecutor
 from DHParser.versionnumber import __version__
 
 
@@ -1338,23 +1338,23 @@ class Server:
                          '"DHParser.allow not found.')
         if not os.path.isfile(file_path):
             return error(f'Page "{file_path}" not found on.', '')
-        with open(allow_file, 'r', encoding='utf-8') as f:
-            lines = [l.split('=') for l in f.read().split('\n') if l.strip()]
-        allow = { l[0].strip(): l[1].strip() for l in lines if len(l) == 2}
-        if not chksum or allow[basename] != chksum:
-            try:
-                with open(file_path, 'r', encoding='utf-8') as f:  page = f.read()
-                if is_html_name(basename):
-                    chksum = md5(page)
-                    allow[basename] = chksum
-                    with open(allow_file, 'w', encoding='utf-8') as f:
-                        f.writelines(''.join([name, '=', chk, '\n'])
-                                     for name, chk in allow.items())
-                    page = re.sub('<body.*?>', f'<body chksum="{chksum}">', page)
-            except UnicodeDecodeError:
-                with open(file_path, 'rb') as f:  page = f.read()
-            return page
-        return ''  # empty string means that page has not changed
+        try:
+            with open(file_path, 'r', encoding='utf-8') as f:  page = f.read()
+        except UnicodeDecodeError:
+            with open(file_path, 'rb') as f:  return f.read()
+        current = md5(page)
+        if chksum == current:
+            return ''  # empty string means that page has not changed
+        if is_html_name(basename):
+            with open(allow_file, 'r', encoding='utf-8') as f:
+                lines = [l.split('=') for l in f.read().split('\n') if l.strip()]
+            allow = {l[0].strip(): l[1].strip() for l in lines if len(l) == 2}
+            if allow.get(basename, '') != current:
+                allow[basename] = current
+                write_atomically(allow_file, ''.join(''.join([name, '=', chk, '\n'])
+                                                     for name, chk in allow.items()))
+            page = re.sub('<body.*?>', f'<body chksum="{current}">', page)
+        return page
 
     async def run(self, method_name: str, method: Callable, params: Union[Dict, List, Tuple]) \
             -> Tuple[Optional[Union[JSON_Type, BytesType]], Optional[RPC_Error_Type]]:
-- 
2.43.0


From f17f444f6ed76dce034e69363703111f2e58c802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:45 +0000
Subject: [PATCH 074/101] fix: services that have been registered later could
 not be called with JSON-RPC

---
 DHParser/server.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/DHParser/server.py b/DHParser/server.py
index 99f94c6..8a296d2 100644
--- a/DHParser/server.py
+++ b/DHParser/server.py
@@ -1182,6 +1182,9 @@ class Server:
         self.stop_response = ''     # type: str
         self.service_calls = set()  # type: Set[str]
 
+        self.known_methods = set(self.rpc_table.keys()) | \
+            {'initialize', 'initialized', 'shutdown', 'exit'}  # see self.verify_initialization()
+
         self.register_service_rpc(IDENTIFY_REQUEST, self.rpc_identify_server)
         self.register_service_rpc(LOGGING_REQUEST, self.rpc_logging)
         self.register_service_rpc(INFO_REQUEST, self.rpc_info)
@@ -1193,9 +1196,6 @@ class Server:
         self.kill_switch = False    # type: bool
         self.loop = None            # type: Optional[asyncio.AbstractEventLoop]
 
-        self.known_methods = set(self.rpc_table.keys()) | \
-            {'initialize', 'initialized', 'shutdown', 'exit'}  # see self.verify_initialization()
-
         self._echo_log = get_config_value('echo_server_log')  # type: bool
         self.use_jsonrpc_header = get_config_value('jsonrpc_header')  # type: bool
         self.log_filter = LogFilter()
@@ -1239,6 +1239,7 @@ class Server:
             self.log('Service {} is shadowed by an rpc-call with the same name.'.format(name))
         else:
             self.rpc_table[name] = method
+            self.known_methods.add(name)
             self.service_calls.add(name)
 
     def start_logging(self, filename: str = "") -> str:
-- 
2.43.0


From 1af218817ee9bf40c94eb60b8c18b05229a2f49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:32 +0000
Subject: [PATCH 075/101] fix: clear_logs() failed if the logs were cleared by
 another thread at the same time

---
 DHParser/log.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/DHParser/log.py b/DHParser/log.py
index bbbc86b..b00766b 100644
--- a/DHParser/log.py
+++ b/DHParser/log.py
@@ -260,9 +260,12 @@ def clear_logs(logfile_types=frozenset(['.cst', '.ast', '.log'])):
     Removes all logs from the log-directory and removes the
     log-directory if it is empty.
     """
-    log_dirname = log_dir()
+    log_dirname = get_config_value('log_dir')  # log_dir() would create the directory
     if log_dirname and os.path.exists(log_dirname) and os.path.isdir(log_dirname):
-        files = os.listdir(log_dirname)
+        try:
+            files = os.listdir(log_dirname)
+        except FileNotFoundError:
+            return  # directory has already been removed by another thread or process
         only_log_files = True
         for file in files:
             path = os.path.join(log_dirname, file)
-- 
2.43.0


From 492ca330ba387b12210b36f9a2cb149f7817d4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:52 +0000
Subject: [PATCH 076/101] fix: detach_server() started a script that used
 functions which do not exist any more

---
 DHParser/server.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/DHParser/server.py b/DHParser/server.py
index 8a296d2..59a8067 100644
--- a/DHParser/server.py
+++ b/DHParser/server.py
@@ -2124,11 +2124,11 @@ if len(path) < 20:
 {INITIALIZATION}
 
 def run_server(host, port):
-    from DHParser.server import asyncio_run, Server, stop_server, has_server_stopped
+    from DHParser.server import Server, stop_tcp_server
     {LOGGING}
-    stop_server(host, port, 2.0)
+    stop_tcp_server(host, port, 2.0)
     server = Server({PARAMETERS})
-    server.run_server(host, port)
+    server.run_tcp_server(host, port)
 
 if __name__ == '__main__':
     run_server('{HOST}', {PORT})
-- 
2.43.0


From 042250391259f2966e18914e5dc5e218326e84f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:01 +0000
Subject: [PATCH 077/101] fix: an exception while describing a recursive parser
 garbled later error messages

---
 DHParser/parse.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index 1ce8462..a584870 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -5360,9 +5360,10 @@ class Forward(UnaryParser):
             return alt_return
         else:
             self.cycle_reached = True
-            ret = func()
-            self.cycle_reached = False
-            return ret
+            try:
+                return func()
+            finally:  # func() might fail, e.g. with a RecursionError
+                self.cycle_reached = False
 
     def __repr__(self):
         return self.__cycle_guard(lambda: repr(self.parser), '...')
-- 
2.43.0


From 6991db1e9c0fec694330d1d2e6e95338ed7e7414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:04 +0000
Subject: [PATCH 078/101] fix: server script cut off long answers and failed
 for very long ones

---
 DHParser/templates/DSLServer.pyi | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/DHParser/templates/DSLServer.pyi b/DHParser/templates/DSLServer.pyi
index a87c06b..4d27c08 100644
--- a/DHParser/templates/DSLServer.pyi
+++ b/DHParser/templates/DSLServer.pyi
@@ -29,7 +29,6 @@ DEFAULT_HOST = '127.0.0.1'
 DEFAULT_PORT = 8890
 ALTERNATIVE_PORTS = [8888, 8889, 8898, 8980, 8988, 8989]
 
-DATA_RECEIVE_LIMIT = 262144
 SERVER_REPLY_TIMEOUT = 20
 
 KNOWN_HOST = ''  # if host and port are retrieved from a config file, their
@@ -385,15 +384,30 @@ def run_server(host, port, log_path=None):
                     pass
 
 
+async def read_response(reader) -> bytes:
+    """Reads a complete response, i.e. header plus content."""
+    header = await reader.readuntil(b'\r\n\r\n')
+    i = header.find(b'Content-Length:')
+    if i < 0:
+        raise ValueError('Not a response by a DHParser-server: ' + str(header))
+    return await reader.readexactly(int(header[i + 15:].split(b'\r\n')[0]))
+
+
 async def send_request(reader, writer, request, timeout=SERVER_REPLY_TIMEOUT) -> str:
-    """Sends a request and returns the decoded response."""
-    writer.write(request.encode() if isinstance(request, str) else request)
+    """Sends a request and returns the decoded response. Because request and response
+    may be cut into pieces on their way, both are preceded by a header that contains
+    their size. Raises a ValueError if the other side doesn't answer like a
+    DHParser-server."""
+    data = request.encode() if isinstance(request, str) else request
+    writer.write(b'Content-Length: %i\r\n\r\n' % len(data) + data)
     try:
-        data = await asyncio.wait_for(reader.read(DATA_RECEIVE_LIMIT), timeout)
+        data = await asyncio.wait_for(read_response(reader), timeout)
     except asyncio.TimeoutError as e:
         echo('Server did not answer to "%s"-Request within %i seconds.'
               % (request, timeout))
         raise e
+    except (asyncio.IncompleteReadError, asyncio.LimitOverrunError) as e:
+        raise ValueError('Incomplete response to request "%s": %s' % (request, e))
     return data.decode()
 
 
@@ -426,6 +440,9 @@ async def single_request(request, host, port, timeout=SERVER_REPLY_TIMEOUT) -> s
         result = await final_request(reader, writer, request, timeout)
     except asyncio.TimeoutError:
         sys.exit(1)
+    except (ConnectionError, ValueError) as e:
+        echo('No answer from %s:%i: %s' % (host, port, e))
+        sys.exit(1)
     return result
 
 
@@ -640,10 +657,7 @@ def main():
         log_path, log_request = parse_logging_args(args)
         requests = [log_request, file_names] if log_request else [file_names]
         result = asyncio_run(start_server_daemon(host, port, requests, timeout))[-1]
-        if len(result) >= DATA_RECEIVE_LIMIT:
-            echo(result, '...')
-        else:
-            echo(result)
+        echo(result)
 
     else:
         echo('Usages:\n'
-- 
2.43.0


From 58155132a2678214b474e68198b8e2def96fe274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:04 +0000
Subject: [PATCH 079/101] fix: options and service calls on the command line of
 the server script raised errors or were ignored

---
 DHParser/templates/DSLServer.pyi | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/DHParser/templates/DSLServer.pyi b/DHParser/templates/DSLServer.pyi
index 4d27c08..dd872dd 100644
--- a/DHParser/templates/DSLServer.pyi
+++ b/DHParser/templates/DSLServer.pyi
@@ -529,9 +529,8 @@ async def start_server_daemon(host, port, requests, timeout=SERVER_REPLY_TIMEOUT
     return results
 
 
-def parse_logging_args(args):
+def parse_logging_args(args, host, port):
     if args.logging or args.logging is None:
-        global host, port
         if port >= 0 and host:
             echo = repr('ECHO_ON') if isinstance(args.startserver, list) else repr('ECHO_OFF')
         else:  # echoing does not work with stream connections!
@@ -551,6 +550,7 @@ def parse_logging_args(args):
 
 
 def main():
+    global VERBOSE, CONNECTION_TYPE, KNOWN_HOST, KNOWN_PORT
     from argparse import ArgumentParser, REMAINDER
     parser = ArgumentParser(description="Setup and Control of a Server for processing DSL-files.")
     action_group = parser.add_mutually_exclusive_group()
@@ -588,23 +588,22 @@ def main():
         if port >= 0 or host:
             echo('Specifying host and port when using streams as transport does not make sense')
             sys.exit(1)
-        log_path, _ = parse_logging_args(args)
+        log_path, _ = parse_logging_args(args, host, port)
         run_server('', -1, log_path)
         sys.exit(0)
 
+    explicit = port >= 0 or bool(host)
     if port < 0 or not host:
         # if host and port have not been specified explicitly on the command
         # line, try to retrieve them from (temporary) config file or use
         # hard coded default values
         h, p = retrieve_host_and_port()
-        if port < 0:
-            port = p
-        else:
-            KNOWN_PORT = port  # we assume, the user knows what (s)he is doing...
-        if not host:
-            host = h
-        else:
-            KNOWN_HOST = host  # ...when explicitly requesting a particular host, port
+        if port < 0:  port = p
+        if not host:  host = h
+    if explicit:
+        # we assume, the user knows what (s)he is doing when explicitly
+        # requesting a particular host or port
+        KNOWN_HOST, KNOWN_PORT = host, port
 
     if args.status:
         result = asyncio_run(single_request(IDENTIFY_REQUEST, host, port, SERVER_REPLY_TIMEOUT))
@@ -623,11 +622,11 @@ def main():
                 port = int(portstr)
             except ValueError:
                 parser.error('port must be a number!')
-        log_path, _ = parse_logging_args(args)
+        log_path, _ = parse_logging_args(args, host, port)
         sys.exit(run_server(host, port, log_path))
 
     elif args.startdaemon:
-        log_path, log_request = parse_logging_args(args)
+        log_path, log_request = parse_logging_args(args, host, port)
         asyncio.run(start_server_daemon(host, port, [log_request] if log_request else []))
 
     elif args.stopserver:
@@ -639,7 +638,7 @@ def main():
         verbose(result)
 
     elif args.logging:
-        log_path, request = parse_logging_args(args)
+        log_path, request = parse_logging_args(args, host, port)
         verbose(asyncio_run(single_request(request, host, port)))
 
     elif args.file:
@@ -654,7 +653,9 @@ def main():
                 timeout = 3600 * 24 * 365  # timout in batch mode: one year!
             else:
                 file_names = os.path.abspath(file_name)
-        log_path, log_request = parse_logging_args(args)
+        else:
+            file_names = file_name
+        log_path, log_request = parse_logging_args(args, host, port)
         requests = [log_request, file_names] if log_request else [file_names]
         result = asyncio_run(start_server_daemon(host, port, requests, timeout))[-1]
         echo(result)
-- 
2.43.0


From 609274730b947a16897b50e0350d68cb5b4efa6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:04 +0000
Subject: [PATCH 080/101] fix: commands of the server script returned nothing
 or crashed, if the server was busy or the connection lost

---
 DHParser/templates/DSLServer.pyi | 39 +++++++++++++++++++++++---------
 1 file changed, 28 insertions(+), 11 deletions(-)

diff --git a/DHParser/templates/DSLServer.pyi b/DHParser/templates/DSLServer.pyi
index dd872dd..cb854fa 100644
--- a/DHParser/templates/DSLServer.pyi
+++ b/DHParser/templates/DSLServer.pyi
@@ -415,7 +415,10 @@ async def close_connection(writer):
     """Closes the communication-channel."""
     writer.close()
     if sys.version_info >= (3, 7, 0):
-        await writer.wait_closed()
+        try:
+            await writer.wait_closed()
+        except OSError:
+            pass  # connection has already been lost
 
 
 async def final_request(reader, writer, request, timeout=SERVER_REPLY_TIMEOUT) -> str:
@@ -433,7 +436,7 @@ async def single_request(request, host, port, timeout=SERVER_REPLY_TIMEOUT) -> s
     again before returning the decoded result."""
     try:
         reader, writer = await asyncio.open_connection(host, port)
-    except ConnectionRefusedError:
+    except OSError:
         echo('No server running on: ' + host + ':' + str(port))
         sys.exit(1)
     try:
@@ -457,6 +460,7 @@ async def connect_to_daemon(host, port) -> tuple:
         delay = 0.05
         countdown = max(SERVER_REPLY_TIMEOUT, 5)
     ident, reader, writer = None, None, None
+    busy = False
     cfg_filename = get_config_filename()
     save = (host, port)
     while countdown > 0:
@@ -467,12 +471,18 @@ async def connect_to_daemon(host, port) -> tuple:
             reader, writer = await asyncio.open_connection(host, port)
             try:
                 ident = await send_request(reader, writer, IDENTIFY_REQUEST)
-                if ident.find(servername) < 0:
+                if ident.find(servername) < 0 or ident.endswith('already connected'):
+                    busy = ident.find(servername) >= 0
                     ident = None
                     raise ValueError
                 countdown = 0
-            except (asyncio.TimeoutError, ValueError):
-                echo('Server "%s" not found on %s:%i' % (servername, host, port))
+            except (asyncio.TimeoutError, ConnectionError, ValueError) as error:
+                if busy:  # just wait until the other client has been served
+                    busy = False
+                else:
+                    verbose('Server "%s" not found on %s:%i' % (servername, host, port))
+                if isinstance(error, asyncio.TimeoutError):
+                    countdown -= SERVER_REPLY_TIMEOUT / delay
                 await close_connection(writer)
                 reader, writer = None, None
                 await asyncio.sleep(delay)
@@ -481,7 +491,7 @@ async def connect_to_daemon(host, port) -> tuple:
                 if (h, p) != (host, port):
                     # try again with a different host and port
                     host, port = h, p
-        except (ConnectionRefusedError, ValueError):
+        except (OSError, ValueError):
             await asyncio.sleep(delay)
             if os.path.exists(cfg_filename):
                 host, port = retrieve_host_and_port()
@@ -520,11 +530,18 @@ async def start_server_daemon(host, port, requests, timeout=SERVER_REPLY_TIMEOUT
         else:
             verbose('Connection to server "%s" established.' % ident)
     results = []
-    for request in requests:
-        assert request
-        verbose("Sending request: '%s'" % str(request))
-        results.append(await send_request(reader, writer, request, timeout))
-    await close_connection(writer)
+    try:
+        for request in requests:
+            assert request
+            verbose("Sending request: '%s'" % str(request))
+            results.append(await send_request(reader, writer, request, timeout))
+    except asyncio.TimeoutError:
+        sys.exit(1)
+    except (ConnectionError, ValueError) as e:
+        echo('Connection to server on %s:%i has been lost: %s' % (host, port, e))
+        sys.exit(1)
+    finally:
+        await close_connection(writer)
     verbose('Connection closed.')
     return results
 
-- 
2.43.0


From ce123f64d919b85f0a6ea09528d858e198952a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:04 +0000
Subject: [PATCH 081/101] fix: out of date or incomplete address files led the
 server script astray

---
 DHParser/templates/DSLServer.pyi | 37 ++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/DHParser/templates/DSLServer.pyi b/DHParser/templates/DSLServer.pyi
index cb854fa..1fe12a2 100644
--- a/DHParser/templates/DSLServer.pyi
+++ b/DHParser/templates/DSLServer.pyi
@@ -116,10 +116,25 @@ def retrieve_host_and_port():
               % (cfg_filename, host, port))
     except ValueError:
         verbose('removing invalid config file: ' + cfg_filename)
-        os.remove(cfg_filename)
+        remove_config_file()
     return host, port
 
 
+def remove_config_file(address: str = ''):
+    """Removes the temporary config file. If an address, e.g. "127.0.0.1 8890", is given,
+    the file is removed only if it contains this very address."""
+    cfg_filename = get_config_filename()
+    try:
+        if address:
+            with open(cfg_filename, 'r', encoding='utf-8') as f:
+                if f.read().strip(' \n') != address:
+                    return
+        os.remove(cfg_filename)
+        verbose('removing temporary config file: ' + cfg_filename)
+    except FileNotFoundError:
+        pass
+
+
 def asyncio_run(coroutine):
     """Backward compatible version of Pyhon3.7's `asyncio.run()`"""
     if sys.version_info >= (3, 7, 0):
@@ -303,6 +318,7 @@ def run_server(host, port, log_path=None):
         sys.exit(1)
 
     from DHParser.server import Server, probe_tcp_server, StreamReaderProxy, StreamWriterProxy
+    from DHParser.toolkit import write_atomically
     # from DHParser.lsp import gen_lsp_table
 
     DSL_lsp = DSLLanguageServerProtocol()
@@ -338,8 +354,10 @@ def run_server(host, port, log_path=None):
         port = ports.pop()
         if (host, port) == (KNOWN_HOST, KNOWN_PORT):
             ident = asyncio_run(probe_tcp_server(host, port, SERVER_REPLY_TIMEOUT))
+            if ident.find(' %s ' % servername) < 0:
+                overwrite = True  # the config file is out of date
             if ident:
-                if ident.endswith(servername):
+                if ident.find(' %s ' % servername) >= 0:
                     echo('A server of type "%s" already exists on %s:%i.' % (servername, host, port)
                           + ' Use --port option to start a secondary server on a different port.')
                     sys.exit(1)
@@ -348,13 +366,14 @@ def run_server(host, port, log_path=None):
                     continue
                 else:
                     echo('"%s" already occupies %s:%i. No more ports to try.' % (ident, host, port))
+                    remove_config_file('%s %i' % (host, port))
                     sys.exit(1)
         if overwrite:
             try:
-                with open(cfg_filename, 'w', encoding='utf-8') as f:
-                    verbose('Storing host and port value %s:%i in file "%s".'
-                          % (host, port, cfg_filename))
-                    f.write(host + ' ' + str(port))
+                verbose('Storing host and port value %s:%i in file "%s".'
+                        % (host, port, cfg_filename))
+                # other processes must never see an incomplete file
+                write_atomically(cfg_filename, host + ' ' + str(port))
             except (PermissionError, IOError) as e:
                 echo('%s: Could not write temporary config file: "%s"' % (str(e), cfg_filename))
                 ports = []
@@ -377,11 +396,7 @@ def run_server(host, port, log_path=None):
         finally:
             if not ports:
                 echo('Server on %s:%i stopped' % (host, port))
-                try:
-                    os.remove(cfg_filename)
-                    verbose('removing temporary config file: ' + cfg_filename)
-                except FileNotFoundError:
-                    pass
+                remove_config_file('%s %i' % (host, port))
 
 
 async def read_response(reader) -> bytes:
-- 
2.43.0


From a19672190d904b9e247be64f948d5eaf918d1ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:04 +0000
Subject: [PATCH 082/101] fix: server script stopped servers of other languages

---
 DHParser/templates/DSLServer.pyi | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/DHParser/templates/DSLServer.pyi b/DHParser/templates/DSLServer.pyi
index 1fe12a2..b092c8e 100644
--- a/DHParser/templates/DSLServer.pyi
+++ b/DHParser/templates/DSLServer.pyi
@@ -662,11 +662,11 @@ def main():
         asyncio.run(start_server_daemon(host, port, [log_request] if log_request else []))
 
     elif args.stopserver:
-        try:
-            result = asyncio_run(single_request(STOP_SERVER_REQUEST_BYTES, host, port))
-        except ConnectionRefusedError as e:
-            echo(e)
+        ident = asyncio_run(single_request(IDENTIFY_REQUEST, host, port))
+        if ident.find(' %s ' % servername) < 0:
+            echo('The server on %s:%i is not a "%s", but: %s' % (host, port, servername, ident))
             sys.exit(1)
+        result = asyncio_run(single_request(STOP_SERVER_REQUEST_BYTES, host, port))
         verbose(result)
 
     elif args.logging:
-- 
2.43.0


From bd55c5196776811f939182a196ae51efd500b6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:11 +0000
Subject: [PATCH 083/101] fix: server script did not process the given file, if
 logging was switched at the same time

---
 DHParser/templates/DSLServer.pyi | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/DHParser/templates/DSLServer.pyi b/DHParser/templates/DSLServer.pyi
index b092c8e..ee716cc 100644
--- a/DHParser/templates/DSLServer.pyi
+++ b/DHParser/templates/DSLServer.pyi
@@ -669,10 +669,6 @@ def main():
         result = asyncio_run(single_request(STOP_SERVER_REQUEST_BYTES, host, port))
         verbose(result)
 
-    elif args.logging:
-        log_path, request = parse_logging_args(args, host, port)
-        verbose(asyncio_run(single_request(request, host, port)))
-
     elif args.file:
         timeout = SERVER_REPLY_TIMEOUT
         file_name = args.file
@@ -692,6 +688,10 @@ def main():
         result = asyncio_run(start_server_daemon(host, port, requests, timeout))[-1]
         echo(result)
 
+    elif args.logging or args.logging is None:
+        log_path, request = parse_logging_args(args, host, port)
+        verbose(asyncio_run(single_request(request, host, port)))
+
     else:
         echo('Usages:\n'
              + '    python DSLServer.py --startserver [--host host] [--port port] [--logging [ON|LOG_PATH|OFF]]\n'
-- 
2.43.0


From d12101a040281d0cdb0c208caed3155ac5369e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:47 +0000
Subject: [PATCH 084/101] fix: compile_src() of generated parser scripts
 ignored cancel_query

---
 DHParser/templates/DSLParser.pyi | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/templates/DSLParser.pyi b/DHParser/templates/DSLParser.pyi
index 1bbc04a..2e8793b 100644
--- a/DHParser/templates/DSLParser.pyi
+++ b/DHParser/templates/DSLParser.pyi
@@ -91,7 +91,7 @@ def compile_src(source: str,
         target-stage selected by parameter "target" and of the potentially
         empty list of errors.
     """
-    full_compilation_result = pipeline(source, target, start_parser)
+    full_compilation_result = pipeline(source, target, start_parser, cancel_query=cancel_query)
     return full_compilation_result[target]
 
 
-- 
2.43.0


From e0cd221fd9af1c682aac46b3e158a6b647c3a270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:47 +0000
Subject: [PATCH 085/101] fix: generated scripts looked for the error messages
 of the grammar in the wrong place

---
 DHParser/templates/DSLParser.pyi | 3 +--
 DHParser/templates/DSLServer.pyi | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/DHParser/templates/DSLParser.pyi b/DHParser/templates/DSLParser.pyi
index 2e8793b..a8adcf1 100644
--- a/DHParser/templates/DSLParser.pyi
+++ b/DHParser/templates/DSLParser.pyi
@@ -163,8 +163,7 @@ def main(called_from_app=False) -> bool:
 
     if os.path.exists(grammar_path) and os.path.isfile(grammar_path):
         if not recompile_grammar(grammar_path, scriptpath, force=False, notify=notify):
-            error_file = os.path.basename(__file__)\
-                .replace('Parser.py', '_ebnf_MESSAGES.txt')
+            error_file = os.path.splitext(grammar_path)[0] + '_ebnf_MESSAGES.txt'
             with open(error_file, 'r', encoding="utf-8") as f:
                 print(f.read())
             sys.exit(1)
diff --git a/DHParser/templates/DSLServer.pyi b/DHParser/templates/DSLServer.pyi
index ee716cc..edef39c 100644
--- a/DHParser/templates/DSLServer.pyi
+++ b/DHParser/templates/DSLServer.pyi
@@ -313,7 +313,7 @@ def run_server(host, port, log_path=None):
             notify=lambda: print('recompiling ' + grammar_src)):
         print('\nErrors while recompiling "%s":' % grammar_src +
               '\n--------------------------------------\n\n')
-        with open('DSL_ebnf_ERRORS.txt', 'r', encoding='utf-8') as f:
+        with open(grammar_src.replace('.ebnf', '_ebnf_MESSAGES.txt'), 'r', encoding='utf-8') as f:
             print(f.read())
         sys.exit(1)
 
-- 
2.43.0


From a0126650bba78a829498ac52ca2872b89633233b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:47 +0000
Subject: [PATCH 086/101] fix: parser scripts ignored the output directory, if
 it was given as --out=...

---
 DHParser/templates/DSLParser.pyi | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/DHParser/templates/DSLParser.pyi b/DHParser/templates/DSLParser.pyi
index a8adcf1..3ef7c5e 100644
--- a/DHParser/templates/DSLParser.pyi
+++ b/DHParser/templates/DSLParser.pyi
@@ -194,7 +194,7 @@ def main(called_from_app=False) -> bool:
                         help='Processes the given snippet directly (instead of a file).')
     parser.add_argument('-d', '--debug', action='store_const', const='debug',
                         help='Write debug information to LOGS subdirectory')
-    parser.add_argument('-o', '--out', nargs=1, default=['out'],
+    parser.add_argument('-o', '--out', nargs=1, default=[],
                         help='Output directory for batch processing')
     parser.add_argument('-v', '--verbose', action='store_const', const='verbose',
                         help='Verbose output')
@@ -212,7 +212,7 @@ def main(called_from_app=False) -> bool:
                              '%s; default: %s' % (', '.join(test_targets), ', '.join(targets)))
 
     args = parser.parse_args()
-    file_names, out, log_dir = args.files, args.out[0], ''
+    file_names, out, log_dir = args.files, (args.out or ['out'])[0], ''
     piped_data = '' if sys.stdin.isatty() else sys.stdin.read()
     if piped_data: file_names.insert(0, '\ufeff' + piped_data)
     if args.parse: file_names.insert(0, '\ufeff' + args.parse[0])
@@ -277,7 +277,7 @@ def main(called_from_app=False) -> bool:
             echo('Processing all files in directory: ' + dir_name)
             file_names = [os.path.join(dir_name, fn) for fn in os.listdir(dir_name)
                           if fn[0:1] != '.' and os.path.isfile(os.path.join(dir_name, fn))]
-        elif not ('-o' in sys.argv or '--out' in sys.argv):
+        elif not args.out:
             batch_processing = False
 
     if batch_processing:
-- 
2.43.0


From c71c7f5227569a7df21175db59e8540e13e8c902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:47 +0000
Subject: [PATCH 087/101] fix: batch processing ignored the formats and targets
 chosen on the command line

---
 DHParser/templates/DSLParser.pyi | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/DHParser/templates/DSLParser.pyi b/DHParser/templates/DSLParser.pyi
index 3ef7c5e..1545660 100644
--- a/DHParser/templates/DSLParser.pyi
+++ b/DHParser/templates/DSLParser.pyi
@@ -118,15 +118,16 @@ def process_file(source: str, out_dir: str = '', target_set: Set[str]=frozenset(
     extension. Returns the name of the error-messages file or an empty
     string, if no errors or warnings occurred.
     """
-    global serializations, targets
+    # the choices made on the command line must be found by other processes, too
     if not target_set:
-        target_set = targets
+        target_set = set(get_config_value('{NAME}_targets', targets))
     elif not target_set <= targets:
         raise AssertionError('Unknown compilation target(s): ' +
                              ', '.join(t for t in target_set - targets))
-    # serializations = get_config_value('{NAME}_serializations', serializations)
     return dsl.process_file(source, out_dir, preprocessing.factory, parsing.factory,
-                            junctions, target_set, serializations, cancel_query)
+                            junctions, target_set,
+                            get_config_value('{NAME}_serializations', serializations),
+                            cancel_query)
 
 
 def process_file_wrapper(args: Tuple[str, str, CancelQuery]) -> str:
@@ -263,6 +264,9 @@ def main(called_from_app=False) -> bool:
                   '\nAvailable targets: ' + ', '.join(test_targets))
             sys.exit(1)
         targets = chosen
+        access_presets()
+        set_preset_value('{NAME}_targets', sorted(targets), allow_new_key=True)
+        finalize_presets()
 
     def echo(message: str):
         if args.verbose:
-- 
2.43.0


From 5d078d0cb62a476bc5458964ddd36153ac3da6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:28 +0000
Subject: [PATCH 088/101] fix: error messages pointed to the root directory
 instead of the current directory

---
 DHParser/error.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/error.py b/DHParser/error.py
index 047b52d..1ba8b33 100644
--- a/DHParser/error.py
+++ b/DHParser/error.py
@@ -530,7 +530,7 @@ def canonical_error_strings(errors: List[Error]) -> List[str]:
         for err in errors:
             source_file_name = err.orig_doc
             if source_file_name and is_filename(source_file_name):
-                cwd = os.getcwd()
+                cwd = os.path.join(os.getcwd(), '')  # with separator at the end
                 if source_file_name.startswith(cwd):
                     rel_path = source_file_name[len(cwd):]
                 else:
-- 
2.43.0


From 40c1e47a8f13b3d982a54a9db8657442d50806f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:11 +0000
Subject: [PATCH 089/101] fix: parser script used an outdated grammar, if
 another process had recompiled it meanwhile

---
 DHParser/templates/DSLParser.pyi | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/DHParser/templates/DSLParser.pyi b/DHParser/templates/DSLParser.pyi
index 1545660..bb7cb93 100644
--- a/DHParser/templates/DSLParser.pyi
+++ b/DHParser/templates/DSLParser.pyi
@@ -168,7 +168,9 @@ def main(called_from_app=False) -> bool:
             with open(error_file, 'r', encoding="utf-8") as f:
                 print(f.read())
             sys.exit(1)
-        elif parser_update:
+        # another process may have recompiled the grammar since this script has been loaded
+        if parser_update or (getattr({NAME}Grammar, 'source_hash__', '')
+                             and dsl.grammar_changed({NAME}Grammar, grammar_path)):
             if '--dontrerun' in sys.argv:
                 print(os.path.basename(__file__) + ' has changed. '
                       'Please run again in order to apply updated compiler')
-- 
2.43.0


From 62130aedbdac76dc18b77e7dfd1014ae3ef45fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:34 +0000
Subject: [PATCH 090/101] fix: compile_src() of parser scripts raised a
 KeyError, if an error kept the target from being reached

---
 DHParser/templates/DSLParser.pyi | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/DHParser/templates/DSLParser.pyi b/DHParser/templates/DSLParser.pyi
index bb7cb93..fd4be54 100644
--- a/DHParser/templates/DSLParser.pyi
+++ b/DHParser/templates/DSLParser.pyi
@@ -92,6 +92,10 @@ def compile_src(source: str,
         empty list of errors.
     """
     full_compilation_result = pipeline(source, target, start_parser, cancel_query=cancel_query)
+    if target not in full_compilation_result:
+        _, errors = list(full_compilation_result.values())[-1]
+        if has_errors(errors, FATAL):  # that's why the target was not reached
+            return None, errors
     return full_compilation_result[target]
 
 
-- 
2.43.0


From 1c4ced61af18dc82b9557046adffeefee955bbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:02 +0000
Subject: [PATCH 091/101] fix: parser scripts dropped error messages if they
 had been restarted after a change of the grammar

---
 DHParser/templates/DSLParser.pyi | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DHParser/templates/DSLParser.pyi b/DHParser/templates/DSLParser.pyi
index fd4be54..4b73369 100644
--- a/DHParser/templates/DSLParser.pyi
+++ b/DHParser/templates/DSLParser.pyi
@@ -184,6 +184,8 @@ def main(called_from_app=False) -> bool:
                 call = [sys.executable, __file__, '--dontrerun'] + sys.argv[1:]
                 result = subprocess.run(call, capture_output=True)
                 print(result.stdout.decode('utf-8'))
+                if result.stderr:
+                    print(result.stderr.decode('utf-8'), file=sys.stderr)
                 sys.exit(result.returncode)
     else:
         print('Could not check whether grammar requires recompiling, '
-- 
2.43.0


From f48c1902e296ebf4fcfe805d495056a3987a595e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:42 +0000
Subject: [PATCH 092/101] fix: batch-processing with a server failed for paths
 with blanks and wrote to the wrong place for relative output directories

---
 DHParser/templates/DSLServer.pyi | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/DHParser/templates/DSLServer.pyi b/DHParser/templates/DSLServer.pyi
index edef39c..48ceb5f 100644
--- a/DHParser/templates/DSLServer.pyi
+++ b/DHParser/templates/DSLServer.pyi
@@ -225,7 +225,8 @@ class DSLLanguageServerProtocol:
 
     def batch_job(self, argstr: str):
         from DSLParser import batch_process
-        args = argstr.split(' ')
+        # file names may contain blanks, but hardly any linefeeds
+        args = argstr.split('\n' if '\n' in argstr else ' ')
         indir, outdir = args[1], args[3]
 
         assert args[0] == '--in'
@@ -675,8 +676,8 @@ def main():
         if not file_name.endswith(')'):
             # argv does not seem to be a command (e.g. "identify()") but a file name or path
             if args.more_files or args.out or os.path.isdir(file_name):
-                outdir = args.out or os.path.abspath('out')
-                file_names = ' '. join(['--in', os.getcwd(), '--out', outdir, file_name]
+                outdir = os.path.abspath(args.out or 'out')  # the server may run in another directory
+                file_names = '\n'.join(['--in', os.getcwd(), '--out', outdir, file_name]
                                        + args.more_files)
                 timeout = 3600 * 24 * 365  # timout in batch mode: one year!
             else:
-- 
2.43.0


From 2688c394a6f3272234c5bd2cf65ad0c54e7387ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:42 +0000
Subject: [PATCH 093/101] fix: a damaged address file could lead to a server
 that was started on a wrong host

---
 DHParser/templates/DSLServer.pyi | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DHParser/templates/DSLServer.pyi b/DHParser/templates/DSLServer.pyi
index 48ceb5f..271e710 100644
--- a/DHParser/templates/DSLServer.pyi
+++ b/DHParser/templates/DSLServer.pyi
@@ -105,8 +105,8 @@ def retrieve_host_and_port():
     cfg_filename = get_config_filename()
     try:
         with open(cfg_filename, 'r', encoding='utf-8') as f:
-            host, ports = f.read().strip(' \n').split(' ')
-            port = int(ports)
+            hoststr, portstr = f.read().strip(' \n').split(' ')
+            host, port = hoststr, int(portstr)
             if (host, port) != (KNOWN_HOST, KNOWN_PORT):
                 verbose('Retrieved host and port value %s:%i from config file "%s".'
                       % (host, port, cfg_filename))
-- 
2.43.0


From ce208686b7fcf1bd55a0985719f724d33e53ecbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:51 +0000
Subject: [PATCH 094/101] fix: generated servers did not recover from the death
 of a worker process

Compilation requests ended with an error and so did all later ones, because
the broken process pool was never replaced.
---
 DHParser/server.py               | 13 +++++++++++--
 DHParser/templates/DSLServer.pyi | 11 ++++++-----
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/DHParser/server.py b/DHParser/server.py
index 59a8067..da60d05 100644
--- a/DHParser/server.py
+++ b/DHParser/server.py
@@ -521,7 +521,10 @@ class ExecutionEnvironment:
                     if self.log_file:
                         write_log(self.log_file, f'WARNING: Broken {broken}PoolExecutor detected. '
                                    f'Starting a new {broken}PoolExecutor', echo=True)
-                    executor = self.replace_executor(executor)
+                    # (the thread pool is not to blame, if a process pool has broken that is
+                    # used by a method in the thread pool)
+                    if isinstance(executor, ThreadPoolExecutor) == (broken == 'Thread'):
+                        executor = self.replace_executor(executor)
                     continue
                 rpc_error = -32050 if broken == 'Process' else -32060, str(e)
             except Exception as e:
@@ -550,7 +553,13 @@ class ExecutionEnvironment:
         # if self.submit_pool is None:
         #     self._submit_pool = ProcessPoolExecutor()
         with self.submit_pool_lock:
-            future = self.submit_pool.submit(func, *args)
+            try:
+                future = self.submit_pool.submit(func, *args)
+            except BrokenProcessPool:
+                # a worker has died: do not use the broken pool forever
+                self._submit_pool.shutdown(wait=False)
+                self._submit_pool = None
+                future = self.submit_pool.submit(func, *args)
         return future
 
     def shutdown(self, wait: bool = True):
diff --git a/DHParser/templates/DSLServer.pyi b/DHParser/templates/DSLServer.pyi
index 271e710..5220c9e 100644
--- a/DHParser/templates/DSLServer.pyi
+++ b/DHParser/templates/DSLServer.pyi
@@ -261,15 +261,16 @@ class DSLLanguageServerProtocol:
     #     return compile_src(argstr)
 
     async def simply_compile(self, argstr: str):
-        from functools import partial
         from DSLParser import compile_src
         exenv = self.connection.exec
+        # other than loop.run_in_executor(), execute() survives the death of a worker process
         if argstr[:2] != '--':
-            return await exenv.loop.run_in_executor(
-                exenv.process_executor, partial(compile_src, argstr))
+            result, error = await exenv.execute(exenv.process_executor, compile_src, (argstr,))
         else:
-            return await exenv.loop.run_in_executor(
-                exenv.thread_executor, partial(self.batch_job, argstr))
+            result, error = await exenv.execute(exenv.thread_executor, self.batch_job, (argstr,))
+        if error is not None:
+            raise RuntimeError(error[1])
+        return result
 
 
 def run_server(host, port, log_path=None):
-- 
2.43.0


From e6c2fbe51063cb3685a5e9e211b930e571518f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:36 +0000
Subject: [PATCH 095/101] fix: commands of server scripts ended with success
 although the server had failed

---
 DHParser/templates/DSLServer.pyi | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DHParser/templates/DSLServer.pyi b/DHParser/templates/DSLServer.pyi
index 5220c9e..41d3610 100644
--- a/DHParser/templates/DSLServer.pyi
+++ b/DHParser/templates/DSLServer.pyi
@@ -689,6 +689,8 @@ def main():
         requests = [log_request, file_names] if log_request else [file_names]
         result = asyncio_run(start_server_daemon(host, port, requests, timeout))[-1]
         echo(result)
+        if result.startswith('Server Error'):
+            sys.exit(1)
 
     elif args.logging or args.logging is None:
         log_path, request = parse_logging_args(args, host, port)
-- 
2.43.0


From 30be985ac102d31c9fb1468d6377fa0dc4d5fd52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:12 +0000
Subject: [PATCH 096/101] fix: XMLreflow overwrote the documents of a directory
 instead of writing to the output-directory

---
 DHParser/scripts/XMLreflow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/scripts/XMLreflow.py b/DHParser/scripts/XMLreflow.py
index 7c7db91..8a81629 100755
--- a/DHParser/scripts/XMLreflow.py
+++ b/DHParser/scripts/XMLreflow.py
@@ -135,7 +135,7 @@ def main():
                     if (lfn[-4:] in ('.xml', '.htm')
                             or lfn[-5:] in ('.sxml', '.sxpr', '.html')):
                         name = os.path.join(root, file)
-                        outfile = os.path.join(outdir, name)
+                        outfile = os.path.join(outdir, file)
                         process_file(name, tags, column, outfile, verbose)
         else:
             extension = os.path.splitext(name)[1].lower()
-- 
2.43.0


From 76325b249c8504ca885682104d5f4c91d0cd08b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:12 +0000
Subject: [PATCH 097/101] fix: XMLreflow could leave truncated documents if it
 failed or was interrupted while writing

---
 DHParser/scripts/XMLreflow.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/DHParser/scripts/XMLreflow.py b/DHParser/scripts/XMLreflow.py
index 8a81629..6a082d3 100755
--- a/DHParser/scripts/XMLreflow.py
+++ b/DHParser/scripts/XMLreflow.py
@@ -30,7 +30,7 @@ if dhparserdir not in sys.path:
 
 from DHParser.nodetree import parse_sxpr, RootNode
 from DHParser.parsers import parse_XML, parse_HTML
-from DHParser.toolkit import AbstractSet
+from DHParser.toolkit import AbstractSet, write_atomically
 
 
 def process_file(filename: str, tags: AbstractSet, column: int,
@@ -71,8 +71,8 @@ def process_file(filename: str, tags: AbstractSet, column: int,
                            reflow_col=column)
     if output is None:
         output = rump + '_reflow' + ext
-    with open(output, 'w', encoding='utf-8') as f:
-        f.write(xml)
+    # the output may be the document itself
+    write_atomically(output, xml)
     if verbose:
         print(f"Output written to: {output}")
 
-- 
2.43.0


From 81a5bf20cf6622b848bd6bf3c91e2891859bcf56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:08 +0000
Subject: [PATCH 098/101] fix: XMLreflow processed its own output, when it was
 run on the same directory again

---
 DHParser/scripts/XMLreflow.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/DHParser/scripts/XMLreflow.py b/DHParser/scripts/XMLreflow.py
index 6a082d3..9032f22 100755
--- a/DHParser/scripts/XMLreflow.py
+++ b/DHParser/scripts/XMLreflow.py
@@ -120,6 +120,7 @@ def main():
     for name in filenames:
         if os.path.isdir(name):
             for root, dirs, files in os.walk(name):
+                if 'XMLreflow' in dirs:  dirs.remove('XMLreflow')  # output of an earlier run
                 outdir = os.path.join(root, 'XMLreflow')
                 if not os.path.exists(outdir):
                     if not os.access(root, os.W_OK):
-- 
2.43.0


From 0d8d90bc74472f6f2494894fd00c0c9b1e903ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:40 +0000
Subject: [PATCH 099/101] fix: DSLApp.pyi: no second compilation while one is
 running, declined cancellation really continues

---
 DHParser/templates/DSLApp.pyi | 51 ++++++++++++++++++++---------------
 1 file changed, 30 insertions(+), 21 deletions(-)

diff --git a/DHParser/templates/DSLApp.pyi b/DHParser/templates/DSLApp.pyi
index f63852f..d11972b 100644
--- a/DHParser/templates/DSLApp.pyi
+++ b/DHParser/templates/DSLApp.pyi
@@ -182,6 +182,7 @@ class DSLApp(tk.Tk):
         # multitasking infrastructure
         self.lock = threading.Lock()
         self.worker = None
+        self.compiled_source = None
         self.compilation_units = 0
         self.mc_manager = MultiCoreManager()
         # self.mc_manager.start()
@@ -353,7 +354,8 @@ class DSLApp(tk.Tk):
 
     def poll_worker(self):
         self.update_idletasks()
-        if self.worker and self.worker.is_alive():
+        if not self.worker:  return  # its end has already been noticed
+        if self.worker.is_alive():
             if self.cancel['state'] != tk.NORMAL \
                     and not self.cancel_event.is_set():
                 self.cancel['state'] = tk.NORMAL
@@ -374,6 +376,8 @@ class DSLApp(tk.Tk):
             self.worker = None
             self.compilation_units = 0
             self.compilation_target = ""
+            if self.source.get("1.0", tk.END) != self.compiled_source:
+                self.adjust_button_status()  # source has been changed in the meantime
             self.after(500, self.hide_progressbar)
 
     def on_pick_source(self):
@@ -410,7 +414,8 @@ class DSLApp(tk.Tk):
                         self.message['style'] = "Red.TLabel"
                         self.after(3500, self.clear_message)
                 else:
-                    self.cancel_event.clear()
+                    self.cancel_event = self.mc_manager.Event()
+                    self.compiled_source = None
                     self.num_sources = len(self.names)
                     self.num_compiled = 0
                     self.source_name = ''
@@ -525,7 +530,7 @@ class DSLApp(tk.Tk):
         typ = 'error' if error.code >= ERROR else 'warning'
         self.source.tag_add(typ, f'{line}.{col}', f'{line}.{col + 1}')
 
-    def compile_single_unit(self, source, target, parser):
+    def compile_single_unit(self, source, target, parser, cancel_query):
         if target == ALL_TARGETS_SPECIAL:
             path = DSLParser.junctions
         else:
@@ -537,14 +542,16 @@ class DSLApp(tk.Tk):
             target_set.add(target)
         try:
             results = DSLParser.pipeline(
-                source, target_set, parser, cancel_query=self.cancel_event.is_set)
-            if not self.cancel_event.is_set():
+                source, target_set, parser, cancel_query=cancel_query)
+            if not cancel_query():
                 self.all_results = results
         except AttributeError as e:
             tk.messagebox.showerror("Compilation Error", str(e))
 
     def on_compile(self):
+        if self.worker:  return  # another compilation is still under way
         source = self.source.get("1.0", tk.END)
+        self.compiled_source = source
         if source.find('\n') < 0:
             if re.fullmatch(r'\s*', source):  return
             source += '\n'
@@ -554,10 +561,10 @@ class DSLApp(tk.Tk):
         self.compilation_units = 1
         # self.all_results = DSLParser.pipeline(source, self.compilation_target, parser)
         # self.finish_single_unit()
-        self.cancel_event.clear()
+        self.cancel_event = self.mc_manager.Event()
         self.worker = threading.Thread(
             target = self.compile_single_unit,
-            args = (source, self.compilation_target, parser),
+            args = (source, self.compilation_target, parser, self.cancel_event.is_set),
         )
         self.worker.start()
         self.progressbar['mode'] = 'indeterminate'
@@ -884,28 +891,30 @@ class DSLApp(tk.Tk):
         self.after(3500, self.clear_message)
 
     def on_cancel(self) -> bool:
+        """-> False, if the user wants the running process to continue"""
         if self.worker:
-            if tk.messagebox.askyesno(
+            if not tk.messagebox.askyesno(
                 title="Cancel?",
                 message="A parsing/compilation-process is still under way!\n"
                         "Cancel running process?"):
-                self.update()
-                self.update_idletasks()
-                if self.worker:
-                    self.cancel_event.set()
-                    self.errors.insert(tk.END, "Canceling reaming tasks...\n")
-                    self.update()
+                return False
+            self.update()
+            self.update_idletasks()
+            worker = self.worker
+            if worker:
+                self.cancel_event.set()
+                self.errors.insert(tk.END, "Canceling reaming tasks...\n")
+                for _ in range(50):
+                    self.update()  # the worker might wait for the main-loop
                     self.update_idletasks()
-                    self.worker.join(5.0)
-                    if not self.worker.is_alive():
+                    worker.join(0.1)
+                    if not worker.is_alive():
                         self.message['text'] = "Parsing/Compilation canceled"
                         self.message['style'] = "Red.TLabel"
                         self.after(2500, self.clear_message)
-                    self.errors.yview_moveto(1.0)
-                    self.adjust_button_status()
-                    return True
-                else:
-                    return False
+                        break
+                self.errors.yview_moveto(1.0)
+                self.adjust_button_status()
         return True
 
     def open_link(self, url):
-- 
2.43.0


From de7d01a6eb51303b616af251f3ac0b880cfc7071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:06 +0000
Subject: [PATCH 100/101] fix: DSLApp.pyi: saved files are never left
 incomplete, unreadable test-files are reported

---
 DHParser/templates/DSLApp.pyi | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/DHParser/templates/DSLApp.pyi b/DHParser/templates/DSLApp.pyi
index d11972b..828635d 100644
--- a/DHParser/templates/DSLApp.pyi
+++ b/DHParser/templates/DSLApp.pyi
@@ -4,6 +4,7 @@
 
 import sys
 from functools import partial
+import io
 import os
 import re
 import threading
@@ -35,7 +36,7 @@ from DHParser.nodetree import Node, EMPTY_NODE
 from DHParser.pipeline import PipelineResult, connection, as_graph, pp_paths, \
     PIPE_CHARS
 from DHParser.testing import merge_test_units
-from DHParser.toolkit import MultiCoreManager
+from DHParser.toolkit import MultiCoreManager, write_atomically
 
 import DSLParser
 
@@ -727,8 +728,7 @@ class DSLApp(tk.Tk):
         if source_name:
             source = self.source.get("1.0", tk.END)
             try:
-                with open(source_name, 'w', encoding='utf-8') as file:
-                    file.write(source)
+                write_atomically(source_name, source)
                 self.message['text'] =  f'"{source_name}" written to disk.'
                 self.message['style'] = "Green.TLabel"
                 self.after(3500, self.clear_message)
@@ -752,8 +752,7 @@ class DSLApp(tk.Tk):
         if filename:
             result = self.result.get("1.0", tk.END)
             try:
-                with open(filename, 'w', encoding='utf-8') as file:
-                    file.write(result)
+                write_atomically(filename, result)
                 self.message['text'] =  f'"{filename}" written to disk.'
                 self.message['style'] = "Green.TLabel"
                 self.after(3500, self.clear_message)
@@ -769,6 +768,7 @@ class DSLApp(tk.Tk):
                             and not fname.lower().find('test_') >= 0 \
             else 'test'
         failure = not bool(path)
+        fdata = ''
         config = configparser.ConfigParser()
         config.optionxform = lambda optionstr: optionstr
         if os.path.exists(path):
@@ -792,9 +792,8 @@ class DSLApp(tk.Tk):
                     "File-format Error",
                     f"Error in file {fname}+\n\n" + str(e))
                 failure = True
-        else:
-            fdata = ''
-            if ftype == 'test':  ftype = 'empty'
+        elif ftype == 'test':
+            ftype = 'empty'
         return (config, fname, fpath, ftype, fdata, failure)
 
     def write_or_update_config_file(self, path, config) -> bool:
@@ -808,8 +807,9 @@ class DSLApp(tk.Tk):
         cfg = {k[i:]: str(v) for k, v in cfg.items()}
         config['DSL'].update(cfg)
         try:
-            with open(path, 'w', encoding='utf-8') as f:
+            with io.StringIO() as f:
                 config.write(f)
+                write_atomically(path, f.getvalue())
             if empty:
                 self.message['text'] = f'Configuration written to "{fname}".'
             else:
@@ -874,12 +874,8 @@ class DSLApp(tk.Tk):
             cfg_data = dump_config_data('DSL.*', use_headings=False)
             suite = merge_test_units(suite, unit)
             try:
-                with open(path, 'w', encoding='utf-8') as f:
-                    if cfg_data:
-                        f.write('[config]\n')
-                        f.write(cfg_data)
-                        f.write('\n')
-                    f.write(unit_to_config(suite))
+                config_section = f'[config]\n{cfg_data}\n' if cfg_data else ''
+                write_atomically(path, config_section + unit_to_config(suite))
                 if ftype == "empty":
                     self.message['text'] = f'Test-file "{fname}" written to disk.'
                 elif ftype == "test":
-- 
2.43.0


From eb1c1a0bdc96954104e9ff434c09b5ce1c775a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:44 +0000
Subject: [PATCH 101/101] fix: exported test-cases: source and results belong
 together, also after merging

---
 DHParser/templates/DSLApp.pyi |  4 +++-
 DHParser/testing.py           | 13 ++++++++-----
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/DHParser/templates/DSLApp.pyi b/DHParser/templates/DSLApp.pyi
index 828635d..63937ce 100644
--- a/DHParser/templates/DSLApp.pyi
+++ b/DHParser/templates/DSLApp.pyi
@@ -184,6 +184,7 @@ class DSLApp(tk.Tk):
         self.lock = threading.Lock()
         self.worker = None
         self.compiled_source = None
+        self.results_of = None
         self.compilation_units = 0
         self.mc_manager = MultiCoreManager()
         # self.mc_manager.start()
@@ -546,6 +547,7 @@ class DSLApp(tk.Tk):
                 source, target_set, parser, cancel_query=cancel_query)
             if not cancel_query():
                 self.all_results = results
+                self.results_of = (source, parser)
         except AttributeError as e:
             tk.messagebox.showerror("Compilation Error", str(e))
 
@@ -863,7 +865,7 @@ class DSLApp(tk.Tk):
                 error_level = 0
             cases = { 'M1': source.replace('\t', '    ') }
             tests = { 'match': cases }
-            if error_level < ERROR:
+            if error_level < ERROR and self.results_of == (source, parser):
                 for stage, result in self.all_results.items():
                     if stage.upper() == 'CST':  continue
                     cases = { 'M1': result[0].serialize()
diff --git a/DHParser/testing.py b/DHParser/testing.py
index a81083a..5408e5a 100644
--- a/DHParser/testing.py
+++ b/DHParser/testing.py
@@ -315,12 +315,15 @@ def merge_test_units(*test_units) -> Dict:
                 if typ not in merged[symbol]:
                     merged[symbol][typ] = OrderedDict()
                 for name, case in cases.items():
-                    if any(c == case for c in merged[symbol][typ].values()):
-                        continue
                     names = str(name).strip('*')
                     orig = names
-                    if names in name_subst[symbol]:
-                        names = name_subst[symbol][names]
+                    same = [n for n, c in merged[symbol][typ].items() if c == case]
+                    if same:
+                        if typ.lower() == 'match':
+                            name_subst[symbol][orig] = str(same[0]).strip('*')
+                        continue
+                    if name_subst[symbol].get(names, names) not in merged[symbol][typ]:
+                        names = name_subst[symbol].get(names, names)
                     elif names in merged[symbol][typ]:
                         m = re.match(r'\d+', names[::-1])
                         if m:
@@ -332,7 +335,7 @@ def merge_test_units(*test_units) -> Dict:
                             nr += 1
                         names = names + str(nr)
                         if typ.lower() == 'match':
-                            name_subst[orig] = names
+                            name_subst[symbol][orig] = names
                     merged[symbol][typ][names] = case
     return merged
 
-- 
2.43.0

