"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "mechanism": [{"name": n, "where": w} for n, w in mechanism],
            "observe_at": list(observe), "hook_needed": hook,
        }})


CC = "citrine/connection/container_connection.py"
CT = "citrine/storage/container.py"
GR = "citrine/storage/group.py"
CO = "citrine/storage/collection.py"
TX = "citrine/storage/transaction.py"
DB = "citrine/database/containerdb.py"

prop("C01", "Acknowledged writes survive any crash",
     "Once a create, update or delete outside a transaction block returns normally, or a transaction block exits normally, its effect is still there after a crash or power loss at any later instant and a reopening of the database. A database that was opened once can always be opened again after a crash, and then holds exactly the acknowledged history plus, for the operation in flight, either all of it or nothing.",
     ["crash_points", "histories", "fault_sequences", "configurations"],
     "every sequence of operations, every instant of a crash (between any two writes, fsyncs or renames, with any subset of the un-synced bytes surviving, whole or torn), any number of crash and restart cycles, every container layout and cache size, with disk errors before the crash",
     "The existing tests use mocks or a fresh in-process database; none crashes, tears a write, drops the page cache or reopens a file after an interrupted commit.",
     [CC, TX, DB, CT],
     [("autocommit wrapper commits before returning", TX + " autocommit"), ("block commits on exit", TX + " __exit__"), ("ContainerDb over FileStorage", DB)],
     [("FileStorage data file", "the only durable state", "the simulated disk")],
     ["return of create/update/delete", "exit of `with conn`", "reads through a fresh ContainerDb after restart"])

prop("C02", "Transaction blocks are all-or-nothing",
     "The operations inside a transaction block (`with conn`) become visible to every other connection and to the durable state all together at its successful exit, or not at all: not while the block is running, not if its body raises, not if its commit fails, and not after a crash. A body exception or a commit failure is reported to the caller, never swallowed, and afterwards the same connection sees none of the block's effects. (Only when the disk fails in the very last step of a commit, while the finished commit is being sealed, may the block - whole - turn out to be there after a restart.)",
     ["crash_points", "schedules", "fault_sequences", "histories"],
     "every block of creates, updates, deletes, reads and in-place changes of stored objects, ended by normal exit, an exception at any position, a conflict with another client, a disk error or full disk at any I/O of the commit, or a crash at any instant; observed by readers at every interleaving point and after restart",
     "Unit tests call __enter__/__exit__ on mocks; they cannot place an exception, a conflict, a disk error or a crash at every position of the commit, nor a reader at every interleaving point.",
     [TX, CC],
     [("abort on exception", TX + " __exit__"), ("autocommit off inside a block", TX + " __enter__"), ("connection delegates its block to the transaction manager", CC + " __enter__/__exit__")],
     [], ["reads by other connections during the block", "reads by the same connection afterwards", "reads after restart"])

prop("C03", "The store behaves as a map over every history",
     "Through any history of operations, reopenings, pauses, cache evictions, packs, resizes and condenses, a connection behaves as a map from ids to values: read returns the last value written (any storable value, including empty and falsy ones) or the given default, create refuses an id that exists and changes nothing, update stores the value and returns the previous one, delete removes the id everywhere and deleting an absent id changes nothing, and indexing with one or several ids agrees with read or raises KeyError when nothing is there.",
     ["histories", "inputs", "configurations"],
     "every history over any ids and storable values, on containers of any number and layout of groups and collections, with the database closed, reopened, packed, evicted from cache or left idle at any point and with ids spread over primary and secondary groups",
     "The tests check single calls against mocked groups with truthy values; they do not follow an id through a sequence of writes, resizes, deletions and reopenings.",
     [CC, CT, GR, CO],
     [("ordered group lookup", CT + " read/has/delete"), ("insert-or-update", CT + " write"), ("existence check", CC + " create")],
     [], ["return values and exceptions of create/read/update/delete/[]"])

prop("C04", "Concurrent clients are isolated and never lose updates",
     "For any number of threads working on the same database through their own connections, every acknowledged operation or block takes effect at one instant, consistent with each client's own order, and works on a snapshot of the committed state plus its own writes; it is acknowledged only if the ids it writes still hold, at that instant, what its snapshot showed, and is otherwise refused with a conflict error and has no effect. So at most one of several competing creates of an id succeeds, no read-modify-write block overwrites a change it has not seen, and an acknowledged write is lost only to a later one. Readers never see uncommitted data, an operation outside a block sees everything its client learned before, and all reads inside one block come from one snapshot plus the block's own writes.",
     ["schedules", "histories", "configurations"],
     "every interleaving of several client threads, at the granularity of source lines, lock operations and disk I/O, over creates, updates, deletes, reads, read-modify-write blocks and connection opening and closing, in every container layout, for connections opened directly or through `with db`",
     "No existing test runs two clients at once.",
     [CC, TX, DB, CT, CO],
     [("per-connection transaction manager", DB + " open"), ("thread-local manager", TX + " ThreadTransactionManager"), ("BTree conflict detection", CO)],
     [], ["invocation and response of every client operation", "final contents"])

prop("C05", "Resizing and condensing never lose or hide an object",
     "Before, during and after a resize or condense, whether it finishes, fails part-way or is cut off by a crash at any point, and with or without a transaction manager, every stored id remains readable with its current value by every connection, and no id appears that was not stored. A completed resize gives the container the requested capacity with the strictness it had before, keeps secondary groups it was not asked to condense, and a completed condense with transfer leaves a single group and hands back the emptied ones.",
     ["crash_points", "schedules", "fault_sequences", "configurations", "histories"],
     "every old and new size, group layout, strictness and flag combination (condense, transfer, transaction manager or not), every crash point and disk error inside the operation, every interleaving with reader threads, ids duplicated across groups, a strict primary too small for the content, and repeated or interrupted-and-retried resizes",
     "The tests run resize to completion on in-memory containers with a mock transaction manager; no crash, failure, reader or overflow happens in the middle.",
     [CT, GR, CO],
     [("new primary in front, old groups kept readable", CT + " resize"), ("insert-and-pop transfer", CT + " condense"), ("per-step commits", CT + " condense")],
     [("groups tuple", "read order of the groups", CT)],
     ["read of every id by other connections at every step", "reads after restart", "container.groups/capacity/strict"])

prop("C06", "Writes racing a resize or condense are never lost",
     "While one client resizes or condenses the container, creates, updates and deletes that other clients have had acknowledged before, during or after it are all reflected in what is read once it ends, with no stale value and no deleted id coming back. The resize may fail with a conflict and be retried, and so may a writer, but neither may undo the other's acknowledged work.",
     ["schedules", "histories", "configurations"],
     "every interleaving of one or more writer threads with a resize or condense in its transactional and non-transactional forms, with writers before, inside and after each of its steps, including writers whose snapshot predates it",
     "No test writes while a resize is in progress.",
     [CT, CC, GR, CO],
     [("groups retained until emptied", CT + " condense"), ("conflict detection on moved keys", CO)],
     [], ["acknowledgements of writers", "reads after everything finished"])

prop("C07", "A failed operation leaves the connection usable and clean",
     "After any operation or block on a connection fails (refused create, write conflict, disk error, full disk, exception in the block, unstorable object, or a capacity error), the connection has no leftover effect of it, is again in automatic-commit mode, and its next operations work and are committed durably as if the failed one had never been issued. Once faults stop, every client that retries succeeds within a bounded number of attempts.",
     ["fault_sequences", "histories", "schedules"],
     "every kind of failure at every point of an operation or its commit, followed by any further operations on the same connection, in the same or another thread, and a restart",
     "The tests do not make a commit fail, and never use a connection after a failure.",
     [TX, CC],
     [("autocommit flag restored at exit", TX + " __exit__"), ("abort on failure", TX + " __exit__"), ("connection __exit__", CC)],
     [("autocommit flag", "whether an operation commits by itself", TX)],
     ["results of operations after the failure", "reads by other connections", "reads after restart"])

prop("C08", "A strict container never exceeds its capacity",
     "In a strict database no committed state, under any interleaving of clients and after any resize, crash or reopening, has a collection holding more objects than its maximum size, while a write that needs a new slot where none is left raises a capacity error and changes nothing. Strictness asked for at creation or set later stays in force until it is turned off, and updating an id that is already stored succeeds even when the container is full.",
     ["schedules", "histories", "crash_points", "configurations"],
     "every strict layout and capacity, clients racing for the last free slots, single operations and blocks, resizes to larger and smaller sizes, toggling of strictness, reopenings and crashes",
     "The tests fill one collection from one thread; the limit check and the insert are separate steps that only concurrent commits can drive apart.",
     [CO, GR, CT, DB],
     [("size check before insert", CO + " insert/update"), ("group check", GR + " insert/update"), ("strict flag", CT + " strict")],
     [], ["CollectionCapacityError/GroupCapacityError", "collection sizes in committed states"])

prop("C09", "Temporary connections are private and always given back",
     "Each `with db as conn` scope gets its own connection, usable throughout the scope whatever other threads or nested scopes on the same database do, and closes exactly that connection when the scope ends, normally or by an exception. No interleaving of scopes leaves a connection open, closes one still in use, or hands one thread's connection to another while it is in use, and the body's exception reaches the caller.",
     ["schedules", "histories", "fault_sequences"],
     "every interleaving and nesting of scopes on one database object in one or several threads, with exceptions, conflicts and disk errors inside the scopes",
     "The tests open one scope at a time against a mocked connection.",
     [DB], [("__enter__/__exit__ of the database", DB)],
     [("connection pool", "open and available connections", "ZODB.DB")],
     ["pool counts after all scopes ended", "operations inside the scopes"])

prop("C10", "Reported sizes and listings match the stored content",
     "In every committed state, and within every connection's own snapshot, the reported sizes, usage, capacity, health status and key, value and item listings of the container, its groups and its collections equal what enumerating the stored objects gives: each stored id is listed exactly once per group that holds it, in the collection its id selects, and is found by lookup. Failed, aborted and conflicting operations and crashes never make them drift.",
     ["histories", "schedules", "crash_points", "fault_sequences"],
     "every history of operations by several clients, resizes, aborts, conflicts, disk errors, crashes and reopenings, on every layout",
     "The tests count items once after a handful of inserts into a fresh group.",
     [CT, GR, CO, CC],
     [("sizes derived from the trees", CO + " CollectionMeta"), ("sums over collections", GR + " GroupMeta"), ("views", GR + " GroupKeys")],
     [], ["container.size/used/usage/max_size/capacity/status", "group keys()/values()/items()"])

prop("C11", "Creating and opening a database is crash-safe",
     "A database whose creation was cut off by a crash or disk error at any point can afterwards be created again at the same place without manual cleaning, and one whose creation returned is complete: it opens, is empty, and has the capacity and strictness that were asked for. Opening an existing database, in any way and any number of times, never changes or discards its contents, one opened read-only refuses writes and, with `stop`, shows the contents as of that transaction, and opening a file that holds no container fails with a clear error instead of altering it.",
     ["crash_points", "fault_sequences", "histories", "configurations"],
     "every crash point and disk error during create, new, load and open, every capacity and strictness, and every sequence of creating, opening, closing and reopening",
     "The tests create one database with mocks or in a fresh directory and never interrupt or repeat it.",
     [DB, CC, CT], [("container stored in its own transaction", DB + " create"), ("container check on open", CC + " __init__"), ("fallback creation", DB + " __init__")],
     [], ["ContainerDb.create/new/load", "reads after restart"])

prop("C12", "Point-in-time connections show exactly that moment",
     "A connection opened at or before a given transaction or time shows exactly the contents committed by then, unchanged by anything committed later, for as long as it is open, across resizes by other clients, clock jumps and restarts. Writing through it fails and changes nothing.",
     ["histories", "schedules", "configurations"],
     "every history of commits with clock steps forwards and backwards, every moment in it, connections opened before and after later writes and resizes, held open across them, in several threads and after restarts",
     "No test opens a historical connection on a real database.",
     [DB, CC], [("at/before passed to the storage snapshot", DB + " open"), ("historical connection", CC + " __init__")],
     [], ["db.open(at=...)/db.open(before=...) reads and writes"])

prop("C13", "Reused connections carry nothing over",
     "A connection given back and handed out again, to the same or another thread, shows the newest committed state, is in automatic-commit mode and behaves like a fresh one: no uncommitted change, stale cached object, open transaction, changed setting or foreign transaction of its previous user is visible, committed or blocking. Two connections never share a transaction unless the caller gave both the same manager, and then both commit or abort together.",
     ["schedules", "histories", "fault_sequences"],
     "every sequence of opening, using, aborting and closing connections by several threads, with pools smaller than the number of clients, failed operations before the close, and shared explicit transaction managers",
     "The tests never reopen a pooled connection.",
     [DB, CC, TX], [("manager chosen at open", DB + " open"), ("transaction manager", TX)],
     [], ["operations on the reopened connection", "reads by third connections"])

prop("C14", "Remote clients share one consistent store",
     "Clients connected to one storage server with ContainerClient behave as clients of one local database: an operation that returned is durable on the server, blocks are all-or-nothing, competing stores of an id have one winner, and every transaction sees one committed state. That state holds at least the client's own commits and everything committed before it connected or reconnected last; with server_sync it holds everything committed before the transaction began, and without it every client catches up within bounded time. Lost connections, delayed or lost requests and replies, and server crashes make operations fail with an error; they never silently lose an acknowledged write, apply one twice, or leave the client serving stale data after it has reconnected or unable to go on once the network is well. Connecting to an empty server sets up one empty container with the strictness asked for, also when several clients connect at once, leaves an existing container as it is, and when it fails it leaves nothing behind that keeps the client from connecting again. A read-only client never changes anything.",
     ["schedules", "fault_sequences", "crash_points", "histories"],
     "every interleaving of several clients over a simulated network with delays, stalls, cuts before and after a request or its reply is delivered, partitions and heals, kills and power losses of the server, kills of clients, cache verification from memory or from a cache file, from an empty or a filled server",
     "There is no test of the client at all; it needs a server, a network and faults.",
     ["citrine/client/container_client.py", CC, DB],
     [("ContainerClient.connect", "citrine/client/container_client.py"), ("ZEO ClientStorage and its cache", "ZEO")],
     [], ["client operations", "server contents read directly"])

prop("C15", "Group reads answer completely or fail",
     "Reading an id through a group of databases returns the stored value when one database has it (falsy values included), None when none has, all of them keyed by connection when several are asked for, and raises the duplicate-id error when several hold it and one value was asked for. A failing database makes the read raise rather than answer from the others. A read with a timeout returns a result only within its timeout and otherwise raises the timeout error, for any timeout from zero or fractions of a second to days; databases are read by blocking calls, so the answer comes as soon as the calls in progress return. Connections are opened with the arguments given for their database, and in every case the group stays usable for the next read.",
     ["schedules", "fault_sequences", "histories", "configurations"],
     "every number of databases and distribution of ids, every order in which the tasks run, disk errors in any of them, any timeout including sub-second ones, stalls shorter and longer than it, and repeated reads while other clients write",
     "There is no test for group reads; task order, stalls and failures cannot be produced by a unit test.",
     ["citrine/connection/group_connection.py"], [("task group over all connections", "citrine/connection/group_connection.py")],
     [], ["GroupReadConnection.read"])

prop("C16", "The classic connection is a durable transactional map",
     "CitrineConnection (databases whose root holds the classic container) keeps the same promises: single operations are committed when they return (unless automatic transactions are turned off, which leaves committing to the caller), blocks are all-or-nothing, failures are reported, leave no effect and leave the connection usable, and setup can be cut off and repeated without losing data. Expanding the number of sub-containers, at any point of any history and under any crash, keeps every stored id readable and deletable with its value; inside a block, expansion and setup are part of the block.",
     ["crash_points", "histories", "schedules", "fault_sequences"],
     "every history of operations, blocks, expansions and setups by one or more clients, with crashes and disk errors at any point",
     "The classic modules have no tests.",
     ["citrine/connection/connection.py", "citrine/persistence.py", "citrine/cluster_tools/clusterdb/container.py"],
     [("autocommit wrapper", "citrine/persistence.py"), ("hash-located sub-containers", "citrine/persistence.py DbContainer")],
     [], ["CitrineConnection create/read/update/delete/expand_containers/setup"])

prop("C17", "Database modules appear and disappear cleanly",
     "A database module whose creation returned is complete and importable, and one whose creation was interrupted never passes for a complete module nor blocks creating it again with overwrite; creating without overwrite never touches an existing one. Deleting a module removes its own files and nothing else, whatever lies beside or inside its directory, and can be repeated after an interruption until it is gone. A group of modules holds exactly those it found or created and has not destroyed, and what it replaced or destroyed writes nothing any more.",
     ["crash_points", "fault_sequences", "histories", "configurations"],
     "every sequence of create, overwrite, find and delete over directories with neighbours of similar names and foreign files, with a crash or error at any file-system call",
     "The module tools have no tests, and an interruption between two file-system calls cannot be placed by one.",
     ["citrine/cluster_tools/dbmodule/dbmodule.py", "citrine/cluster_tools/dbmodule/consts.py", "citrine/cluster_tools/dbmodule/dbgroup.py"],
     [("create_dbmodule/delete_dbmodule/find_dbmodules", "citrine/cluster_tools/dbmodule/dbmodule.py")],
     [], ["directory contents", "find_dbmodules/is_path_dbmodule"])

prop("N01", "A link that cannot be followed degrades, and follows later",
     "Reading a property that expands links returns the remote object when the remote answers with a usable document, and otherwise (connection failure, error status, malformed, empty or foreign content) the link itself with its href unchanged: it never raises, never returns a half-built object, and always comes back within a bounded time when the remote stops answering at any point (the bound is per request made; a remote that keeps sending is not cut off). A failure is not remembered: once the remote works, the next read returns the remote object. Going over a collection yields each of its items in turn, and nothing for an empty one.",
     ["fault_sequences", "histories", "schedules", "inputs"],
     "every property that expands links, every sequence of network outcomes (refused, reset, stalled, slow, truncated, error status with or without a JSON body, redirect, wrong type, valid), and repeated reads across them by several threads",
     "activitystreams has no tests, and network behaviour over time cannot be sampled by a unit test.",
     ["activitystreams/models.py", "activitystreams/properties.py", "jsonld/utils.py"],
     [("Link.expand", "activitystreams/models.py"), ("jsonld_get", "jsonld/utils.py")],
     [], ["value of expanding properties", "requests on the simulated network", "simulated time"])

prop("N02", "The context cache only ever holds good documents",
     "The caching document loader answers a URL from its cache only with the document the remote successfully served for that URL: a failed, error-status or unparseable response is reported as a JSON-LD load error and never remembered, so the next request tries again and succeeds when the remote has recovered. A URL that was loaded is not requested again, URLs never get each other's documents, insecure or malformed URLs are refused without any request when security is required and no document is then accepted over a redirect through an insecure connection, and every load ends within a bounded time when the remote stops answering.",
     ["fault_sequences", "histories", "schedules", "inputs"],
     "every sequence of loads of any URLs, interleaved over several threads, with every network outcome for each request, and outages of any length",
     "docloader has no tests; caching of failures shows only over a history of requests and outages.",
     ["jsonld/docloader.py"], [("RequestsJsonLoader.get", "jsonld/docloader.py"), ("class-level cache", "jsonld/docloader.py CachedRequestsJsonLoader")],
     [("cached_schemas", "documents by URL", "jsonld/docloader.py")],
     ["loader results and errors", "requests on the simulated network"])

prop("N03", "Serialising an object never uses the network",
     "Turning an object built by the engine into data or JSON makes no network request and gives the same result whatever the network does, whether or not its links were expanded before, and however many times or threads do it. It leaves the object as it was: links still expand afterwards, also when serialisation or another property access failed in between.",
     ["fault_sequences", "histories", "schedules", "inputs"],
     "every object of the vocabulary with any nesting of objects and links, any interleaving of property reads, serialisations and failures, in one or several threads, with the network up, failing or stalled",
     "Only a simulated network can show that no request is made, and only histories show that the mode switch never sticks.",
     ["jsonld/jsonld.py", "jsonld/base.py", "activitystreams/properties.py"],
     [("output context switch", "jsonld/base.py JsonContextAwareManager"), ("contextual getters", "jsonld/base.py ContextualProperty")],
     [], ["data()/json() results", "requests on the simulated network"])

prop("N04", "Reading JSON-LD under network faults is correct or fails",
     "Building objects from a JSON-LD document while context documents are fetched over a faulty network either raises an error or yields exactly the object the fault-free network gives: never a wrong type, a dropped or changed property, or a partly built object. An error leaves nothing behind: the same input succeeds on the same engine once the network works, and the caller's input is never modified.",
     ["fault_sequences", "histories", "schedules", "inputs"],
     "every document of the vocabulary, every outcome of every request its processing makes, outages at any point of it, and retries afterwards, on engines shared between threads",
     "The engine has no tests; faults inside context loading and their after-effects need a controlled network.",
     ["jsonld/engine/json_input.py", "jsonld/engine/jsonld_engine.py", "jsonld/docloader.py", "activitystreams/package.py"],
     [("from_json", "jsonld/engine/json_input.py"), ("document loader", "jsonld/docloader.py")],
     [], ["engine.from_json/engine[...] results and errors"])

prop("N05", "One engine serves many threads at once",
     "Any number of threads may use one engine and the objects it made at the same time, building objects, reading properties and serialising, and each gets exactly the result it would get alone: no interleaving mixes documents, classes, links or output modes between threads, and none of them fails because of another. Objects made outside the engine (plain Links) that are given to an engine object do not change how other objects and threads are treated.",
     ["schedules", "histories", "inputs"],
     "every interleaving, at the granularity of source lines and network requests, of several threads building objects, reading expanding properties and serialising on one engine and on shared objects, from a cold or warm context cache",
     "No test uses threads; lazily built class registries, the shared cache and the per-object output mode race only under controlled interleavings.",
     ["jsonld/base.py", "jsonld/kamino.py", "jsonld/package.py", "jsonld/engine/json_input.py", "jsonld/docloader.py", "activitystreams/models.py"],
     [("per-object context manager", "jsonld/base.py JsonContextAwareManager"), ("class-level cache", "jsonld/docloader.py"), ("class cloning", "jsonld/kamino.py")],
     [], ["results of from_json/data()/properties per thread"])

# decided by pure input-output behaviour: no schedule, clock, fault or history in them
prop("P01", "Vocabulary objects survive a JSON round trip",
     "An object built from a valid document and turned back into JSON gives a document with the same type, properties and values under the same context.",
     ["inputs"], "every valid document of the vocabulary",
     "The tests contain no round trip; only a quantifier over documents settles it.",
     ["jsonld/jsonld.py", "jsonld/engine/json_input.py", "activitystreams/properties.py"],
     [("data()/json()", "jsonld/jsonld.py"), ("from_json", "jsonld/engine/json_input.py")])
prop("P02", "Dates, durations and URLs convert faithfully",
     "Parsing and printing of date-times, durations and URLs are inverse to each other and accept exactly the forms the vocabulary allows.",
     ["inputs"], "every string and every date-time or duration value",
     "Nothing tests the converters.",
     ["jsonld/tools/datetime.py", "jsonld/tools/url.py", "jsonld/engine/utils.py"],
     [("converters", "jsonld/tools/datetime.py")])
prop("P03", "Container sizing always provides the requested capacity",
     "The number of collections chosen for a capacity is prime and the collections together hold at least that capacity.",
     ["inputs"], "every capacity and collection size",
     "The tests sample a handful of sizes.",
     ["citrine/storage/utils.py", CT], [("number_of_collections", "citrine/storage/utils.py")])
prop("P04", "Package arithmetic combines vocabularies without loss",
     "Adding and subtracting packages yields the union and difference of their classes and properties, leaving the operands unchanged.",
     ["inputs"], "every combination of packages",
     "One test file touches package construction only.",
     ["jsonld/package.py", "jsonld/kamino.py"], [("__add__/__sub__", "jsonld/package.py")])

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
