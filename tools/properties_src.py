#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run me to regenerate it)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "mechanism": [{"name": n, "where": w} for n, w in mechanism],
            "observe_at": list(observe),
            "hook_needed": hook,
        },
    })


CD = "cache_dependencies/"
DJ = "django_cache_dependencies/"

prop("C01", "An invalidated entry is never served again",
     "Once a tag has been invalidated in a cache version, no read in that version (single, batch or compute-if-missing, by any thread) returns a value that was stored, depending on that tag, before the invalidation. "
     "The entry stays unreadable until its key is stored anew, however much later it is read and whatever else is stored, invalidated or recreated in between.",
     ["histories", "inputs"],
     "Every history of set / get / get_many / compute-if-missing / invalidate / clock advance over any keys, tag sets (overlapping, empty, non-ASCII, number-like), cache versions, timeouts and reading thread.",
     "The tests replay two or three fixed histories with two keys and a handful of tags; staleness appears only for particular orders of store, invalidation and re-creation of the tag's version.",
     [CD + "cache.py", CD + "dependencies.py", CD + "tagging.py", CD + "utils.py"],
     [("tag versions recorded with the value, compared with the current ones when reading", CD + "dependencies.py TagsDependency.evaluate/validate"),
      ("invalidation deletes the tag's version", CD + "dependencies.py TagsDependency.invalidate"),
      ("fresh unique version on re-creation", CD + "utils.py generate_tag_version")],
     [("tag version", "random identifier of the tag's current generation", "backend key tag_<version>_<md5>")],
     ["return values of get, get_many, get_or_set_callback"])

prop("C02", "Evictions, expiry and clock ties never resurrect an invalidated entry",
     "If the backend drops any of its keys at any moment (eviction, expiry of a value or of a tag's version, process restart of the backend), the only effect is that values may have to be recomputed. "
     "An entry invalidated earlier never becomes readable again through such a loss, and an entry whose tag information was lost is not served with tags recreated later, even when everything happens within one clock tick.",
     ["fault_sequences", "histories"],
     "Every history of store/read/invalidate interleaved with arbitrary losses of backend keys and arbitrary (also zero) clock steps.",
     "No test makes the backend lose a key, or recreates a tag after a loss; tag-version collisions need a frozen clock.",
     [CD + "dependencies.py", CD + "utils.py", CD + "cache.py"],
     [("missing tag version counts as invalid", CD + "dependencies.py TagsDependency.validate"),
      ("unique version identifiers", CD + "utils.py generate_tag_version")],
     [("tag version", "generation of a tag", "backend")],
     ["return values of get / get_many"])

prop("C03", "A live entry is served exactly as stored",
     "A value that was accepted for storage is returned by later reads with equal content and type, whatever picklable value it is (falsy values, None, dictionaries resembling internal records, nested containers), until its timeout passes, it is overwritten or deleted, or one of its own or inherited tags is invalidated. "
     "Invalidating other tags, the same tags in another version, or storing other entries never makes it unreadable (within a day of its tags' creation).",
     ["inputs", "histories"],
     "Every picklable value, tag set, timeout and history in which the entry's tags are not invalidated.",
     "The tests store short strings and numbers; over-invalidation is asserted for a single pair of keys.",
     [CD + "cache.py", CD + "tagging.py", CD + "dependencies.py"],
     [("envelope around value and dependency", CD + "cache.py CacheWrapper._pack_data/_unpack_data"),
      ("existing tag versions are reused, not regenerated", CD + "dependencies.py TagsDependency.evaluate")],
     [], ["return values of get / get_many"])

prop("C04", "Composite entries inherit the tags of everything they were built from",
     "An entry computed between a missed read of its key and the store of that key depends also on all tags (own and inherited) of every entry of the same cache and cache version that the same thread read successfully or stored in between, at any nesting depth, whether obtained by single read, batch read, compute-if-missing or a store. "
     "So after any of those tags is invalidated the composite entry, and every composite containing it, is not served; a composite none of whose tags was invalidated is still served.",
     ["histories", "programs"],
     "All trees / DAGs of nested cached computations (depth, sharing, mixed access methods, dynamic children), with invalidations between top-level evaluations; compared with uncached recomputation.",
     "test_ancestors checks one parent with one child; propagation through several levels, hits, batch hits, siblings and shared children is not reached.",
     [CD + "relations.py", CD + "cache.py", CD + "dependencies.py"],
     [("relation nodes: begin / finish / add_dependency to parents", CD + "relations.py"),
      ("combined dependency at store time", CD + "cache.py CacheWrapper.set")],
     [("current relation node", "entry being computed by this thread", CD + "relations.py RelationManager._current")],
     ["value served for a composite after each invalidation"])

prop("C05", "Abandoned, failed and opted-out computations leave nothing behind",
     "After a computation is abandoned by abort, by an exception from a compute-if-missing callback or a template fragment, or by end of request, later computations get exactly the tags of what they use: no tag is lost and none of the abandoned computation's own tags is added to unrelated entries. "
     "Reads made with tracking switched off (per call or per cache instance) contribute no tags to the composite entry being computed.",
     ["histories", "fault_sequences"],
     "All nested computation programs in which any node may raise, abort, or be read untracked, followed by further computations in the same thread.",
     "No test aborts or raises inside a nested computation, and none switches tracking off.",
     [CD + "cache.py", CD + "relations.py", CD + "tagging.py", DJ + "templatetags/cache_tagging_tags.py", DJ + "__init__.py"],
     [("abort pops the node", CD + "cache.py CacheWrapper.abort"), ("request end clears", CD + "cache.py CacheWrapper.close"),
      ("ignore_descendants / abort=True", CD + "cache.py CacheWrapper.get")],
     [("current relation node", "entry being computed by this thread", CD + "relations.py")],
     ["which later invalidations make an entry unreadable"])

prop("C06", "Cache versions are isolated from each other",
     "Storing, reading, invalidating, finishing a transaction or locking in one cache version never changes what is readable or storable in another version of the same keys and tags. "
     "Within one version all guarantees hold the same for an explicit version number as for the default one.",
     ["histories", "inputs"],
     "Histories in which the same keys and tags are used with several versions, in and outside transactions, under every isolation level.",
     "Only low-level dependency tests use a second version, each for one call.",
     [CD + "cache.py", CD + "dependencies.py", CD + "transaction.py", CD + "relations.py"],
     [("version passed to every backend call", CD + "dependencies.py"), ("dependencies kept per version", CD + "transaction.py Transaction.add_dependency; " + CD + "relations.py CacheNode")],
     [], ["return values per version"])

prop("C07", "A batch read equals the individual reads",
     "Reading a collection of keys at once returns exactly the keys that individual reads would find, with the same values, for any mix of valid, invalidated, expired, missing and composite entries and any kind of iterable of keys. "
     "One invalid entry never hides or reveals another, and the batch read contributes to a composite entry the same tags as the individual reads would.",
     ["inputs", "histories"],
     "Any cache state and any collection of keys (duplicates, missing, one-shot iterators).",
     "One test reads two keys at once.",
     [CD + "cache.py", CD + "dependencies.py", CD + "defer.py"],
     [("composite validation reports exactly the invalid entries", CD + "cache.py CacheWrapper.get_many; " + CD + "dependencies.py CompositeDependency.validate")],
     [], ["return value of get_many against get"])

prop("C08", "Compute-if-missing runs the callback only when needed and returns its result",
     "Compute-if-missing returns the live stored value without calling the callback, also when that value is falsy; otherwise it calls the callback exactly once with the given arguments, stores the result with the given tags, timeout and version, and returns it. "
     "If the callback raises, the exception reaches the caller and nothing is stored.",
     ["inputs", "histories"],
     "Histories of nested and flat compute-if-missing calls with arbitrary values, tags, arguments, timeouts, versions and failing callbacks, mixed with invalidations and clock steps.",
     "There is no test of compute-if-missing at all.",
     [CD + "cache.py", CD + "tagging.py"],
     [("get_or_set_callback", CD + "tagging.py and " + CD + "cache.py")], [], ["callback calls and return values"])

prop("C09", "Nothing cached during a transaction outlives it with the tags it invalidated",
     "When the outermost transaction scope of a thread ends (commit or rollback alike), every entry stored before that moment by any thread and depending on a tag that was invalidated at any nesting level of that transaction is unreadable from then on, under every isolation level (under READ UNCOMMITTED after the configured delay). "
     "Within the transaction the invalidation also takes effect at once, and tags not invalidated in it are untouched.",
     ["histories", "configurations"],
     "Histories of several threads with nested transaction scopes, stores, reads and invalidations, for all isolation levels and versions.",
     "One fixed single-thread sequence under READ COMMITTED is tested; other levels are tested only with mocks.",
     [CD + "transaction.py", CD + "locks.py", CD + "cache.py"],
     [("dependencies collected up to the outermost scope", CD + "transaction.py Transaction/SavePoint.add_dependency"),
      ("release at finish", CD + "locks.py *DependencyLock.release")],
     [("transaction dependencies", "tags invalidated in this transaction, per version", CD + "transaction.py Transaction._dependencies")],
     ["return values after finish"])

prop("C10", "Transaction scopes nest and close on every exit path",
     "Scopes opened by begin, with-block, function decorator, deprecated begin/finish/decorator names or the transaction middleware nest properly: leaving the outermost one by return, exception, explicit finish, flush, end of request or a failing backend leaves no transaction open, and inner ones end nothing early. "
     "Decorated functions return and raise exactly what the original does and may be called from any thread.",
     ["histories", "fault_sequences", "programs"],
     "All nestings of the scope constructs, with exceptions raised at any depth, flushes at any point, requests answered normally or by an exception, and backend errors at any release.",
     "Tests cover three fixed shapes without exceptions or backend errors, in one thread.",
     [CD + "transaction.py", DJ + "decorators.py", DJ + "middleware.py", CD + "tagging.py", DJ + "__init__.py"],
     [("with/decorator protocol", CD + "transaction.py AbstractTransactionManager"), ("begin/finish/flush", CD + "transaction.py TransactionManager"),
      ("request brackets", DJ + "middleware.py TransactionMiddleware"), ("deprecated decorators", DJ + "decorators.py")],
     [("current transaction", "innermost open scope of the thread", CD + "transaction.py TransactionManager._current")],
     ["open-transaction state and re-invalidation after each exit"])

prop("C11", "Under REPEATABLE READ and SERIALIZABLE no stale data is served after a commit",
     "With readers and writers using cache transactions around their snapshot-isolated database transactions, a value read from the cache after a writer's transaction ended never predates that writer's committed changes to the data behind the value's tags, nor contains changes that were rolled back. "
     "This holds for overlapping writers of one tag, repeated transactions of one thread, nested scopes, invalidation before or after the change, and readers that started before the commit and store after it (within the lock's lifetime).",
     ["histories", "schedules"],
     "Histories of two or three threads over a simulated snapshot-isolated database; operation-level interleavings with arbitrary clock steps and ties.",
     "Lock tests exercise single calls with mock transactions; the end-to-end guarantee over overlapping transactions is never exercised.",
     [CD + "locks.py", CD + "dependencies.py", CD + "transaction.py", CD + "cache.py"],
     [("acquired / released tag states", CD + "dependencies.py AcquiredTagState, ReleasedTagState, TagsDependency._get_locked_tags"),
      ("store refused while a tag is locked", CD + "cache.py CacheWrapper.set")],
     [("tag lock states", "who invalidated a tag, since when / until when", "backend keys acquired_*/released_*")],
     ["values served against the simulated database"])

prop("C12", "No preemption between backend calls lets a stale value survive",
     "The guarantee of freshness after a REPEATABLE READ or SERIALIZABLE transaction's end holds even when threads are preempted between any two calls to the cache backend inside a store, read, invalidation or transaction end. "
     "Under READ COMMITTED, every entry whose store completed before the transaction began to end is unreadable after the end, under any such preemption.",
     ["schedules"],
     "All schedules of two or three threads at the granularity of single backend calls (random and bounded-preemption search; exhaustive for short two-thread programs).",
     "Tests are single-threaded; the races need a switch between two particular backend calls.",
     [CD + "dependencies.py", CD + "cache.py", CD + "locks.py", CD + "transaction.py"],
     [("lock is taken before the tag version is removed", CD + "cache.py CacheWrapper.invalidate_dependency"),
      ("tag versions are read together with the locks", CD + "dependencies.py TagsDependency.evaluate")],
     [("tag lock states and versions", "", "backend")],
     ["values served after all transactions ended"])

prop("C13", "A store is refused only while another transaction can make it stale",
     "A store succeeds (and is readable at once) whenever none of its own or inherited tags is locked by another thread's transaction: its own thread's invalidations, other tags, other cache versions, rolled-over locks and transactions that ended (plus delay) before the storing transaction began never block it, and locks vanish by themselves after their lifetime (if transactions which invalidate one tag overlap, its lock may linger for that long). "
     "While a tag is locked by another thread's open transaction, or one that ended after the storing transaction began, the store of an entry depending on it is silently refused, leaving an existing entry as it was and the thread's nesting state intact.",
     ["histories", "configurations"],
     "Histories of several threads with transactions, invalidations, stores and clock steps under REPEATABLE READ / SERIALIZABLE with and without delay; and under READ (UN)COMMITTED, where nothing is ever refused.",
     "Lock tests use hand-made transactions with one tag set and fixed times.",
     [CD + "dependencies.py", CD + "locks.py", CD + "cache.py"],
     [("lock decision", CD + "dependencies.py TagsDependency._get_locked_tags_callback, AcquiredTagState/ReleasedTagState.is_locked"),
      ("lock lifetimes", CD + "dependencies.py TagsDependency.TAG_STATE_TIMEOUT")],
     [("tag lock states", "", "backend keys acquired_*/released_*")],
     ["whether a store is readable afterwards"])

prop("C14", "The replication delay is honoured",
     "With a configured delay, entries that depend on tags invalidated in a transaction and were stored up to delay seconds after its end are unreadable once the delay has passed (READ UNCOMMITTED, READ COMMITTED), or are not stored at all by transactions begun within the delay (REPEATABLE READ, SERIALIZABLE). "
     "(If the same thread invalidates the tag again within the delay, the later transaction's delay counts.) The delayed invalidation happens exactly for that transaction's tags and versions and, once it has happened, later stores are not affected.",
     ["histories", "configurations"],
     "Histories with delays 0..10 s, stores at arbitrary instants around the transaction end and the delay boundary, several transactions with overlapping delays.",
     "Tests check that a timer calls a mock once.",
     [CD + "locks.py", CD + "dependencies.py"],
     [("delayed invalidation", CD + "locks.py ReadUncommittedDependencyLock._release_dependency_delayed"), ("released state with delay", CD + "dependencies.py ReleasedTagState")],
     [("pending timers", "delayed invalidations", "threading.Timer")],
     ["return values around the delay boundary"])

prop("C15", "Threads never share computation or transaction state",
     "Each thread gets its own cache object per alias (always the same one within the thread), so transactions and nested computations of one thread never influence which tags, locks or scopes another thread has, while stored values and invalidations are visible to all. "
     "Using one thread's transaction manager or relation manager from another thread is refused with an error and changes nothing.",
     ["schedules", "histories"],
     "Operation-level interleavings of several threads running nested computations and transactions; every operation of both managers called from a foreign thread.",
     "All tests run in one thread.",
     [DJ + "__init__.py", CD + "mixins.py", CD + "relations.py", CD + "transaction.py", CD + "utils.py"],
     [("thread-local collection", DJ + "__init__.py CacheCollection"), ("ownership check", CD + "mixins.py ThreadSafeDecoratorMixIn")],
     [("per-thread caches", "", DJ + "__init__.py CacheCollection.ctx")],
     ["object identity, errors raised, inherited tags"])

prop("C16", "Deferred queries give the individual results with one backend call per group",
     "Combining any number of deferred batch reads, in any order and nesting, yields for each of them exactly the result it would give alone, in last-added-first-out order, and leaves the combined operands usable and unchanged. "
     "All reads with the same executor and arguments are served by a single call of the executor for the union of their keys.",
     ["inputs", "programs"],
     "All chains and trees of deferred reads over several executors and arguments with overlapping key sets, with callbacks that themselves consume results.",
     "Two fixed chains are tested.",
     [CD + "defer.py"],
     [("aggregation", CD + "defer.py Deferred.__iadd__, GetManyDeferredIterator")], [("queue", "pending callbacks of a node", CD + "defer.py DeferredNode.queue")],
     ["results and executor calls"])

prop("C17", "Combining dependencies is a union that never alters its operands",
     "A combined dependency is valid exactly when all its parts are valid, unlocked exactly when all are unlocked, and reports exactly the invalid or locked tags; combining before validation or use is insensitive to order, duplication and nesting (parts which recorded different versions of one tag are left open). "
     "Dependency objects handed to the cache (for storing, invalidating or combining) are never modified by it and can be reused; copies are independent of their originals.",
     ["inputs", "programs"],
     "All trees of tag, composite and dummy dependencies over overlapping tag sets, any subset of invalidated / locked tags.",
     "Exceptions are tested with mocks; composition of dependencies is not tested.",
     [CD + "dependencies.py", CD + "exceptions.py", CD + "cache.py"],
     [("extend / copy", CD + "dependencies.py CompositeDependency.extend, __copy__"), ("error aggregation", CD + "exceptions.py")],
     [], ["validation outcome, reported items, operand state"])

prop("C18", "Uncached islands are evaluated afresh on every delivery",
     "In text with uncached islands, each island is replaced by exactly the output its code echoes when executed with the current variables overlaid by the variables captured when the island was written; all text outside islands is delivered unchanged. "
     "This holds for any number of islands, any captured picklable data, any indentation of the code, and islands that produce further islands (the code of an island has no multi-line string literal and does not begin with a comment).",
     ["inputs", "programs"],
     "All sequences of text pieces and islands with generated code (branches, loops, assignments), captured data, variables, nesting through echo.",
     "One template with two islands is tested.",
     [CD + "nocache.py", DJ + "templatetags/cache_tagging_tags.py"],
     [("NoCache.handle", CD + "nocache.py")], [], ["returned text"])

prop("C19", "Only islands bearing the secret are executed",
     "Text that does not carry an island marker with this instance's secret is delivered byte for byte unchanged and causes no code execution and no unpickling, however closely it resembles a marker (other secret, missing or damaged parts). "
     "Markers written by one instance are never executed by an instance with another secret.",
     ["inputs"],
     "All texts, including mutated valid markers, markers with other secrets, and marker fragments around genuine islands.",
     "No test feeds a forged marker.",
     [CD + "nocache.py"],
     [("pattern with the secret", CD + "nocache.py NoCache.__init__")], [], ["returned text, canary side effects"])

prop("C20", "Cached template fragments are always equal to a fresh rendering",
     "Rendering a template with (nested) cached fragments gives the same text as rendering without caching, as long as every change of the data shown in a fragment is followed by invalidating one of the tags the fragment was given as argument, as keyword list, or by the add-tags tag in its body; fragments enclosing it are refreshed too. "
     "Fragments none of whose own or inner tags was invalidated are served from the cache, and all tags of the fragments rendered afresh in a request are handed to the request for the page cache. A timeout which is not an integer is refused with a template syntax error.",
     ["programs", "histories"],
     "Generated templates (nested and sibling fragments, inside loops / conditions / with-blocks, tag sources, filters) and histories of data changes, invalidations and renderings.",
     "Tests render a single non-nested fragment.",
     [DJ + "templatetags/cache_tagging_tags.py"],
     [("CacheNode.render", DJ + "templatetags/cache_tagging_tags.py"), ("CacheAddTagsNode", DJ + "templatetags/cache_tagging_tags.py")],
     [("cache_tagging context variable", "tags of the innermost fragment being rendered", "template context")],
     ["rendered text, request.cache_tagging"])

prop("C21", "The prevent tag keeps a fragment, its ancestors and the page out of the cache",
     "If the prevent tag is executed anywhere in the body of a fragment (also inside loops, conditions, with-blocks, includes, before or after inner fragments), neither that fragment nor any enclosing fragment nor the page is stored by that rendering. "
     "Sibling and inner fragments that did not execute it are cached as usual, and later renderings that do not execute it cache normally.",
     ["programs", "histories"],
     "Generated templates with the prevent tag at any position and condition, rendered repeatedly with changing conditions.",
     "One flat template with the prevent tag directly in the body is tested.",
     [DJ + "templatetags/cache_tagging_tags.py", DJ + "utils.py", DJ + "middleware.py"],
     [("cache_tagging_prevent flag", DJ + "templatetags/cache_tagging_tags.py"), ("prevent_cache_page", DJ + "utils.py")],
     [("cache_tagging_prevent context variable", "", "template context")],
     ["whether a second rendering is fresh"])

prop("C22", "A cached page is never served after any of its tags was invalidated",
     "A page cached by the view decorator or the cache middleware is not served again once one of its tags is invalidated: tags given to the decorator, tags collected in the request from template fragments, and tags of every cached entry used while building it, for every method and header variation of the URL. "
     "Until then, within its timeout, it is served without calling the view; after its timeout it is not served.",
     ["histories", "inputs"],
     "Histories of GET/HEAD requests to several URLs with varying headers, views built from cached entries and fragments (hits or misses), invalidations and clock steps.",
     "Tests cache one page with one decorator tag.",
     [DJ + "middleware.py", DJ + "utils.py", DJ + "decorators.py"],
     [("page and header-list entries carry the tags", DJ + "middleware.py UpdateCacheMiddleware.process_response; " + DJ + "utils.py learn_cache_key")],
     [], ["response content against current data, view calls"])

prop("C23", "Only eligible responses are cached, and only for equivalent requests",
     "Only GET and HEAD requests answered with a non-streaming status 200, not excluded by a zero max-age, by the anonymous-only rule or by prevention, are stored; any other request always reaches the view. "
     "A stored page is served only for the same URL and key prefix with the same values of the headers named by its Vary header, and the response served from the cache has the status, headers and content that were stored; no expiry headers are added to responses, and an ETag only when ETags are switched on and the view has set none.",
     ["inputs", "histories"],
     "Histories of requests with random methods, URLs, headers and sessions to views with random statuses, Vary and Cache-Control headers, streaming and template responses.",
     "Tests use plain GET requests to one URL.",
     [DJ + "middleware.py", DJ + "utils.py", DJ + "decorators.py"],
     [("process_request / process_response", DJ + "middleware.py"), ("learn_cache_key", DJ + "utils.py")],
     [], ["responses, view calls"])

prop("C24", "Saving or deleting a registered model invalidates exactly its tags",
     "After a registered model's instance is created, saved or deleted through the ORM, no cache entry depending on any tag its handler returns for it is served, in the cache alias named by the registration; entries with other tags or in other aliases stay. "
     "This holds for handlers taking the object or the signal arguments and returning one tag or a collection, for several handlers registered for one model, and for registrations made directly or in an application's caches module found by autodiscovery.",
     ["histories", "inputs"],
     "Histories of ORM create/save/delete/bulk-delete over registered and unregistered models with several handler shapes, mixed with stores and reads in two aliases.",
     "Tests save one object per model and never delete.",
     [DJ + "__init__.py"],
     [("signal handlers", DJ + "__init__.py CacheRegistry.register, _clear_cached")], [], ["entries readable after each ORM operation"])

prop("C25", "The generic cache adapter keeps the cache API's contract",
     "Any cache class built on the generic adapter from get/set/delete/add/clear behaves for batch reads and writes, presence tests, counters and version moves like a plain mapping with expiry: nothing lost, invented or moved to another key or version; missing keys are reported as such. "
     "Keys that some backends cannot take are still accepted, with a warning at most.",
     ["histories", "inputs"],
     "Histories of all adapter operations over arbitrary keys (control characters, spaces, long, non-ASCII), values, versions, timeouts and clock steps.",
     "Tests check one call of each operation with simple keys.",
     [CD + "cache.py"],
     [("AbstractCache", CD + "cache.py")], [], ["return values against a dictionary model"])

prop("C26", "The file-based backend stores atomically and returns what was stored",
     "What is stored in the file-based backend by any of its write operations is returned by its read operations until it expires or is deleted, for every key, value, version and timeout form (omitted, none for never, number), like the framework's own file backend. "
     "A write that fails at any point leaves the previous value readable and no partial value or leftover file; readers during a write see the old or the new value; the number of entries stays near the configured maximum.",
     ["histories", "fault_sequences", "crash_points"],
     "Histories of all backend operations compared with a dictionary model; a failure injected at every file-system call of a write.",
     "The backend has no test.",
     [DJ + "backends.py"],
     [("write to a temporary file, then rename", DJ + "backends.py FileBasedCache.set")], [("cache directory", "", "file system")],
     ["return values, directory content"])

prop("C27", "The tagged cache is a drop-in for the native cache API",
     "Calls in the native form (timeout and version given positionally or by name, no tags) behave as on the underlying cache; operations that have no tagging form (add, delete, batch write, batch delete, presence tests, clear, counters stored natively) act on the same entries as the tagged ones. "
     "A tagged store with any accepted way of giving tags (list, tuple, set, dependency object) is invalidated by any accepted way of naming the same tags.",
     ["inputs", "histories"],
     "Histories mixing native and tagged operations in all call forms, compared with a model.",
     "One test stores and reads one value natively.",
     [CD + "tagging.py", CD + "cache.py", DJ + "__init__.py"],
     [("CacheTagging.set / invalidate_tags argument handling", CD + "tagging.py"), ("delegation", CD + "tagging.py, " + CD + "cache.py __getattr__; " + DJ + "__init__.py DefaultCacheProxy")],
     [], ["return values"])

prop("C28", "A backend error surfaces and corrupts nothing",
     "If a backend call fails with an exception in the middle of an operation, the exception reaches the caller, and afterwards all other guarantees hold again: no invalidated or partially stored entry is served, failed stores leave the nesting state intact, and a retried operation has its full effect. "
     "An outage while a transaction ends does not leave that transaction open.",
     ["fault_sequences", "histories"],
     "Histories with an error injected at any backend call of any operation (get, batch get, set, batch set, batch delete).",
     "No test makes a backend fail.",
     [CD + "cache.py", CD + "transaction.py", CD + "dependencies.py"],
     [("finally: finish", CD + "cache.py CacheWrapper.set"), ("TransactionManager.finish", CD + "transaction.py")],
     [], ["exceptions and later return values"])

prop("C29", "The deprecated package names are the same library",
     "Everything can be used through the deprecated names cache_tagging and cache_tagging.django_cache_tagging (cache objects, dependencies, decorators, middleware, template tags) exactly as through the current ones. "
     "Code using different names shares caches, open transactions, tags and locks: what one stores, the other reads, invalidates and inherits tags from.",
     ["histories", "inputs"],
     "Histories and web requests whose threads, operations, dependency objects, decorators, middleware and templates use either name.",
     "No test imports the deprecated names.",
     ["cache_tagging/__init__.py", "cache_tagging/django_cache_tagging/__init__.py", CD + "dependencies.py", DJ + "__init__.py"],
     [("path of the deprecated packages leads to the current ones, module-level objects are re-exported",
       "cache_tagging/__init__.py, cache_tagging/django_cache_tagging/__init__.py")],
     [], ["return values, rendered texts, responses"])

prop("C30", "Processes which share a backend guarantee what threads guarantee",
     "All guarantees hold between threads of different processes (forked from one parent before or after it used the library, or started independently, with other hash seeds, on one or several hosts) exactly as between threads of one process: "
     "what one process stores the others read, invalidate and inherit tags from; transactions of one hold back stores of the others. "
     "A process killed at any moment, also between two calls of the backend, leaves nothing wrong: its transaction's locks go by age, what was invalidated before stays dead, what the killed operation was about to change is changed or not, and another process can store and invalidate as before.",
     ["histories", "schedules", "crash_points"],
     "Histories of 2-3 forked processes with 1-2 threads each over one backend behind a socket, killed between operations or at a call of the backend, and templates, pages and uncached islands served by turns; judged by the same models as threads.",
     "No test uses more than one process.",
     [CD + "utils.py", CD + "transaction.py", CD + "dependencies.py", CD + "locks.py", DJ + "__init__.py", CD + "nocache.py"],
     [("identity of a session: host, process and thread", CD + "utils.py get_thread_id"),
      ("names of keys do not depend on the process", CD + "utils.py make_tag_key"),
      ("age of locks", CD + "dependencies.py acquire, release")],
     [], ["return values, rendered texts, responses"])

prop("C31", "Threads which serve and render at once do not disturb each other",
     "Objects shared by threads (compiled templates, middleware instances, decorated views, the island handler, the module's cache proxy) keep nothing of one rendering, request or delivery which another can see: "
     "whatever other threads do in the middle of it, each rendered text, response and delivered island equals what the thread alone would have produced, and is stored under its own key, with its own tags, timeout and prevention.",
     ["schedules", "inputs"],
     "Templates, sites and islands of C18 and C20-C22 used by 2-3 threads in turn and in the middle of each other's work (up to three deep), switched at generated points of templates, views, callbacks and islands.",
     "No test renders or serves in more than one thread.",
     [DJ + "middleware.py", DJ + "decorators.py", DJ + "templatetags/cache_tagging_tags.py", DJ + "__init__.py", CD + "nocache.py", CD + "relations.py"],
     [("middleware looks its cache up per thread", DJ + "middleware.py cache"), ("state of a fragment lives in the copied context", DJ + "templatetags/cache_tagging_tags.py CacheNode"),
      ("proxy of the default cache", DJ + "__init__.py DefaultCacheProxy")],
     [], ["rendered texts, responses, delivered texts"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w", encoding="utf-8") as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    try:
        import jsonschema
        schema = json.load(open("/root/.vp/PROPERTIES.schema.json"))
        for p in P:
            jsonschema.validate(p, schema)
            n = p["statement"].count(". ") + 1
            assert n <= 3, (p["id"], n)
    except ImportError:
        pass
    print(len(P), "properties")
