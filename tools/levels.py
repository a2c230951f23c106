LEVELS = {
 "C01": ("proof", "every serializer of the library inverts itself for collections of any size, subclasses, dicts, texts, bytes, arrays, sparse matrices and exceptions, and the loops around them keep parts, numbers and placeholders in their places, for every object; pickle, NumPy and SciPy by their documentation; further cases of at most two items are labelled bounded"),
 "C02": ("proof", "the stepwise traversal with and without a thread, every interruption, and the reading of it, for all objects and stacks; one object's own serializer is C01"),
 "C03": ("proof", "serial/deserial_members of every message class, forwards of an arbitrary message by the contract of its parts, and on_deserial_error, for all field values; pickling of the flat header and C01 are assumed"),
 "C04": ("proof", 'both channel kinds and the framing, for all messages, sizes and failures; that streams and queues keep order and asyncio locks exclude is assumed'),
 "C05": ("proof", 'the client table of a caller for every history of sends, answers, cancellations and losses; ids in flight are assumed to differ'),
 "C06": ("proof", 'every suspension point of the actor classes runs under, or releases exactly as declared, the lock of the actor, for every schedule (other tasks are arbitrary at each await); mutual exclusion of the lock object is assumed'),
 "C07": ("proof", 'decorator, send/tell/delay, local and remote batches for every number of delays and parameters; the effects of lazily mapped calls have bounded cases, labelled so'),
 "C08": ("proof", 'creation, destruction, registration and lookup of actors in both kinds of pools, for every state of the tables; messages between pools by the contracts of C09, C03, C05'),
 "C09": ("proof", 'every handler, the processing of messages and of their failures, for every message; the UCX meta message, control of sub pools and arguments of wrapped errors have bounded cases, labelled so'),
 "C10": ("proof", 'every allocation strategy, choice of slot and creation through the main pool, for every configuration; the configuration by its contract (C11)'),
 "C11": ("proof", 'every operation of the configuration keeps its invariant, for all histories; at most 65536 indexes'),
 "C12": ("proof", 'lookup, search for proxies, internal addresses and cached clients, for all tables and topologies; termination of the search rests on a counting argument that is assumed'),
 "C13": ("proof", 'the sending and receiving side of copies between buffers and files, for all lists, sizes and blocks; UCX is not covered'),
 "C14": ("proof", 'monitor, recovery, removal and appending of pools, for every history; process starts are assumed to work as asked'),
 "C15": ("proof", 'replacement of awaitables in results and running of generators, for all tuples; asyncio.wait is assumed'),
 "C16": ("proof", 'every operation of the dispatcher keeps the invariant of its cache and a lookup is the search, for every class hierarchy and history; resolution of lazy names is bounded to two names'),
 "C17": ("proof", 'the step of owner and client and the collection of generators, for every generator; uniqueness of names and PEP 479 are assumed'),
 "C18": ("proof", 'writer, reader and both protocol sides over symbolic byte contents, every read point between the writes; pickling and atomic word stores are assumed'),
 "C19": ("proof", 'equality, hashing, pickling, lookup and wildcard replacement for all addresses and ids (z3 strings and uninterpreted values); the IPv4 wildcard predicate has a bounded case'),
 "C20": ("proof", 'metric and profiling state machines for every history by invariants over reals; the printed report is bounded'),
 "C21": ("proof", 'filtering, the evaluation of markers, comparisons and substitutions for all requirements; packaging is assumed, chains and variables have bounded cases next to the general ones, labelled so'),
}
