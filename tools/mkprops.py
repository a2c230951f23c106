import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),
      why_tests_cant=why,anchors=dict(files=['python/xoscar/'+f for f in files],
      state=[dict(name=n,meaning=m,where='python/xoscar/'+w) for n,m,w in state],
      mechanism=[dict(name=n,where='python/xoscar/'+w) for n,w in mech],observe_at=list(observe),hook_needed=None)))

p('C01','Serialization round-trips values, types and sharing',
 'deserialize(*serialize(x)) is equal to x with the same types at every level, for every finite value built from None, booleans, numbers, strings, bytes, dates, lists, tuples, namedtuples, dicts and their subclasses, NumPy arrays of any dtype, shape, order or stride, SciPy CSR matrices, exceptions and picklable objects. Lists, tuples, dicts and long strings that occur several times in x, as well as lists and dicts that contain themselves, occur just so in the result. x itself is left unchanged.',
 ['inputs'],'Every finite object graph of the listed types, any nesting depth, width, order and sharing (cycles through lists and dict values included; cycles that pass through a tuple, dict keys that contain the dict, and sharing inside pickled objects excluded).',
 'Tests round-trip a fixed list of sample values; sharing, emptiness, string length limits and nesting interact, and only a handful of combinations is sampled.',
 ['serialization/core.pyx','serialization/numpy.py','serialization/scipy.py','serialization/exception.py'],
 [('_serialize_with_stack / _serial_single','serialization/core.pyx'),('deserialize / _deserial_single','serialization/core.pyx'),('CollectionSerializer, DictSerializer, Placeholder','serialization/core.pyx'),('NDArraySerializer','serialization/numpy.py')],
 ['xoscar.serialization.serialize','xoscar.serialization.deserialize'],
 [('context','object id -> object already serialized / deserialized','serialization/core.pyx')])
p('C02','Serialization with spawning gives the result of plain serialization',
 'For every object and every spawn threshold, serialize_with_spawn yields a header and buffers that deserialize to the same object, with the same structure of shared parts and the same buffers in the same order, as serialize does. Interrupting the serialization at any point and resuming it in another thread neither loses nor repeats a part, and the number of objects recorded in the header is the number of steps taken in both phases together.',
 ['inputs','schedules'],'Every object graph, every threshold (hence every point of interruption), any executor.',
 'Tests use one threshold on one object; the point of interruption relative to the stack of half-serialized containers is what matters.',
 ['serialization/core.pyx','serialization/aio.py'],[('_SerializeObjectOverflow / resume','serialization/core.pyx'),('AioSerializer, AioDeserializer','serialization/aio.py')],['xoscar.serialization.serialize_with_spawn','xoscar.serialization.AioSerializer'])
p('C03','Messages of every kind arrive with all their fields',
 'A message of any kind (control, result, error, create, destroy, has-actor, actor-ref, send, tell, cancel, copy-to-buffers, copy-to-files, and forward of any of these) that is serialized and deserialized is a message of the same kind in which every field, including message id, protocol, message trace, profiling context and proxy addresses of actor references, equals the original. When the payload cannot be deserialized, the failure that is raised carries the id of the message it belongs to and the original error as its cause.',
 ['inputs'],'Every message kind and all field values, forwards of forwards included; failures anywhere in the payload.',
 'Tests serialize messages with mostly default fields; positions of fields in the flat header are indexed from both ends and must agree for every kind and nesting.',
 ['backends/message.pyx','serialization/core.pyx'],[('serial / deserial_members of each message class','backends/message.pyx'),('MessageSerializer.on_deserial_error','backends/message.pyx')],['xoscar.serialization.serialize on messages'])
p('C04','Channels deliver whole messages, in order, once',
 'Every object sent on a connected channel arrives on the other side exactly once, complete and in sending order, however the byte stream is split into chunks and however sends and receives overlap. The announced sizes always equal the bytes that follow, for empty, large and non-byte (multi-dimensional) buffers as well. A stream that ends or breaks before or inside a message, or that carries another version, yields an EOF or connection error and never a partial object.',
 ['inputs','schedules','crash_points'],'All messages and sequences of messages, all chunkings of the stream, all truncation points, concurrent senders and receivers on socket, unix-socket and in-process channels.',
 'Tests send a few objects over a local socket, where the kernel decides the chunking and streams are never cut inside a frame.',
 ['serialization/aio.py','backends/communication/socket.py','backends/communication/utils.py','backends/communication/dummy.py'],
 [('AioSerializer._get_buffers','serialization/aio.py'),('AioDeserializer / get_header_length','serialization/aio.py'),('SocketChannel.send / recv','backends/communication/socket.py'),('write_buffers / read_buffers','backends/communication/utils.py')],['Channel.send / Channel.recv'])
p('C05','Each caller gets its own response; a lost connection fails all waiters',
 'A response is delivered to the call with the same message id and to no other, in whatever order responses arrive, and responses to cancelled calls disturb nobody else. A response that cannot be deserialized fails exactly its own call, with the original error. When the connection closes or breaks, every call still waiting on that client fails with an error instead of hanging, and calls on other clients are unaffected.',
 ['schedules','histories','fault_sequences'],'Any number of concurrent calls and clients, any order of responses, cancellations, deserialization failures and connection failures.',
 'Tests have one or two calls in flight and kill a server once; interleavings of cancellation, failure and out-of-order responses are not reached.',
 ['backends/core.py'],[('ActorCallerThreadLocal._listen','backends/core.py'),('ActorCallerThreadLocal.call_with_client','backends/core.py')],['ActorCaller.call'],
 [('_client_to_message_futures','message id -> future of each call in flight','backends/core.py')])
p('C06','An actor runs one method at a time, unless marked lock-free',
 'Two calls on the same stateful actor never overlap: until the method of one (all its awaits included) has returned or failed, no other method of that actor starts, whether the calls come through local references, remote references, batches or tells. The lock is released however the method ends (return, error, cancellation), and while awaiting what a yielding method yielded or the awaitables it returned the lock is not held. Methods marked no_lock and stateless actors never wait for the lock.',
 ['schedules','programs'],'All interleavings of any number of calls of any form, with methods that return, raise, are cancelled, yield or return awaitables.',
 'Tests check a few interleavings by sleeping; whether the lock is held around every dispatch path, and released on every exit, depends on the path taken.',
 ['core.pyx'],[('__pyx_actor_method_wrapper','core.pyx'),('_BaseActor.__on_receive__','core.pyx'),('_BaseActor._run_actor_async_generator','core.pyx')],['Actor methods'],
 [('_lock','held while a method runs','core.pyx')])
p('C07','A batch equals the calls it is made of',
 'Calling an extensible method with a batch of delayed calls gives the list of the results of the single calls with the same arguments, in the order of the batch, for batches of any size, positional and keyword arguments, synchronous and asynchronous methods, local and remote references, and with or without a batch implementation; an error of a call is raised. A batch implementation is called at most once, with all arguments in order, and when only a batch implementation exists a single call is answered by it. A batch of delayed calls of a remote reference that mixes methods is refused.',
 ['inputs','programs'],'Every batch of every length and mixture of positional and keyword arguments.',
 'Tests use a couple of batches of two or three calls.',
 ['batch.py','core.pyx'],[('_ExtensibleWrapper','batch.py'),('_ExtensibleCallable.__call__','batch.py'),('ActorRefMethod.batch','core.pyx'),('_BaseActor.__on_receive__ (batch)','core.pyx')],['ActorRef.method.batch'])
p('C08','The pool knows exactly the actors that exist',
 'After any history of creations and destructions, successful or failed, on the main pool and its sub pools and including pools appended, removed or stopped, has_actor and actor_ref find an actor by id through the main pool exactly if it was created and not destroyed since, and find it at the address where it lives. Creating an actor with the id of one that exists in the same pool, or destroying or calling one that does not exist, is refused with ActorAlreadyExist or ActorNotExist and changes nothing. A creation whose constructor or post-create hook fails leaves nothing behind.',
 ['histories','fault_sequences','schedules'],'All sequences and overlaps of create, destroy, has_actor, actor_ref, send on main and sub pools with failures of any step.',
 'Tests walk a few histories without overlap and rarely with failing hooks.',
 ['backends/pool.py','backends/indigen/pool.py'],[('ActorPoolBase.create_actor / destroy_actor / has_actor / actor_ref','backends/pool.py'),('MainActorPoolBase.create_actor / destroy_actor / has_actor / actor_ref','backends/pool.py'),('SubActorPoolBase.create_actor / destroy_actor','backends/pool.py')],['xoscar.create_actor, has_actor, destroy_actor, actor_ref'],
 [('_actors','actors that live in this pool','backends/pool.py'),('_allocated_actors','address -> actors created through the main pool','backends/pool.py')])
p('C09','Every request gets exactly one reply, with its own id',
 'For every request a pool receives (other than the order to stop), one that it cannot deserialize included, exactly one reply is sent on the channel it came from, and the reply carries the id of that request, however the handler ends and whether or not it was forwarded. A result is returned as it is; an error reaches the caller as an exception of the original type with the original arguments and text, prefixed by address and process id; and a reply that cannot be sent as it is is replaced by one error reply with the same id. A cancelled request is reported as cancelled, and a cancel request affects only the request it names.',
 ['inputs','schedules','fault_sequences'],'All message kinds, all outcomes of handlers (result, exception, cancellation), forwards, send failures.',
 'Tests look at a few results and errors end to end; ids, double replies and unserializable results are sampled once.',
 ['backends/pool.py','backends/context.py','backends/message.pyx','utils.py'],[('_ErrorProcessor','backends/pool.py'),('AbstractActorPool.process_message / _send_channel / _run_coro','backends/pool.py'),('ErrorMessage.as_instanceof_cause / wrap_exception','backends/message.pyx'),('IndigenActorContext._wait / cancel','backends/context.py')],['replies on a channel','exceptions of actor calls'])
p('C10','Actors are placed where their allocation strategy says',
 'An actor is created at the address its strategy denotes: the given address, the main pool, the pool at the given index, any pool, any sub pool, or any pool with the given label; it is never placed on a pool with another label. IdleLabel never places two live or still-being-created actors of the same label and mark on one pool, uses each pool with that label as long as one is idle, and otherwise fails with NoIdleSlot; slots become idle again when the creation fails or the actor is destroyed.',
 ['configurations','histories','schedules'],'All pool configurations and labels, all histories and overlaps of allocations, failures and destructions.',
 'Tests use one configuration with two or three pools and allocate sequentially.',
 ['backends/allocate_strategy.py','backends/pool.py','backends/config.py'],[('get_allocated_address of each strategy','backends/allocate_strategy.py'),('MainActorPoolBase.create_actor placeholder','backends/pool.py')],['address of created actors'])
p('C11','Pool configuration keeps addresses, indexes and mapping consistent',
 'After any sequence of adding pools (under new indexes and addresses), resetting their addresses and removing them, each configured pool is found by its process index, in insertion order, and by each of its external addresses; the external-to-internal mapping contains exactly the external addresses of the configured pools, each mapped to the internal address of its pool; and label queries return exactly the first external addresses of pools with that label. Process indexes generated by different processes, or successively by one process, never coincide.',
 ['histories','configurations'],'All sequences of configuration operations with one or several external addresses per pool; fewer than 65536 indexes per process.',
 'Tests add a few pools once.',
 ['backends/config.py','backends/pool.py'],[('ActorPoolConfig','backends/config.py'),('MainActorPoolBase.process_index_gen','backends/pool.py')],['ActorPoolConfig methods'],
 [('_conf','pools and mapping','backends/config.py')])
p('C12','Routing picks the right address, proxy and live client',
 'A client for an external address connects to the in-process address when the pool is in this process, else to the mapped internal address, else to the proxy that applies (explicit address before host before wildcard, the last announced proxy first), else to the address itself. A cached client is returned only for the same address, caller and proxies and only while it is open; after routers are added, removed or remapped, lookups reflect the current state. The list of proxies for an address is the chain of configured proxies, and is always finite.',
 ['configurations','histories'],'All mappings, proxy configurations (chains, cycles, wildcard), sequences of lookups, closes and router changes.',
 'Tests check one proxy chain and a few lookups.',
 ['backends/router.py'],[('Router.get_client / get_internal_address','backends/router.py'),('Router.get_proxy / get_proxies','backends/router.py'),('Router.add_router / remove_router / set_mapping','backends/router.py')],['Router.get_client'],
 [('_cache','(address, caller, type, proxies) -> client','backends/router.py')])
p('C13','copy_to transfers exactly the bytes, in blocks of the given size',
 'After copy_to has returned, each remote buffer or file holds exactly the bytes of the local one at the same position of the list, for any number and sizes of buffers and files (empty ones included) and any block size. For buffers no message carries more than block_size bytes, and for files no read exceeds it. Bytes beyond the copied length are untouched, and an error on the remote side is raised to the caller instead of being dropped.',
 ['inputs','fault_sequences'],'All lists of sizes, all block sizes, failures of any message.',
 'Tests copy a handful of sizes; the block arithmetic depends on how sizes straddle block boundaries.',
 ['backends/context.py','backends/pool.py'],[('IndigenActorContext.copy_to_buffers / copy_to_fileobjs','backends/context.py'),('handle_copy_to_buffers_message / handle_copy_to_fileobjs_message','backends/pool.py')],['xoscar.copy_to'])
p('C14','A recovered sub pool gets back exactly its actors',
 'When a sub pool process is lost and auto_recover is "actor", it is restarted once and every actor that was allocated there and not destroyed is created again once, with its original class, id and arguments; with "process" the pool is restarted without actors and they are forgotten; with False nothing is restarted and they are forgotten. The callbacks for down and recovered are called once per loss and in this order, waiters for the recovery are released, and a failure with one sub pool does not stop the monitoring of the others.',
 ['fault_sequences','histories','schedules'],'All sets of allocated actors, losses of any sub pools in any order, creations and destructions meanwhile, all auto_recover settings.',
 'Tests kill one sub pool with one actor, and take seconds to do so.',
 ['backends/pool.py','backends/indigen/pool.py'],[('monitor_sub_pools / process_sub_pool_lost','backends/pool.py'),('MainActorPool.recover_sub_pool','backends/indigen/pool.py')],['actors after recovery','on_process_down / on_process_recover'])
p('C15','Awaitables in results are replaced by their values, in place',
 'When an actor method returns an awaitable, the caller receives its value; when it returns a tuple, every awaitable or async generator in it is replaced by its own outcome at its own position and every other item is kept as it is, whatever the number, order, duplicates and completion order of the awaitables. An error of an awaitable is raised to the caller. An async-generator method receives back, at each yield, the outcome (value or error) of what it yielded.',
 ['inputs','schedules','programs'],'All tuples of plain values, coroutines, futures, tasks and async generators, all completion orders and errors.',
 'Tests return tuples with one or two coroutines, in one order of completion.',
 ['core.pyx'],[('_BaseActor._handle_actor_result','core.pyx'),('_BaseActor._run_actor_async_generator','core.pyx')],['results of actor calls'])
p('C16','Dispatch always picks the most specific registered handler',
 'The handler found for a type is the one registered for that type, else for the nearest class in its method resolution order; for a named type, a handler registered under the name takes precedence at each class over the unnamed one. This holds after any sequence of registrations, replacements, removals and lookups in any order, so that no lookup is answered from an outdated registration. A type without any applicable handler raises KeyError.',
 ['histories','inputs'],'All class hierarchies and all sequences of register, unregister and get_handler (types, tuples of types, and named types; handlers registered by import path apply from the first lookup that finds no handler for the exact type).',
 'Tests perform one fixed sequence of registrations and lookups.',
 ['_utils.pyx'],[('TypeDispatcher.register / unregister / get_handler','_utils.pyx')],['TypeDispatcher.get_handler'],
 [('_inherit_handlers','cache of handlers found by inheritance','_utils.pyx')])
p('C17','Remote generators yield every item once, in order, then end',
 'Iterating over what a method decorated as a generator returns yields exactly the items of the generator, in order and once each, whether it is synchronous or asynchronous and whatever the items are (falsy values, None and exceptions as values included). It then ends, or raises the error the generator raised with its type and message, and is not mistaken for the end. The generator is released in the actor at its end, at its error or when the iterator is destroyed, other generators of the actor are unaffected, and using a released one is an error.',
 ['programs','inputs','histories'],'All item sequences, lengths, errors and interleavings of several generators.',
 'Tests iterate a few generators of small integers.',
 ['api.py'],[('IteratorWrapper.__anext__','api.py'),('AsyncActorMixin.__xoscar_next__ / __xoscar_destroy_generator__','api.py'),('generator','api.py')],['async iteration over results'],
 [('_generators','uid -> generator that is still active','api.py')])
p('C18','Parent and sub pool never read a half-written start message',
 'In the shared memory used to start a sub pool, a reader that waits for a given stage gets nothing until the writer of that stage has completed, and then gets exactly the object that was written, for any object that fits; an object that does not fit is refused before anything is written. The message of one stage is never taken for that of another.',
 ['schedules','inputs'],'All objects of all sizes up to the limit, a read at every point between the writes of the other side.',
 'Tests start real processes, where the window between the writes is never hit.',
 ['backends/indigen/pool.py'],[('_shm_put_object / _shm_get_object','backends/indigen/pool.py')],['start of sub pools'])
p('C19','References keep identity through copies, pickling and lookups',
 'Two actor references are equal, and then have equal hashes, exactly if address and id are equal, whether they are local or remote, given as text or bytes, and through any number of pickling or serialization rounds, which keep proxies too; the same holds for buffer and file references, whose lookups return the object registered. A wildcard address (all-zero IPv4 or IPv6) in a reply is replaced by the host the client connected to while the port of the reply is kept, and any other address is left alone.',
 ['inputs'],'All addresses, ids and proxies; all pairs of addresses in fix-up.',
 'Tests compare a few references.',
 ['core.pyx','_utils.pyx','utils.py','context.pyx'],[('ActorRef.__eq__ / __hash__ / __reduce__','core.pyx'),('BufferRef, FileObjectRef','core.pyx'),('create_actor_ref, to_binary, to_str','_utils.pyx'),('fix_all_zero_ip','utils.py')],['ActorRef, BufferRef, FileObjectRef'])
p('C20','Metrics and profiling report what was recorded',
 'A counter reports the sum of all recorded values, a gauge the last one, a histogram the mean of the values since its last report, and a meter their sum divided by the elapsed time, at the documented thresholds, also when the metric was made before the backend was initialized. Profiling counts every send of a method of an actor once per active task, and lists the ten most frequent methods and the ten slowest calls that reach the threshold, slowest first; a task that was popped is no longer recorded.',
 ['histories','inputs'],'All sequences of records, times and tags; all sequences of calls and durations (calls with equal durations may be chosen between, and a call repeated with the same arguments is listed once, with its longest duration).',
 'Tests record a few values and fewer than ten slow calls.',
 ['metrics/backends/metric.py','metrics/api.py','metrics/backends/console/console_metric.py','profiling.py'],[('AbstractCounter/Gauge/Meter/Histogram.record','metrics/backends/metric.py'),('_CallStats.collect / to_dict','profiling.py'),('_ProfilingData','profiling.py')],['metric.value','ProfilingData.pop'])
p('C21','Package filtering keeps exactly the requirements whose marker holds',
 'filter_requirements returns, in order, exactly the requirements whose marker is true in the environment, with extras, version specifiers and URLs kept and the marker removed; requirements without marker and VCS or plain URLs are always kept. Custom markers over has_cuda, cuda_version, cuda_arch, has_npu and substituted #variables# follow the usual meaning of and, or, not, parentheses and chained comparisons, with versions and architectures compared numerically and a substituted value never read as part of the marker syntax.',
 ['inputs','configurations'],'All marker expressions over the known variables, all environments, all variable values.',
 'Tests evaluate a list of sample markers.',
 ['virtualenv/core.py','virtualenv/utils.py'],[('filter_requirements','virtualenv/core.py'),('eval_custom_marker','virtualenv/core.py'),('substitute_variables','virtualenv/core.py')],['VirtualEnvManager.process_packages'])
p('C22','Collective operations compute the same result on every rank',
 'Every rank of a process group receives the mathematically specified result of reduce, allreduce, gather, allgather, scatter, broadcast, reduce-scatter, all-to-all and barrier for the buffers all ranks passed in.',
 ['inputs','schedules'],'All group sizes, ranks, dtypes and buffer contents.','Tests cover two or three ranks.',
 ['collective/core.py','collective/process_group.py'],[('RankActor, ProcessGroupGloo','collective/process_group.py')],['xoscar.collective'])
p('C23','GPU and UCX channels transfer device buffers faithfully',
 'Device buffers sent over UCX channels or as CUDA buffers over sockets arrive byte for byte.',
 ['inputs','configurations'],'All device buffers and transports.','Tests for it need GPUs and UCX and are skipped.',
 ['backends/communication/ucx.py','serialization/cuda.py'],[('UCXChannel','backends/communication/ucx.py')],['Channel.send on UCX'])
p('C24','Sub processes do not outlive the main process',
 'When the process of the main pool dies for whatever reason, all processes of its sub pools end.',
 ['crash_points'],'Every moment of death of the main process.','Tests kill a process once.',
 ['backends/indigen/fate_sharing.py','backends/pool.py'],[('_check_ppid, PDEATHSIG, _watch_main_pool','backends/indigen/pool.py')],['process table'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P:
    assert len(x['title'])<=80,x['title']
