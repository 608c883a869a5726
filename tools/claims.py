NOT = {}
CLAIMS['C04'] = ('model_checking', 'every transition of the state graph replayed in the real queue, recorded random and concurrent histories validated against the specification',
  'All operations on queues of up to 3 (thorough: 4) messages are enumerated by TLC and replayed in both queue types; bigger queues, sizes and real concurrency are sampled by recorded histories which TLC must accept. Trusts TLC and the driver.')
CLAIMS['C01'] = ('model_checking', 'every transition of the framing specification (frames x segmentations) replayed through the real reading path of every unpacker',
  'TLC enumerates all segments of up to 3 frames cut at every byte; each is fed through async_read, completion_condition, parse_msg and dispatch of a real socket over an in-memory transport. Small message limits put all boundaries within reach; the flexible unpacker runs with its real 4000 byte buffer at selected cuts. Trusts TLC, the driver and boost::asio::async_read.')
CLAIMS['C02'] = ('model_checking', 'every transition of the framing specification with malformed frames replayed through the real reading path of every unpacker',
  'As C01 with bad lengths, wrong prefixes and missing suffixes anywhere in the stream. Frames without a detectable violation (e.g. a plausible but wrong length) are out of reach of the protocol itself.')
CLAIMS['C03'] = ('model_checking', 'every call enumerated by TLC from the packer specification replayed in the real packers',
  'All part lengths from 0 to the limit + 1 for small limits, boundaries for 70000 byte messages with a two byte head, all call forms, all packers.')
CLAIMS['C25'] = ('model_checking', 'every operation enumerated by TLC on short strings replayed in basic_buffer, recorded random histories validated by TLC',
  'Exhaustive up to 3 (thorough: 4) bytes; capacity growth and sizes up to 250 bytes by recorded random histories; memory errors are seen through AddressSanitizer.')
CLAIMS['C15'] = ('model_checking', 'every transition of the timer specification replayed in the real timer class in virtual time',
  'TLC enumerates two timers with scripted callbacks that stop, start, set or replace their own or the other timer, expiries queued or not; each transition is replayed over io_context with a virtual clock and all callbacks and is_timer are compared. Two real threads which start and stop a timer while its callback ends are recorded and checked by TLC. Recorded random histories are replayed as long random walks.')
CLAIMS['C05'] = ('model_checking', 'every transition of the sending specification replayed through the real socket over a transport with a scripted writer; recorded multi-threaded schedules validated by TLC',
  'All sequences of send forms, prior flags, completions and failures up to small queue lengths; schedules of several workers are enumerated or sampled with a deterministic scheduler and checked by TLC. Trusts TLC and the drivers.')
CLAIMS['C07'] = ('model_checking', 'schedules of real sockets under a controlled scheduler validated by TLC against the sending and dispatching specifications',
  'Overlap of callbacks is judged on recorded traces of 2-3 workers with pauses injected at every strand/atomic hand-over visible through the executor; weak memory is out of reach.')
CLAIMS['C08'] = ('model_checking', 'wake-up specification checked by TLC (liveness), every transition of the sending specification replayed, schedules validated',
  'The lost wake-up is decided on a fine-grained model of send_msg/do_send and on recorded schedules of the real code which end with an empty executor and must have an empty queue.')
CLAIMS['C09'] = ('model_checking', 'every transition of the receiving specification replayed through the real reading path',
  'All combinations of buffer limits, refusals, congestion and messages per read up to small sizes.')
CLAIMS['C10'] = ('model_checking', 'every transition of the receiving specification replayed; dispatch model checked for liveness; schedules validated by TLC',
  'All message forms and results of on_msg/on_msg_handle for short sequences; schedules with several workers; virtual time.')
CLAIMS['C26'] = ('model_checking', 'every transition of the sending and receiving specifications replayed, statistics compared after each step',
  'Counts and byte sums of all message forms; durations are out of scope except for being monotonic.')
CLAIMS['C11'] = ('model_checking', 'every transition of the specification of a link\'s life replayed in real client and server sockets, order and number of callbacks compared',
  'TLC enumerates starts, shutdowns, breaks, traffic, held handlers and restarts of one link (at most one or two started calls at a time); replayed over an in-memory transport in virtual time, with and without ST_ASIO_DELAY_CLOSE. One thread; overlap of callbacks is C07.')
CLAIMS['C12'] = ('model_checking', 'liveness (Retries) checked by TLC, every transition replayed in the real client socket in virtual time',
  'All sequences of refused connects, breaks, bind failures and changes of the reconnect decision with delays -1, 0 and 20 or 30 ms.')
CLAIMS['C18'] = ('model_checking', 'liveness (Closes) checked by TLC, every transition replayed in real client and server sockets in virtual time',
  'Graceful shutdown with pending messages, peers which answer or do not, and force shutdown in every phase; the limit of the waiting time is 1 s in the harness.')
CLAIMS['C13'] = ('model_checking', 'every transition of the pool specification replayed in real server and client containers; histories of several threads under a controlled scheduler checked by TLC for linearizability',
  'TLC enumerates creations, additions, removals, shutdowns, id changes and restorations of 2 (some 3) objects and up to 4 ids. Threads: random programs of 2-3 threads, switched at every access to the container lock; the lock of the removed set is not a switching point.')
CLAIMS['C14'] = ('model_checking', 'every transition of the pool specification replayed in real containers with recycling, freeing, clearing and restoring; recycled links are compared with new ones',
  'As C13 (one thread). Each link is left with pending, half received and refused messages, timers and counters before it is removed; the next life must show none of it.')
CLAIMS['C06'] = ('model_checking', 'every transition of the sending, receiving and piecewise specifications replayed in the real socket; histories of real servers and clients over the loopback network validated by TLC',
  'Both halves of a link exhaustively for short sequences over an in-memory transport; end to end: up to 3 links, 3 senders per direction, 6 service threads, refusals, small buffers and breaks with reconnecting, in real time. Three recorded findings about messages queued in pieces.')
CLAIMS['C21'] = ('model_checking', 'every transition of the accepting specification replayed in the real server over an in-memory acceptor',
  'Starting and stopping to listen, failures of open, bind, listen and accept, refused and full servers, up to 3 (thorough: 4) accepts at once; one thread.')
CLAIMS['C29'] = ('model_checking', 'histories of real ssl, websocket and websocket over ssl links over the loopback network, with spoiled handshakes and breaks, validated by TLC against the specifications of deliveries and of the life of a link',
  'Random numbers of links, senders, service threads, refusals, message sizes, breaks (force and graceful, by client or server) with reconnects and recycled objects, and peers which break off or garble the handshake; the ssl build runs under AddressSanitizer. Schedules are those the machine produces.')
CLAIMS['C19'] = ('model_checking', 'histories of threads sending synchronously through real sockets under a seeded scheduler in virtual time, validated by TLC; who resolves a send model checked for liveness',
  'SyncSend.tla: promises are resolved truthfully, messages never vanish unresolved and no caller waits for ever (bounded restarts). Binding: random programs of 3 threads (all sync and sync_safe forms, timeouts, pops, writes of parts, failures, shutdowns, restarts) run in the real server and client sockets, switched at every lock, wait and atomic hand-over visible through pthreads; each history must be one of TraceSync.tla and no caller may stay blocked. TCP; UDP shares the waiting code.')
CLAIMS['C20'] = ('model_checking', 'histories of threads receiving synchronously from real sockets under a seeded scheduler in virtual time, validated by TLC; the hand-over model checked for liveness',
  'SyncRecv.tla: one waiter, nothing lost or doubled, closing wakes the waiter. Binding as for C19, with arrivals, errors, closes, timeouts, batched and passive receiving.')
CLAIMS['C22'] = ('model_checking', 'every transition of the heartbeat specification replayed in real client and server sockets in virtual time; two ends over a delaying network model checked',
  'TLC enumerates traffic, silence, parts of messages, starts, stops and manual checks over a clock of seconds, intervals and limits of 1-3, three answers to a dead peer, five framings; each transition is replayed. HeartbeatPair.tla proves for some I, M, D that two live ends never report each other and a silent one is noticed in time. Times within a second are not explored; UDP is in C23.')
CLAIMS['C23'] = ('model_checking', 'every transition of the datagram specifications replayed in real udp sockets; histories of real UDP and unix datagram sockets over the loopback network validated by TLC',
  'TLC enumerates sends to several addresses (default peer, given, priority, oversized), failures, peers changing, closing and restarting, connected or not, for up to 4 messages; reception as C05/C08 with addresses. Loopback: 2-4 sockets, 3 senders each, refusals, 4 service threads. Empty datagrams are not delivered; a receive error ends receiving (policy of the library).')
CLAIMS['C24'] = ('model_checking', 'every transition of the SOCKS negotiation specification replayed in the real socks4 and socks5 clients over an in-memory transport',
  'TLC enumerates targets (IPv4, IPv6, domain, with and without user and password, retargeted between connects), replies of every kind cut at any byte, extra bytes, breaks and shutdowns in each phase, over 2-3 connects; each transition is replayed in virtual time and the exact bytes are compared.')
CLAIMS['C16'] = ('model_checking', 'every transition of the service pump specification replayed in real pumps with real threads, which are counted by blocking them',
  'TLC enumerates up to 2 (thorough: 3) services, failing inits, adding, removing (by pointer, id, destruction), starting and stopping of single services and of the pump, run_service, up to 5 threads on 1-3 io_contexts, additions and removals of threads and throwing handlers. Calls come from one application thread. Adding threads while the thread inside run_service waits for the others is excluded (it blocks in boost::thread_group).')
CLAIMS['C17'] = ('model_checking', 'walks of the references specification replayed in real pumps with servers, clients and udp sockets; the recorded references validated by TLC against a specification of placements',
  'Refs.tla: services, up to 3 clients, a udp socket and a single client are created, connected, closed, renewed, listened for, given and deprived of references, the pump is stopped, restarted and gets io_contexts at run time; random walks (160, thorough 1600, of 40 steps) on 1-3 io_contexts, real threads and unix sockets. TraceRefs.tla searches a placement of the objects which explains every recorded vector.')
CLAIMS['C28'] = ('model_checking', 'every transition of the callback specification replayed in the real wrappers around client, server and udp sockets, servers and pools',
  'TLC enumerates registrations (functor or function, passed on, not passed on, default) of up to 2 (thorough: 3) of all callbacks at a time on 1-2 objects, with every result of the registered and of the built-in function; each hook is raised by a virtual call on the wrapped class, as the library does. Registering inside a callback is not explored.')
CLAIMS['C27'] = ('model_checking', 'every transition of the broadcasting specification replayed in real server and client containers; histories of threads which broadcast, add and remove under a seeded scheduler validated by TLC',
  'Broadcast.tla: 2-3 links, up to 3 (thorough: 4) messages, small and larger send buffers, links in every state (idle, writing, full, removed, closed), all six forms, priority and two-part messages; each transition is replayed and what waits, what is being written and what was written is compared. Threads: random programs of 2-3 threads with up to 4 links; a link which is there all the time must be reached, one added or removed meanwhile at most once.')
CLAIMS['C30'] = ('model_checking', 'transfers of the real file server and client through a proxy which segments the streams, the messages and raw phases on each link and the files on both sides validated by TLC; the protocol model checked for liveness',
  'Transfer.tla: gets and puts over 1-3 links of files of up to 4 bytes end with equal files, and raw data never meets a link in its control phase, for every interleaving. Binding: 72 random scripts (thorough: 600) of about 13 commands over 1-7 links, files of 0 bytes to 1 MB with sizes around the number of links and the block size, missing and uncreatable files, lists of files; what is on each link must be allowed by TraceTransfer.tla and the files on both sides must be the ones it gives. Links do not break during a transfer; the next command is given at rest (lists of files are not).')
CLAIMS['C31'] = ('model_checking', 'every transition of the specification of the reliable socket replayed in the real one over a stand-in for KCP; histories of two of them over a lossy loopback network validated by TLC',
  'Reliable.tla: sends (overflowing, prior), acknowledgements, arrivals (in order, early, repeated, junk), the periodic update, limits changed while paused, closing and restarting with and without KCP, connected or not, for up to 4 (thorough: 5) messages and windows of 1-2, in virtual time; a paused socket resumes (liveness). Two real sockets: 1-3 senders each, 1-4 service threads, losses up to 20 %, refusing handlers, three kinds of dispatching. KCP is not shipped with the library; its place takes a small protocol with the same interface, which also reports concurrent use, use after release and leaks.')
