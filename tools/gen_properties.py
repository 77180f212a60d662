#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "Coroutines run one at a time, in the order in which they became runnable",
 "Launching a coroutine runs it at once and puts its launcher at the end of the queue of runnable coroutines. "
 "Control passes to another coroutine only inside a launch, a call that has to wait, a yield, a close that has to wait, or the end of a coroutine, and then always to the coroutine that became runnable first. "
 "Every wake-up resumes its coroutine exactly once, so no runnable coroutine is lost, duplicated or starved.",
 ["programs", "schedules"], "every program of coroutines launching, yielding, sleeping, communicating, cancelling and ending, and every order of external events",
 "tests run a handful of fixed programs with two or three coroutines and check their final result, not the order of every switch",
 ["cr.c", "cr.h", "qlist.h", "slist.h", "libdill.h"],
 [("ready queue", "dill_resume/dill_wait in cr.c"), ("launch", "dill_prologue/dill_epilogue, dill_go_ macro")],
 [("ready", "queue of runnable coroutines", "struct dill_ctx_cr.ready"), ("r", "running coroutine", "struct dill_ctx_cr.r")],
 ["return of every library call, in global order"])
prop("C02", "A blocking call ends exactly once, for one cause, and leaves nothing behind",
 "A coroutine blocked in a call is resumed only by one of the events that call waits for - its partner or event, its deadline, or cancellation - and the call's result names the event that came first. "
 "Once the call has returned, nothing of it remains: no message can be delivered to or taken from it, and no timer, channel, descriptor or bundle it waited on can wake that coroutine again or disturb another waiter.",
 ["programs", "schedules"], "every interleaving of completions, timeouts and cancellations of calls that wait on several sources at once",
 "needs a particular coincidence of wake-up causes followed by later use of the same channel, descriptor, bundle or timer",
 ["cr.c", "chan.c", "libdill.c", "epoll.c.inc", "poll.c.inc"],
 [("clause cancellation", "dill_docancel, dill_chcancel, dill_timer_cancel, dill_fdcancelin/out")],
 [("clauses", "what the blocked coroutine waits on", "struct dill_cr.clauses")],
 ["return values and errno of blocking calls"])
prop("C03", "Deadlines are never early, never missed, and expire in order",
 "A call with a deadline reports a timeout only when that moment has been reached, never with an infinite deadline, and a zero deadline never waits for time to pass. "
 "While nothing is runnable the library never sleeps past the earliest pending deadline, and when it wakes it resumes all expired calls in deadline order, equal deadlines in the order the calls were made. "
 "The clock it reports follows the system clock to within a millisecond and never runs backwards.",
 ["programs", "schedules", "inputs"], "every set of concurrent deadlines (zero, past, equal, far future, infinite), added and cancelled in any order, and every early, late or interrupted return of the operating system's wait",
 "tests use one or two timers, real time and 20-1000 ms tolerances",
 ["cr.c", "rbtree.c", "now.c", "libdill.c", "chan.c"],
 [("timer tree", "dill_timer, dill_rbtree_insert/erase/first"), ("poll loop", "dill_wait"), ("time cache", "dill_now")],
 [("timers", "pending deadlines", "struct dill_ctx_cr.timers")],
 ["return values, now(), timeout passed to the system's wait"])
prop("C04", "Closing a bundle cancels and waits for every coroutine in it",
 "When closing a bundle returns, every coroutine in it - including any that are launched into it while it is being closed - has run to its end, and none of its code runs afterwards. "
 "Each such coroutine that is waiting is woken with ECANCELED, each that is runnable continues and finds its next waiting call cancelled, and coroutines outside the bundle are not cancelled, however closes nest or overlap.",
 ["programs", "schedules"], "every set of coroutines in a bundle in every mixture of states (running, runnable, blocked on anything, finished), with nested and concurrent closes and launches during the close",
 "tests close bundles of at most a few coroutines that all block in the same place",
 ["cr.c", "handle.c"],
 [("close loop", "dill_bundle_close, dill_cr_close"), ("wake the closer", "dill_epilogue")],
 [("crs", "coroutines of the bundle", "struct dill_bundle.crs"), ("closer", "who waits for the coroutine to stop", "struct dill_cr.closer")],
 ["return of hclose relative to all events of the bundle's coroutines"])
prop("C05", "A cancelled coroutine, and code inside a close, can never block or launch",
 "From the moment a coroutine is being cancelled, and whenever code runs inside a close operation, every call that could wait, launch a coroutine or create a handle fails at once with ECANCELED and has no effect on anyone else. "
 "Outside of those situations no call fails with ECANCELED, and closing, finishing channels and querying handles keep working inside them.",
 ["programs", "schedules"], "every kind of call attempted in a cancelled coroutine or inside a user-defined close, at any nesting depth of closes",
 "tests try one or two calls after a cancellation",
 ["cr.c", "handle.c", "chan.c", "libdill.c"],
 [("blocking guard", "dill_canblock, dill_no_blocking, no_blocking1/no_blocking2"), ("close context", "dill_hclose")],
 [("no_blocking1/2", "cancelled / inside a close", "struct dill_cr")],
 ["return values and errno of every call made after cancellation or inside a close callback"])
prop("C06", "Waiting for a bundle ends when its last coroutine ends, or at the deadline",
 "Waiting for a bundle succeeds at once if no coroutine in it is still running; otherwise it succeeds as soon as the last of them has ended and not before, or fails with ETIMEDOUT at its deadline without cancelling anything. "
 "This holds for several waiters at once, for coroutines added while waiting, for repeated waits, and when the bundle is closed meanwhile.",
 ["programs", "schedules"], "every order of launches, ends, timeouts, cancellations and closes around the wait",
 "tests wait once for up to three coroutines",
 ["cr.c"], [("waiter", "dill_bundle_wait, dill_epilogue")],
 [("waiter", "who waits for the bundle", "struct dill_bundle")], ["return of bundle_wait relative to the ends of coroutines"])
prop("C07", "A channel hands each message to exactly one receiver, unchanged and in order",
 "A message leaves a sender exactly when one receiver at the opposite end takes it: a send and a receive complete together, as one pair, in the order in which the callers on each side arrived. "
 "The received bytes equal the sent bytes; when the two sizes differ both calls fail with EMSGSIZE and nothing is written. "
 "The two directions of a channel are independent.",
 ["programs", "schedules", "inputs"], "every set of senders and receivers on both ends of several channels, any message sizes, with timeouts and cancellations in between",
 "tests use one to three peers and mostly one size; what is left behind by timed-out or cancelled peers is not explored",
 ["chan.c", "list.h"], [("rendezvous", "dill_chsend, dill_chrecv"), ("removal of waiters", "dill_chcancel")],
 [("in/out", "waiting receivers and senders of a direction", "struct dill_halfchan")],
 ["results and received payload of chsend/chrecv/choose"])
prop("C08", "Finishing or closing a channel ends its direction for all peers, with EPIPE",
 "After one end is finished, every later or pending send from that end and every receive at the opposite end fails with EPIPE, finishing it again fails with EPIPE, and messages already handed over are not affected; the opposite direction continues to work. "
 "When both ends are closed every call still pending on the channel fails with EPIPE, and until then closing just one end disturbs nobody.",
 ["programs", "schedules"], "every order of finishing, closing and transferring ownership of the two ends with any number of pending senders and receivers",
 "tests finish a channel with at most one or two waiting peers on one side",
 ["chan.c"], [("finish", "dill_chdone"), ("close", "dill_halfchan_close/dill_halfchan_term")],
 [("done, closed", "direction finished / end closed", "struct dill_halfchan")], ["results of channel calls"])
prop("C09", "A multi-way channel wait performs exactly one operation, the first possible",
 "A wait on several channel operations performs at most one of them and reports its index: the first in the list that can complete or is in error when the call is made, otherwise the one whose partner arrives first, otherwise a timeout. "
 "None of the other operations has any effect, then or later, even when they name the same channel, both directions of it, or two ends of one channel.",
 ["programs", "schedules", "inputs"], "every clause list (any length, repeated channels, mixed operations, sizes and invalid handles) against every state of the channels",
 "tests use up to a few clauses and one waiting peer",
 ["chan.c"], [("clause scan and wait", "dill_choose")], [("clauses", "pending clauses", "struct dill_chanclause")],
 ["index, errno and payload of choose; later operations on the same channels"])
prop("C10", "Handles are unique while open and dead once closed, moved or detached",
 "A new handle's number differs from every open one and, after a close, is not reused before at least eight other handles have been created, however many handles exist. "
 "Using a number that is not open fails with EBADF; using one with an operation its object does not offer fails with ENOTSUP; neither has any effect. "
 "Transferring ownership yields a new number for the same object and invalidates the old one, and closing runs the object's close operation exactly once.",
 ["programs", "histories"], "every history of creating, transferring, querying and closing handles of all kinds, including growth of the handle table, also from inside close operations",
 "tests create a few handles; growth of the table during calls and recycling orders are not covered",
 ["handle.c"], [("handle table and free list", "dill_hmake, dill_hown, dill_hquery, dill_hclose")],
 [("handles", "table with free list", "struct dill_ctx_handle")], ["return values of hmake/hown/hquery/hclose and of every handle-taking call"])
prop("C11", "Waiting for a descriptor ends when it is ready, in error, or timed out",
 "A wait for readability (or writability) succeeds when the descriptor is readable (writable) or in error state, and not otherwise; an expired deadline fails with ETIMEDOUT only if the descriptor was not ready. "
 "Waits in the two directions and on different descriptors are independent; a second waiter for the same direction fails with EBUSY, an invalid descriptor with EBADF, and neither disturbs existing waiters. "
 "A descriptor can be forgotten only while nobody waits for it, after which its number can be closed and reused with no trace of its past.",
 ["programs", "schedules", "fault_sequences"], "every history of waits, timeouts, cancellations, readiness changes, cleaning, closing and number reuse on any set of descriptors, with both the epoll and the poll backend",
 "tests use one descriptor pair and few waits per descriptor; the state kept per descriptor between waits is not explored",
 ["epoll.c.inc", "poll.c.inc", "libdill.c", "pollset.c"],
 [("pollset", "dill_pollset_in/out/clean/poll")], [("fdinfos, changelist, pollset", "per-descriptor wait state", "struct dill_ctx_pollset")],
 ["results of fdin/fdout/fdclean; arguments of epoll_ctl/epoll_wait/poll"])
prop("C12", "External events get through while coroutines keep the processor busy",
 "While coroutines remain runnable all the time, the library never sleeps, yet it looks for external events and expired deadlines at a switch whenever more than one second has passed since it last looked, and what it finds is queued fairly behind the coroutines already runnable.",
 ["programs", "schedules"], "every program that keeps at least one coroutine runnable, and every placement of timers and descriptor events",
 "the tests contain one busy-loop case with a timer",
 ["cr.c"], [("periodic poll", "dill_wait, last_poll")], [("last_poll", "time of last poll", "struct dill_ctx_cr.last_poll")],
 ["calls to epoll_wait/poll between switches; wake-up order"])
prop("C13", "A coroutine's registers, stack and memory are its own",
 "Across every switch a coroutine finds its local variables, registers and stack contents as it left them, however many coroutines exist and whichever way stacks were obtained. "
 "Memory supplied by the user for a coroutine, bundle or channel is all that the object uses, is never used after the object has been closed and is never released; and the stacks of finished coroutines are never handed out while still in use.",
 ["programs", "schedules", "configurations"], "every pattern of launches and ends (including more than the number of cached stacks) and every mixture of library-provided and user-provided memory",
 "tests do not verify stack contents and use user memory once",
 ["stack.c", "cr.c", "libdill.h", "chan.c"], [("context switch", "dill_setjmp/dill_longjmp, dill_go_"), ("stack cache", "dill_allocstack/dill_freestack"), ("user memory", "dill_prologue")],
 [("cache", "unused stacks", "struct dill_ctx_stack")], ["canaries in locals, stacks and around user memory"])
prop("C14", "Threads are isolated from each other",
 "Each thread that uses the library has its own coroutines, handles, timers and descriptors: what one thread does has no effect on the results another thread sees, and a thread's library state is released when the thread ends.",
 ["schedules", "programs"], "every pair of programs running in different threads at the same time, and threads started and ended repeatedly",
 "the only thread test runs two trivial threads",
 ["ctx.c", "ctx.h"], [("thread-local context", "dill_getctx, dill_ctx_init, dill_ctx_term")], [("dill_ctx_", "per-thread context", "ctx.c")],
 ["per-thread traces of all calls"])
prop("C15", "Closing releases everything, and failed calls keep nothing",
 "When all handles have been closed and all coroutines have ended, the library holds no descriptor and no memory apart from bounded caches, whatever happened before - timeouts, cancellations, peer failures. "
 "If the system refuses memory or a descriptor in the middle of a call, the call fails with that error, keeps nothing it acquired on the way, and leaves everything that existed before usable as if it had not been made.",
 ["histories", "fault_sequences"], "every history of core calls, and every single allocation failure in every allocating call",
 "tests do not inject allocation failures and do not count resources",
 ["cr.c", "chan.c", "handle.c", "stack.c", "fd.c", "tcp.c", "ipc.c"], [("error paths", "error labels of all *_mem/attach/connect/accept functions")],
 [], ["allocation and descriptor counts at quiescence"])

prop("S01", "A receive returns exactly the requested next bytes of the stream",
 "A successful receive on a connection fills the given buffers, in order and completely, with exactly the next bytes of the peer's stream, and consecutive receives lose, repeat or reorder nothing, regardless of how the bytes arrive, of the sizes requested and of how buffers are split. "
 "Parts without a buffer are skipped, and nothing outside the given buffers is written.",
 ["inputs", "schedules"], "every segmentation of the inbound stream, every sequence of receive sizes and every scatter list with empty and missing buffers, over TCP and local sockets",
 "tests exchange a few short messages delivered at once, and one large block",
 ["fd.c", "tcp.c", "ipc.c", "bsock.c", "iol.c"], [("receive loops and rx buffering", "dill_fd_recv, dill_fd_recv_, dill_fd_copy, dill_fd_skip")],
 [("rxbuf", "bytes read ahead", "struct dill_fd_rxbuf")], ["buffers after brecv/brecvl"])
prop("S02", "A send puts exactly the given bytes on the stream, completely and in order",
 "A successful send on a connection has handed all bytes of all given buffers, in order and once, to the operating system, regardless of how few bytes it accepts at a time; a failed send has handed over a prefix of them and no later send puts anything after it.",
 ["inputs", "schedules"], "every pattern of partial acceptance, every gather list with empty buffers, over TCP and local sockets",
 "tests send small blocks that the kernel accepts at once",
 ["fd.c", "tcp.c", "ipc.c", "bsock.c", "iol.c"], [("send loop", "dill_fd_send")], [], ["bytes passed to sendmsg"])
prop("S03", "Stream errors are reported faithfully, per direction, and stick",
 "A receive that meets the end of the peer's stream fails with EPIPE and so do all later ones; after any other failure of a receive (or send), including a timeout or cancellation midway, every later receive (send) fails with ECONNRESET, while the other direction stays usable. "
 "After finishing the outbound direction, sends fail with EPIPE and finishing again fails with EPIPE; while a coroutine is inside a receive (send), another one's receive (send) fails with EBUSY and harms nothing.",
 ["fault_sequences", "schedules"], "every sequence of operations, end-of-stream, resets, timeouts and cancellations in both directions",
 "tests cover single errors, not what happens after them",
 ["tcp.c", "ipc.c", "fd.c"], [("direction flags", "indone/outdone/inerr/outerr/rbusy/sbusy")], [("flags", "state of each direction", "struct dill_tcp_conn, struct dill_ipc_conn")],
 ["results of bsend/brecv/done/close"])
prop("S04", "A clean close succeeds only after both directions have ended properly",
 "Closing a connection cleanly ends the outbound direction if that was not done yet, drops the remaining inbound bytes until the peer ends its direction, and succeeds only then; if the connection has failed before, or fails or times out meanwhile, it reports the error. "
 "In every case the connection and its handle are gone afterwards, the descriptor is closed exactly once, and unless the outbound direction was ended before, the peer sees a reset and never a proper end.",
 ["fault_sequences", "schedules"], "every prior history of the connection and every behaviour of the peer during the close",
 "tests close fresh connections against a cooperative peer",
 ["tcp.c", "ipc.c", "fd.c"], [("close", "dill_tcp_close, dill_ipc_close, dill_fd_close")], [], ["result of close, wire, descriptor state, handle state"])
prop("S05", "Malformed buffer lists are rejected and left as they were",
 "A buffer list that is empty on one side only, whose given last element is not its end, or that loops is rejected with EINVAL before anything is sent or received, the connection stays usable, and every call - successful or failed - returns the list exactly as the caller passed it.",
 ["inputs"], "every shape of buffer list up to a bounded length, for every socket type",
 "tests use one invalid list for one socket type",
 ["iol.c", "bsock.c", "msock.c", "fd.c", "prefix.c", "suffix.c", "term.c"], [("list check", "dill_iolcheck and the checks in bsock.c/msock.c")], [], ["errno; list contents after the call"])
prop("S06", "Connecting and accepting yield working sockets or clean errors",
 "Connecting succeeds only when the connection was really established and otherwise reports the system's error or ETIMEDOUT; accepting returns connections in the order in which they arrived, waits if there is none, and skips ones that were aborted. "
 "Adopting a descriptor checks its type, and on every failure nothing is left open that the library opened.",
 ["fault_sequences", "schedules"], "every outcome and timing of connection establishment, and every system-call failure on the way",
 "tests connect over loopback, where establishment is immediate and never fails",
 ["tcp.c", "ipc.c", "fd.c"], [("connect/accept", "dill_fd_connect, dill_fd_accept, dill_fd_check, dill_fd_own")], [], ["results and open descriptors"])
prop("S07", "Descriptors travel over local sockets intact and in sequence with the data",
 "A descriptor sent over a local socket arrives exactly once, in its place between the bytes sent before and after it; failures on either side leave the connection in the same error states as ordinary sends and receives, never crash the process, and leak no descriptor.",
 ["inputs", "fault_sequences"], "every mixture of data and descriptors, and every failure of the peer",
 "one test passes one descriptor",
 ["ipc.c"], [("descriptor passing", "dill_ipc_sendfd, dill_ipc_recvfd")], [], ["results; identity of received descriptors"])

prop("M01", "Length-prefixed messages keep their content and boundaries",
 "Each message sent is put on the stream as its length in the configured number of bytes and byte order followed by its content, and each message received is exactly the next such unit, whatever the segmentation and buffer lists; a message too long for the length field or for the receiver's buffer fails with EMSGSIZE and is never cut. "
 "After a receive (send) fails on the stream, later ones fail with ECONNRESET; receiving without buffers drops exactly one message and reports its size.",
 ["inputs", "schedules", "fault_sequences"], "every header size and byte order, message size (including zero and the limits of the header), scatter/gather list and segmentation",
 "tests send two or three short messages with one header size",
 ["prefix.c"], [("framing", "dill_prefix_msendl, dill_prefix_mrecvl")], [("inerr/outerr", "latched errors", "struct dill_prefix_sock")], ["wire bytes; results and buffers"])
prop("M02", "Suffix-delimited messages keep their content and boundaries",
 "Each message sent is put on the stream followed by the configured delimiter, and each message received is the bytes up to the next occurrence of the delimiter, which is removed, whatever the segmentation, buffer lists and partial repetitions of the delimiter inside the message; a message longer than the buffer fails with EMSGSIZE and writes nothing beyond it. "
 "After a receive (send) error, later ones fail with ECONNRESET.",
 ["inputs", "schedules", "fault_sequences"], "every delimiter up to 32 bytes including self-overlapping ones, message content, buffer list and segmentation",
 "tests use one delimiter and three short messages",
 ["suffix.c"], [("delimiter search", "dill_suffix_mrecvl")], [], ["wire bytes; results and buffers"])
prop("M03", "The termination handshake delivers every message sent before it, then ends",
 "With a terminator layer, all messages before the peer's terminal message are delivered unchanged and then every receive fails with EPIPE; after sending the own terminal message sends fail with EPIPE while receives continue to work. "
 "Detaching sends the terminal message if needed, drops the remaining inbound messages, succeeds only after the peer's terminal message, and then returns the underlying socket positioned exactly behind it.",
 ["inputs", "histories", "schedules"], "every terminator (empty up to 32 bytes), message mix including messages that begin with or resemble the terminator, and every order of done, receive and detach on both sides",
 "tests use one terminator and one order",
 ["term.c"], [("terminal handshake", "dill_term_done, dill_term_detach, dill_term_mrecvl")], [("indone/outdone", "state of handshake", "struct dill_term_sock")], ["results; wire; position of underlying socket"])
prop("M04", "Layered sockets own what they are attached to, and give back exactly that",
 "Attaching a protocol to a socket takes it over: the old handle is invalid at once, and on failure the socket is closed. "
 "Detaching gives back a handle on the same socket, positioned just after the last unit consumed, and the protocol's own handle is invalid; detaching in an error state, and closing, close the whole stack beneath exactly once. "
 "Operations a protocol does not offer fail with ENOTSUP (EPROTO when attaching to an unsuitable socket).",
 ["programs", "fault_sequences"], "every stack of protocols and every order of attach, use, failure, detach and close",
 "tests attach and detach once, in good state",
 ["prefix.c", "suffix.c", "term.c", "http.c", "ws.c", "tls.c", "handle.c"], [("attach/detach", "*_attach_mem, *_detach, *_hclose")], [], ["validity of handles; descriptors; bytes left in the stream"])
prop("W01", "WebSocket messages keep content, type and boundaries on the wire",
 "Each message sent is one frame sequence as RFC 6455 prescribes - type, minimal length encoding, masked with the transmitted key if and only if sent by a client - and each message received is the concatenation of its fragments' unmasked content with the sender's type, whatever the fragmentation, segmentation and buffer lists. "
 "A message too long for the receiver's buffer fails with EMSGSIZE and is never cut.",
 ["inputs", "schedules"], "every message size across the length-encoding boundaries, fragmentation, masking, buffer list and segmentation",
 "tests exchange three short messages between two of the library's own endpoints",
 ["ws.c"], [("framing", "dill_ws_sendl_base, dill_ws_recvl_base")], [], ["wire bytes; results, flags and buffers"])
prop("W02", "WebSocket control frames and shutdown follow the protocol",
 "Frames that the implementation does not accept (reserved bits, opcodes it does not support, a message inside a fragmented one, bad masking, fragmented or oversized control frames, stray continuations, malformed close frames) fail with EPROTO, and after that receives fail with ECONNRESET. "
 "After the peer's close frame every receive fails with EPIPE and its status and text are available; after closing one's own direction sends fail with EPIPE while receives continue; detaching completes the closing handshake in both directions and returns the underlying socket just behind the peer's close frame.",
 ["inputs", "histories"], "every sequence of frames by the peer interleaved with every sequence of local calls",
 "tests cover one clean shutdown",
 ["ws.c"], [("control frames", "dill_ws_recvl_base"), ("shutdown", "dill_ws_done, dill_ws_detach, dill_ws_status")], [("indone/outdone/inerr/outerr", "state of each direction", "struct dill_ws_sock")], ["wire; results"])
prop("W03", "WebSocket handshake accepts exactly valid upgrades",
 "A client sends a proper upgrade request with a fresh key and accepts the connection only if the response has status 101, the required fields and the accept key that belongs to its key; a server accepts only requests with the required fields and answers with the accept key that belongs to the request's key. "
 "In every other case the attach fails with an error and the underlying socket is closed; the order of fields, the case of names and additional (short) fields do not matter.",
 ["inputs"], "every combination of present, missing, duplicate, altered and reordered fields and status lines",
 "tests connect the library's own client to its own server",
 ["ws.c", "http.c", "utils.c"], [("handshake", "ws_attach_client_mem, ws_attach_server_mem, ws_request_key, ws_response_key")], [], ["wire; result of attach"])
prop("H01", "HTTP requests, statuses and fields are carried faithfully or rejected",
 "Whatever request line, status line and fields one side sends successfully, the other side receives identically, fields in order with surrounding blanks of the value removed, and then EPIPE after the end of the header; values that cannot be represented are refused with EINVAL before anything is sent. "
 "Malformed or overlong input fails with EPROTO or EMSGSIZE without writing beyond the caller's buffers, whatever the segmentation.",
 ["inputs"], "every request, status and field content and buffer size up to and beyond the limits, and every malformed line",
 "tests exchange one fixed request and response",
 ["http.c", "term.c", "suffix.c"], [("parsing", "dill_http_recvrequest, dill_http_recvstatus, dill_http_recvfield"), ("formatting", "dill_http_sendrequest, dill_http_sendstatus, dill_http_sendfield")], [], ["results, buffers and wire"])
prop("K01", "SOCKS5 negotiation follows the RFC on both sides or fails cleanly",
 "A client's connect succeeds exactly when the proxy accepted an offered authentication method, the credentials if asked for, and the request; a proxy accepts a client exactly when it offers an acceptable method and valid credentials, and reports the requested address or name and port unchanged. "
 "Every other reply, and every truncated, malformed or refused exchange, makes the call fail with an error - never crash or misread - and consumes no byte beyond the negotiation.",
 ["inputs", "fault_sequences"], "every reply by the peer in every step, every address type, name, credential length and segmentation",
 "tests run the library's client against the library's proxy in a few good cases",
 ["socks5.c"], [("negotiation", "dill_socks5_client_connect*, dill_socks5_proxy_*")], [], ["wire; results"])
prop("U01", "UDP sockets carry each datagram unchanged, to and from the right peer",
 "A datagram is sent with exactly the given content to the given address, or the configured remote one if none is given, and a received datagram has exactly the sender's content, size and address; a datagram that does not fit the buffer fails with EMSGSIZE. "
 "A receive waits until its deadline, a send never blocks, and failures while opening a socket are reported and leave nothing open.",
 ["inputs", "fault_sequences"], "every datagram and buffer-list size, address combination, arrival time and system-call failure",
 "tests send two datagrams over loopback",
 ["udp.c"], [("send/receive", "dill_udp_sendl, dill_udp_recvl_, dill_udp_open_mem")], [], ["arguments of system calls; results and buffers"])
prop("E01", "Happy Eyeballs tries addresses in order and keeps exactly the first success",
 "Connecting by name attempts the resolved addresses one after another, IPv6 and IPv4 alternating with IPv6 first (its addresses are waited for for up to 50 ms), starting the next attempt 300 ms after the previous one, earlier attempts continuing; it returns the first connection that is established and cancels and releases all other attempts. "
 "It fails when all attempts have failed or the deadline expires, leaving nothing running or open.",
 ["schedules", "fault_sequences"], "every set of addresses of both families, timing of name resolution and outcome and timing of every attempt",
 "the test connects to one local address",
 ["happyeyeballs.c", "tcp.c", "ipaddr.c"], [("attempt schedule", "dill_happyeyeballs_coordinator, dill_happyeyeballs_attempt, dill_happyeyeballs_dnsquery")], [], ["order and time of connect calls; result; descriptors"])
prop("I01", "Addresses convert to and from text without change",
 "Resolving a literal address yields the address, family and port that it denotes, an interface name yields the first address of that interface of an allowed (first the preferred) family, formatting yields the canonical text that denotes the same address, comparison is equality of family, address and (unless ignored) port, and a literal whose family the requested mode excludes, or an invalid port, is refused with an error.",
 ["inputs"], "every literal address of both families, port and mode",
 "tests check a few literals",
 ["ipaddr.c"], [("conversion", "dill_ipaddr_local, dill_ipaddr_remote, dill_ipaddr_str, dill_ipaddr_equal")], [], ["results and text"])
prop("N01", "Looking up a name returns what the configured sources say about it, or fails",
 "Looking up a name returns addresses of the family asked for, the preferred family first, at most as many as there is space for, each taken from the hosts file or from an answer of a configured name server to a question that was asked about the name, the name with a suffix of the search list, or what it is an alias of; all of them are returned if there is space. "
 "The sources, suffixes, servers and numbers of attempts are those of the configuration; an answer cut off is asked for again over TCP; answers to other questions are ignored. Whatever a server sends, the call ends with addresses or an error by its deadline or when canceled, without crash or hang, and leaves nothing open.",
 ["inputs", "schedules", "fault_sequences"], "every configuration, sequence and content of answers, order of arrival, timing and resource failure",
 "no test looks up a name",
 ["ipaddr.c", "dns/dns.c"], [("lookup", "dill_ipaddr_remote, dill_ipaddr_remotes"), ("resolver", "dns_res_exec, dns_so_check, dns_ai_nextent, dns_d_expand, dns_resconf_search")], [], ["questions and answers on the wire; result; descriptors"])
prop("T01", "TLS sockets carry the bytestream faithfully, end it properly, and fail cleanly",
 "tls_attach returns a socket only after the handshake with the peer is complete; receives on it return exactly the bytes the peer has sent, in order, and the peer gets exactly those of the sends, in order, whatever the records, the segmentation and the other coroutines that use TLS meanwhile. "
 "EPIPE is reported once all data were received and the peer (or the underlying socket) has ended; data that were tampered with are never delivered; detaching waits for both ends and then returns the underlying socket with all that follows intact. "
 "Deadlines are those of the call, cancellation, a second coroutine (EBUSY) and every failure are reported as such, without crash or hang, and nothing is leaked: failed attaching and detaching close the underlying socket.",
 ["inputs", "schedules", "fault_sequences"], "every sequence of records, size, segmentation, order of shutdown, tampering, timing and resource failure, with TLS 1.2 and 1.3, as a client and a server",
 "the test has a single exchange of a few bytes, and fails on this platform (OpenSSL 3)",
 ["tls.c"], [("handshake", "dill_tls_attach_client_mem, dill_tls_attach_server_mem"), ("record pump", "dill_tls_followup, dill_tls_cbio_read, dill_tls_cbio_write"), ("shutdown", "dill_tls_done, dill_tls_detach")], [], ["results and buffers; what a TLS peer makes of the wire; descriptors and memory"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
