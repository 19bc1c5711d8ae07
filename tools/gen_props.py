#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": list(observe), "hook_needed": hook}})

NO = "No test runs the daemon, its seat logic or any client: the suite only has fixed cases for the connection buffer, the list and the poller."

prop("C01", "At most one client of a seat is enabled at a time",
 "The daemon never tells a client that its seat is enabled while another client of the seat has been told so and has not yet acknowledged a disable, closed the seat or disconnected. Each client sees enable and disable notices strictly alternating, starting with enable, only once its seat-open has been granted and never after its seat-close has been confirmed.",
 ["histories", "schedules"], "every order of connects, seat opens/closes, session switches, acknowledgements, disconnects and VT switches by up to four clients, in both seat modes, including requests that are processed in one batch",
 NO + " Exclusivity is a statement about all orders of events of several clients.",
 ["seatd/seat.c", "seatd/client.c"],
 [("single active client, checked before enabling", "seatd/seat.c: seat_open_client, seat_activate"), ("disable must be acknowledged before hand-over", "seatd/seat.c: seat_disable_client, seat_ack_disable_client")],
 [("active client", "the client holding the seat, if any", "include/seat.h: struct seat"), ("client state", "new/active/pending/disabled/closed", "include/client.h: enum client_state")],
 ["messages on each client's socket"])

prop("C02", "A client that loses the seat has lost its devices first",
 "Before the daemon tells a client that its seat is disabled, acknowledges a VT release, tells another client that it is enabled or confirms a seat-close, every graphics descriptor that client was handed has lost DRM master and every input descriptor it was handed has been revoked. Closing the last reference to a device, or disconnecting, does the same for the descriptors concerned.",
 ["histories", "schedules"], "every history of opens, closes, re-opens, switches, VT releases and disconnects of up to three clients with up to three devices each, observed at every system call of the daemon",
 NO + " The ordering between device revocation and the notices is only visible at the system-call boundary.",
 ["seatd/seat.c", "common/drm.c", "common/evdev.c", "common/hidraw.c"],
 [("deactivate every device, then notify", "seatd/seat.c: seat_disable_client, seat_deactivate_device"), ("close devices before removing the client", "seatd/seat.c: seat_remove_client, seat_close_device")],
 [("device active flag", "whether the daemon believes the descriptor is live", "include/seat.h: struct seat_device")],
 ["ioctl DROP_MASTER / EVIOCREVOKE / HIDIOCREVOKE on the shared open file description", "sendmsg", "VT_RELDISP"])

prop("C03", "An enabled client's devices work and DRM comes back on re-enable",
 "While a client is enabled, a device it opened in this enabled period and has not closed is neither revoked nor stripped of DRM master by the daemon. When a client is enabled again, each graphics device it still has open is DRM master again before it is told so, and opening an input device again yields a descriptor that works.",
 ["histories"], "every history of opens, closes and enable/disable cycles of up to three clients over graphics and input devices",
 NO, ["seatd/seat.c", "common/drm.c"],
 [("re-activation on enable", "seatd/seat.c: seat_open_client, seat_activate_device"), ("device reuse on open", "seatd/seat.c: seat_open_device")],
 [], ["state of the open file description behind each handed-out descriptor"])

prop("C04", "Devices are opened only for the enabled client and only permitted kinds",
 "A device request is granted only if the requesting client is enabled on its seat at that moment and the path, after resolving symbolic links and dot components, names a DRM, evdev or (where supported) hidraw node; the descriptor handed over refers to exactly that node, open for reading and writing and non-blocking. In every other case the daemon opens nothing and the client gets an error reply: EPERM when it is not enabled, ENOENT for an unsupported path, else the reason opening failed.",
 ["inputs", "histories"], "every path of a small file system with symlinks, dot-dot, prefixes and near-miss names, every path length, in every client state",
 NO + " The decision depends on path shape times client state.",
 ["seatd/seat.c", "seatd/client.c", "common/drm.c", "common/evdev.c", "common/hidraw.c"],
 [("state check, realpath, kind whitelist, O_NOFOLLOW open", "seatd/seat.c: seat_open_device")],
 [], ["open() calls of the daemon", "replies and descriptors on the client's socket"])

prop("C05", "Device handles: distinct ids, reference counts, isolation and limit",
 "A client's open devices have distinct positive ids; opening a device it already has open in working order gives the same id again and that device stays open until closed as often as it was opened. Closing affects exactly the named device of the requesting client, and an id the client does not hold is answered with EBADF and changes nothing. A client can hold 128 devices; one more is refused with EMFILE without harm and works again after a close.",
 ["histories", "inputs"], "every open/close sequence over three devices and two clients up to the explored depth, every device count from 0 to 130, ids outside the held set including 0, negative and other clients' ids",
 NO, ["seatd/seat.c", "seatd/client.c"],
 [("id allocation, reference count and limit", "seatd/seat.c: seat_open_device, seat_close_device, seat_find_device")],
 [("ref_cnt, device_id", "per open device", "include/seat.h: struct seat_device")], ["replies on the client's socket", "descriptor table of the daemon"])

prop("C06", "Every request gets exactly one matching reply, in order",
 "For each connected client the daemon answers every complete well-formed request with exactly one reply of the kind belonging to that request or an error reply, in request order, with the documented layout, a descriptor travelling with exactly the device-opened replies; the enable and disable notices are the only other messages. The daemon drops a client only for a malformed, out-of-protocol or refused seat request, an I/O failure, or because it disconnected.",
 ["histories", "inputs"], "every sequence of requests by up to three clients up to the explored depth, sent one at a time or pipelined",
 NO, ["seatd/client.c", "include/protocol.h"],
 [("request dispatch", "seatd/client.c: client_handle_opcode and the handle_* functions")], [], ["byte stream on the client's socket"])

prop("C07", "Replies do not depend on how the byte stream is cut",
 "However a client's request stream is split or coalesced by the transport, including requests that wrap around internal buffers or are as long as the protocol allows, the daemon produces the same replies and the same seat behaviour as when each request arrives whole.",
 ["inputs", "schedules"], "every placement of up to two cut points in request streams covering all request types, every message length the protocol allows, at every starting offset of the receive buffer",
 "The connection tests send a few fixed messages that never wrap, never arrive split and never reach the daemon's parser.",
 ["seatd/client.c", "common/connection.c"],
 [("put back an incomplete request", "seatd/client.c: client_handle_connection with common/connection.c: connection_restore")], [], ["byte stream on the client's socket"])

prop("C08", "Hostile bytes only ever cost the sender its connection",
 "Whatever bytes, descriptors or half-closes a client sends, the daemon does not crash, corrupt memory, hang or spin, grants it nothing it could not get by well-formed requests, and other clients keep their seat, devices and service. A request with an unknown type, wrong size, over-long or unterminated path, or not allowed in the client's state gets the sender disconnected or an error reply.",
 ["inputs", "histories"], "every message type 0..65535, every declared size against every path length field near the limits, every truncation, unsolicited descriptors, in every client state, with another client enabled",
 NO, ["seatd/client.c", "common/connection.c", "seatd/server.c"],
 [("size checks per request", "seatd/client.c: client_handle_opcode"), ("destroy on error", "seatd/client.c: client_handle_connection")], [], ["daemon survival under AddressSanitizer", "sockets of the other clients"])

prop("C09", "The seat is handed over and never left idle",
 "Whenever the daemon is idle and no client is enabled or being disabled, no client that could be enabled is waiting: on a seat without VTs any open client, on a VT-bound seat a client whose session is the VT in the foreground. In particular, when the enabled client closes its seat, disconnects or acknowledges a disable, an eligible waiting client is enabled at once.",
 ["histories", "schedules"], "every history of up to four clients in both seat modes up to the explored depth",
 NO + " It is a progress property over all histories.",
 ["seatd/seat.c"],
 [("choose the next client", "seatd/seat.c: seat_activate, called from seat_remove_client, seat_ack_disable_client, seat_vt_activate")], [], ["notices on the clients' sockets"])

prop("C10", "Session switch requests hand the seat to the requested session",
 "On a seat without VTs, when the enabled client asks for another existing session, it is told to disable and, once it acknowledges or leaves, that session and no other is enabled unless it has left. Requests for its own session or while a switch is pending change nothing and succeed or are refused, and a request for a session that does not exist (including numbers below one), or from a client that is not enabled, gets an error and changes nothing. On a VT-bound seat the request makes the kernel switch to that VT.",
 ["histories"], "every history of switches among up to four clients with every session number from -1 to 5, mixed with disconnects, closes and acknowledgements",
 NO, ["seatd/seat.c", "seatd/client.c"],
 [("queued next client", "seatd/seat.c: seat_set_next_session, seat_activate")], [("next client", "target of a pending switch", "include/seat.h: struct seat")], ["notices on the clients' sockets", "VT_ACTIVATE"])

prop("C11", "Every VT release and acquire request of the kernel is answered",
 "On a VT-bound seat, each kernel request to release or acquire a VT is answered by the daemon, so a VT switch is never left hanging, even if the signals arrive while it is busy with something else or several arrive together; the enabled client is told to disable before the release is acknowledged.",
 ["schedules", "histories"], "every history of VT switches and client activity up to the explored depth, with the signal delivered at every system-call boundary of the daemon",
 NO + " Signal arrival points are a schedule quantifier.",
 ["seatd/seat.c", "seatd/server.c", "seatd/poller.c", "common/terminal.c"],
 [("signal to callback", "seatd/poller.c: signal_handler, dispatch"), ("acknowledge", "seatd/seat.c: seat_vt_release, seat_vt_activate, vt_ack")], [], ["VT_RELDISP", "kernel VT state"])

prop("C12", "A VT-bound seat has at most one session per VT, owned by the VT's client",
 "On a VT-bound seat a client is admitted only if the foreground VT has no session yet and no enabled client holds the seat; otherwise it is refused without disturbing anyone. A client is only ever enabled while its own VT is in the foreground.",
 ["histories", "schedules"], "every history of seat opens, VT switches, acknowledgements and departures of up to four clients on three VTs",
 NO, ["seatd/seat.c"],
 [("admission check", "seatd/seat.c: seat_add_client"), ("session number is the VT", "seatd/seat.c: seat_activate")], [("session, current VT", "VT a client belongs to, VT in front", "include/client.h, include/seat.h")], ["notices on the clients' sockets", "kernel VT state"])

prop("C13", "VTs are graphical exactly while a session owns them",
 "When a client is enabled on a VT, that VT is in graphics mode with keyboard input off and switching under the daemon's control. Once the session is gone, by closing, disconnecting or daemon shutdown, in whatever state it was and whichever VT is in front, its VT is back in text mode with the keyboard on. A daemon whose seat has no VTs changes no VT.",
 ["histories", "schedules"], "every history of up to three clients on three VTs up to the explored depth, ended by a close, a disconnect or a termination signal at every point",
 NO, ["seatd/seat.c", "common/terminal.c"],
 [("configure and restore the VT", "seatd/seat.c: vt_open, vt_close, seat_remove_client")], [], ["KDSETMODE / KDSKBMODE / VT_SETMODE state of each VT"])

prop("C14", "A departing client leaves nothing behind in the daemon",
 "After a client has disconnected or been dropped, at whatever point of whatever history, the daemon holds no descriptor, device, memory, event source or session of it: its descriptor table and allocations are what they would be had the client never come. This includes descriptors queued in either direction.",
 ["histories", "fault_sequences"], "every history up to the explored depth ending in the departure of each client, including with partly received requests, unsent replies and unsolicited descriptors",
 NO, ["seatd/client.c", "seatd/seat.c", "seatd/poller.c", "common/connection.c"],
 [("teardown", "seatd/client.c: client_destroy"), ("deferred removal of event sources", "seatd/poller.c: regenerate")], [], ["descriptor table and heap of the daemon"])

prop("C15", "A client that does not read delays only itself and loses nothing",
 "When a client's socket accepts no more data or only part of it, its replies, notices and descriptors are kept and delivered complete and in order once it reads again, or the client is disconnected; they are never lost, duplicated or torn while it stays connected. Other clients are served meanwhile.",
 ["schedules", "histories"], "every choice of full and partial writes at each send, socket capacities down to one message, with the client reading at any later point",
 NO + " The tests' sockets are never full.",
 ["common/connection.c", "seatd/client.c", "seatd/poller.c"],
 [("want_flush and EVENT_WRITABLE", "seatd/client.c: client_flush, client_handle_connection"), ("flush loop", "common/connection.c: connection_flush")], [], ["byte stream on the client's socket"])

prop("C16", "A failing kernel call is contained",
 "If any system call or allocation the daemon makes on behalf of a client fails, the daemon neither crashes nor leaks; the client concerned gets an error reply with the reason, is disconnected, or is served as far as possible all the same (but is never told that its device was opened or its switch begun when it was not); other clients are unaffected, and the seat's exclusivity and service to later requests continue.",
 ["fault_sequences"], "every system call and allocation of the daemon in a set of multi-client scenarios failing with each plausible error, one fault per run (two in the thorough tier)",
 NO + " No test injects a failure.",
 ["seatd/seat.c", "seatd/client.c", "seatd/server.c", "common/terminal.c", "common/connection.c", "seatd/poller.c"],
 [("error paths", "seatd/seat.c: seat_open_device, seat_open_client; seatd/client.c: handle_open_device; seatd/server.c: server_add_client")], [], ["daemon survival, descriptor table, clients' sockets"])

prop("C17", "Termination is orderly from every state",
 "On SIGINT or SIGTERM, at whatever point it arrives, the daemon exits with status 0 after disabling access to every device it handed out, restoring every VT, disconnecting every client and removing its socket, touching no freed memory. When it can no longer wait for events it gives up in the same orderly way, with a non-zero status.",
 ["schedules", "histories"], "a termination signal at every system-call boundary of every history up to the explored depth",
 NO, ["seatd/server.c", "seatd/seatd.c", "seatd/client.c", "seatd/poller.c"],
 [("finish", "seatd/server.c: server_handle_kill, server_finish")], [], ["exit status, file system, VT and device state"])

prop("C18", "Start-up is safe and announces readiness only when serving",
 "The daemon refuses to start on a path holding a non-socket, and on any existing file when told not to replace one; otherwise it replaces a stale socket. With an owner or group given the socket has mode 0770 and that ownership before readiness is announced, and in no moment is it connectable by others given a normal umask. Readiness (one newline, then close) is signalled only once connections are accepted; if any step fails it exits non-zero, announces nothing and leaves no socket it created.",
 ["configurations", "fault_sequences"], "every combination of options and pre-existing file kinds, with every system call failing",
 NO, ["seatd/seatd.c", "seatd/server.c"],
 [("option handling, socket creation, readiness", "seatd/seatd.c: main, open_socket")], [], ["file system, exit status, readiness pipe"])

prop("C19", "The embedded daemon serves its one client and ends with it",
 "With the builtin backend the application gets a seat served by a private daemon that behaves as seatd does for that client. When the application closes the seat's connection or dies at any point, the private daemon revokes the devices, restores the VT and exits.",
 ["histories", "schedules"], "every history of the one client up to the explored depth, with disconnection at each point, and failures at start",
 NO, ["libseat/backend/seatd.c", "seatd/client.c", "seatd/server.c"],
 [("fork and serve", "libseat/backend/seatd.c: builtin_open_seat"), ("stop when the client goes", "seatd/client.c: client_destroy")], [], ["child process exit, device and VT state"])

prop("T01", "The connection delivers exactly the bytes put, in order",
 "For every sequence of put, flush, read, get and restore operations, with any partial or refused transfer by the socket, the receiver gets exactly the bytes the sender successfully put, once and in order, across buffer wrap-around and counter overflow. A put larger than the buffer fails cleanly, a get of more than is available fails without consuming, and restoring makes the same bytes available again.",
 ["inputs", "schedules", "histories"], "every (offset, fill level, size) combination of the ring buffers, every partial-transfer pattern with up to three deviations, all operation sequences up to the explored depth, and passage of more than 4 GiB",
 "Tests put a handful of fixed messages into fresh buffers; nothing wraps, nothing is partial, no descriptor is sent.",
 ["common/connection.c"], [("ring buffer and iovec construction", "common/connection.c: connection_buffer_*, connection_flush, connection_read")], [("head, tail", "free-running ring indices", "include/connection.h")], ["byte sequence out of connection_get"])

prop("T02", "The connection passes descriptors once, in order, without leaks",
 "Descriptors queued on a connection arrive at the peer in order, each exactly once and attached to data not sent before it was queued; the sender's copies are closed once sent. Queueing beyond the connection's room, or receiving into it more than it has room for (besides what the kernel already discarded from an oversized message), is reported as an error and no surplus descriptor stays open; closing a connection's descriptors closes each remaining one exactly once.",
 ["inputs", "schedules", "histories"], "every number of queued descriptors up to beyond capacity, every partial or refused transfer, all operation sequences up to the explored depth",
 "No test sends a descriptor.",
 ["common/connection.c"], [("control message construction and parsing", "common/connection.c: build_cmsg, decode_cmsg, connection_buffer_close_fds")], [], ["descriptor tables of both sides"])

prop("P01", "The poller calls exactly the live, ready sources",
 "In one iteration the poller calls each registered source that the system reported ready once, with exactly the reported events translated, and no other; a source removed, even by another callback in the same iteration, is never called again, and sources added or re-masked during callbacks take effect from the next iteration. This holds for any number of sources.",
 ["histories", "schedules"], "every ready set and event combination times every action (remove self or other, change mask, add) in each callback, for up to three sources over three iterations, and source counts up to 200",
 "Tests register two sources and never remove, update or add from a callback.",
 ["seatd/poller.c"], [("deferred removal, regeneration", "seatd/poller.c: event_source_fd_destroy, regenerate, dispatch")], [("dirty, pollfd_idx, killed", "bookkeeping of deferred changes", "seatd/poller.c")], ["callback invocations", "arguments of poll()"])

prop("P02", "No signal is lost or invented by the poller",
 "Every delivery of a watched signal is followed by at least one call of each of its live callbacks that starts after the delivery, without needing any further event, wherever in the poller or in a callback the signal lands; callbacks are never called more often than the signal was delivered, nor after removal. An interrupted wait is resumed and other errno values are preserved by the handler.",
 ["schedules"], "one to three signal deliveries at every system-call boundary of poll iterations with up to three signal sources and one descriptor source",
 "Tests raise signals only while the process is outside the poller.",
 ["seatd/poller.c"], [("raised flag and self-pipe", "seatd/poller.c: signal_handler, dispatch")], [], ["callback invocations"])

prop("P03", "The intrusive list behaves as a sequence",
 "Inserting after an element, removing, testing for emptiness and moving one list behind another's head act as on a mathematical sequence, forwards and backwards, from every reachable arrangement, and leave all other elements alone.",
 ["histories"], "all operation sequences up to the explored depth over two lists and four elements, all reachable arrangements",
 "Tests run a dozen fixed sequences and mostly walk forwards.",
 ["common/linked_list.c"], [("pointer updates", "common/linked_list.c")], [], ["next/prev walks"])

prop("L01", "libseat delivers each enable and disable event once and in order",
 "With the seatd backend the listener is called exactly once per enable or disable notice the daemon sent, in the order sent, with the application's data pointer, and only from within open, dispatch or close. It does not matter whether the notices arrive alone, together, split, before or after a reply, or during a blocking call, including from inside a callback.",
 ["schedules", "inputs"], "every interleaving of notices with replies and API calls up to the explored depth, every split of the byte stream",
 "No test touches libseat.",
 ["libseat/backend/seatd.c"], [("event queue", "libseat/backend/seatd.c: read_and_queue, queue_event, execute_events, dispatch")], [("pending events", "notices read but not yet delivered", "libseat/backend/seatd.c")], ["listener callbacks"])

prop("L02", "libseat calls return the daemon's verdict for that very request",
 "With the seatd backend each request returns success exactly if the daemon granted it; a granted open-device returns the daemon's device id and the descriptor sent with it, and a refused request returns -1 with errno set to the daemon's error code, whatever notices or pongs arrive around the reply. Over-long paths and negative numbers are refused with EINVAL without contacting the daemon, and a path of any accepted length is transmitted exactly.",
 ["inputs", "schedules"], "every request kind times every verdict and error code times every placement of up to two notices or pongs around the reply and every cut of the stream; every path length",
 "No test touches libseat.",
 ["libseat/backend/seatd.c"], [("synchronous request", "libseat/backend/seatd.c: read_until_response, read_header, open_device")], [], ["return values, errno, descriptors"])

prop("L03", "An application sleeping on the libseat fd is always woken for events",
 "Whenever a libseat call returns with an enable or disable event received but not yet delivered to the listener, the connection descriptor is readable or becomes readable without any further action by the application or event in the system, so that polling it and dispatching delivers the event. Dispatch returns at once when given timeout 0, waits no longer than the timeout given, and does not wait once it has delivered something.",
 ["schedules"], "every interleaving of notices with replies, pongs and API calls up to the explored depth against the real daemon and a scripted one",
 "No test touches libseat.",
 ["libseat/backend/seatd.c", "seatd/client.c"], [("ping the daemon when events are queued", "libseat/backend/seatd.c: check_pending_events")], [("awaiting_pong", "a wake-up is already under way", "libseat/backend/seatd.c")], ["readability of the connection fd"])

prop("L04", "libseat survives a lost or misbehaving daemon",
 "If the daemon's end closes at any byte, sends malformed, unexpected, truncated or oversized messages, or a system call fails, the pending libseat call returns -1 instead of hanging or crashing, dispatch with any timeout reports the loss, later calls fail, and no memory or descriptor is leaked or closed twice. Opening fails with NULL and closing always frees the seat.",
 ["inputs", "fault_sequences"], "every truncation point of every reply, every reply type with wrong size, missing descriptor or wrong type, at every point of API histories up to the explored depth; every single system-call failure",
 "No test touches libseat.",
 ["libseat/backend/seatd.c", "common/connection.c"], [("sticky error", "libseat/backend/seatd.c: set_error, cleanup, destroy")], [("error", "connection is dead", "libseat/backend/seatd.c")], ["return values, errno, descriptor table, heap"])

prop("L05", "Applications and daemon agree end to end about who has the seat",
 "With real libseat applications on a real daemon, in every interleaving: at most one application has been told enabled and not yet acknowledged a disable, every call returns, and once everything is quiet each application's last delivered event matches the daemon's view, with one enabled application if any could be.",
 ["schedules", "histories"], "every interleaving up to the preemption bound of two libseat applications, the daemon, VT switches and departures, in both seat modes",
 "No test runs client and server together.",
 ["libseat/backend/seatd.c", "seatd/client.c", "seatd/seat.c"], [("protocol between library and daemon", "include/protocol.h")], [], ["listener callbacks, return values"])

prop("L06", "The backend asked for is the backend used",
 "With LIBSEAT_BACKEND set, only the named backend is tried and an unknown name fails with EINVAL; without it the enabled backends are tried in the order seatd, logind, builtin until one opens, never noop, failing with ENOSYS when none does. A missing listener or callback is refused with EINVAL before anything is tried; the seatd backend connects to SEATD_SOCK if set, else to the default path.",
 ["configurations"], "every value of LIBSEAT_BACKEND over known, unknown and empty names, every combination of backends succeeding or failing, every listener shape, SEATD_SOCK set and unset",
 "No test touches libseat.",
 ["libseat/libseat.c", "libseat/backend/seatd.c"], [("backend table", "libseat/libseat.c: libseat_open_seat")], [], ["system calls made, return value, errno"])

prop("L07", "The noop backend grants everything and enables once",
 "The noop backend enables the seat exactly once, at the first dispatch, and dispatch never waits after delivering that event. It opens exactly the named file read-write without following a final link, returns a non-negative id, accepts every close and disable, refuses session switches and releases its own descriptors and memory on close, with failures of any system call reported as errors.",
 ["histories", "fault_sequences"], "all API sequences up to the explored depth with every single system-call failure",
 "No test touches libseat.",
 ["libseat/backend/noop.c"], [("noop backend", "libseat/backend/noop.c")], [], ["return values, descriptor table"])

prop("L08", "The logind backend mirrors the session's activity and device state",
 "The logind backend tells the application enabled or disabled exactly when the session's activity changes, never the same twice in a row after the first report. A device pause request is answered only after the application was told to disable, forced and gone notices are not answered, and devices are taken and released by the device numbers of the path or descriptor. All this concerns the session named by XDG_SESSION_ID, else that of the process, else the user's primary one, and the seat it is on; signals of other senders, sessions, interfaces or properties change nothing. A device or session call succeeds exactly when logind grants it and otherwise fails with errno set; no report stays undelivered to an application that dispatches whenever the descriptor is readable, and a lost bus is reported by dispatch. Errors at any step make the call fail without leaks or memory corruption; closing releases control and leaves no handler behind on a bus shared with the application.",
 ["histories", "fault_sequences"], "all sequences of bus signals and API calls up to the explored depth against a model of logind, with each bus call failing",
 "No test touches libseat; the backend needs a running logind.",
 ["libseat/backend/logind.c"], [("signal handlers", "libseat/backend/logind.c: handle_pause_device, handle_properties_changed, set_active")], [("active, initial_setup", "last reported activity", "libseat/backend/logind.c")], ["listener callbacks, bus calls"])

prop("L09", "No descriptor of libseat reaches programs the application runs",
 "Every descriptor that libseat creates in the application or hands to it, with any backend - the connection, devices, internal sockets and duplicates - is close-on-exec from the moment it exists, so that a program the application runs at any time, from any thread, inherits none of them.",
 ["histories", "fault_sequences"], "the moment every descriptor comes into being in all explored histories of all backends, failing calls included",
 "No test touches libseat.",
 ["libseat/backend/seatd.c", "libseat/backend/noop.c", "libseat/backend/logind.c", "common/connection.c"],
 [("socket creation, descriptor reception and duplication", "libseat/backend/seatd.c: seatd_connect, _open_seat; libseat/backend/noop.c: _open_seat; libseat/backend/logind.c: open_device; common/connection.c: connection_read")], [], ["the application's descriptor table"])

prop("X01", "seatd-launch runs the command unprivileged and only behind a ready daemon",
 "The command is started only after the daemon has announced readiness, the socket is owned by the calling user with mode 0700, and user and group ids have been set to those of the caller, group first; it finds the socket in SEATD_SOCK and inherits none of the launcher's own descriptors. The daemon is started with an empty environment; if any step fails or the daemon ends or gives up before it is ready, the command is not run, the daemon if it still runs is told to terminate and the launcher exits non-zero.",
 ["fault_sequences", "schedules"], "every system call of the launcher failing or interrupted, the daemon dying or announcing readiness at each point",
 "No test runs seatd-launch.",
 ["seatd-launch/seatd-launch.c"], [("start, wait, restrict, drop, run", "seatd-launch/seatd-launch.c: main")], [], ["system-call trace and credentials at exec"])

prop("X02", "seatd-launch ends with its command's status and takes the daemon down",
 "When the command ends, seatd-launch tells the daemon to terminate and exits with the command's exit status, or with 128 plus the number of the signal that ended it, whatever interruptions it sees while waiting; if it cannot learn that status it still tells the daemon to terminate, and exits non-zero. A usage error exits non-zero without starting anything.",
 ["inputs", "schedules"], "every exit status 0..255 and every signal number, interruptions at every wait, all option combinations",
 "No test runs seatd-launch.",
 ["seatd-launch/seatd-launch.c"], [("wait and translate status", "seatd-launch/seatd-launch.c: main")], [], ["exit status, kill calls"])

prop("G01", "Logging is filtered by level, complete and free of side effects",
 "A message reaches the installed handler exactly if its level is at or below the current one, with its text and arguments intact; resetting the handler restores standard error. Logging never changes errno or any behaviour of the library or daemon, at whatever level.",
 ["configurations", "histories"], "every pair of message and current level, all sequences of handler and level changes up to the explored depth, and daemon histories repeated at every log level",
 "No test covers logging.",
 ["common/log.c"], [("level check and errno save", "common/log.c: _logf")], [], ["handler invocations, errno"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
