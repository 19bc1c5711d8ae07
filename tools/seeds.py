"""Planted bugs: see seed.py.  Each is written from the text of a property."""
DEMO = open(__file__.rsplit("/", 1)[0] + "/demokit/demo.sh").read()
ALL = []


def daemon(id, prop, edits, needs, breaks, body, vt=0, sh=DEMO, pre=""):
    c = '#include "kit.h"\n%s\nint main(void) {\n\tkit_init(%d);\n%s\n\tputs("ok");\n}\n' % (pre, vt, body.rstrip())
    ALL.append({"id": id, "property": prop, "edits": edits, "needs": needs, "breaks": breaks,
                "files": {"demo.c": c, "demo.sh": sh}, "kit": ["kit.h"]})


SEAT = "seatd/seat.c"
CLI = "seatd/client.c"

daemon("c05-id-from-count", "C05", [
    (SEAT, "		if (old_device->device_id >= device_id) {\n			device_id = old_device->device_id + 1;\n		}\n		device_count++;",
     "		device_count++;\n		device_id = (int)device_count + 1;")],
    "three different devices opened, the first or second closed, and another one opened while the others stay open",
    "Device ids are derived from the number of open devices, so after a close a new device gets the id of one still open; closing by that id then closes the wrong device.",
    r"""
	struct cl *a = cl_new();
	CHECK(open_seat(a) && cl_expect(a, SERVER_ENABLE_SEAT, NULL));
	int id[4];
	const char *p[4] = {"/dev/dri/card0", "/dev/dri/card1", "/dev/input/event0", "/dev/input/event1"};
	for (int i = 0; i < 3; i++) {
		cl_opendev(a, p[i]); pump();
		CHECK(cl_expect(a, SERVER_DEVICE_OPENED, &id[i]));
	}
	cl_int(a, CLIENT_CLOSE_DEVICE, id[0]); pump();
	CHECK(cl_expect(a, SERVER_DEVICE_CLOSED, NULL));
	cl_opendev(a, p[3]); pump();
	CHECK(cl_expect(a, SERVER_DEVICE_OPENED, &id[3]));
	CHECK(id[3] != id[1] && id[3] != id[2] && id[1] != id[2]);""")

daemon("c03-shared-drm-stays-down", "C03", [
    (SEAT, "	case SEAT_DEVICE_TYPE_DRM:\n		if (drm_set_master(seat_device->fd) == -1) {\n			log_errorf(\"Could not make device fd drm master: %s\", strerror(errno));\n		}\n		seat_device->active = true;",
     "	case SEAT_DEVICE_TYPE_DRM:\n		if (seat_device->ref_cnt == 1 && drm_set_master(seat_device->fd) == -1) {\n			log_errorf(\"Could not make device fd drm master: %s\", strerror(errno));\n		}\n		seat_device->active = true;")],
    "a graphics device opened twice by the same client, which is then switched away from and back to",
    "A graphics device with more than one reference is not made DRM master again when its client is enabled again.",
    r"""
	struct cl *a = cl_new();
	CHECK(open_seat(a) && cl_expect(a, SERVER_ENABLE_SEAT, NULL));
	struct cl *b = cl_new();
	CHECK(open_seat(b));
	int id;
	cl_opendev(a, "/dev/dri/card0"); pump(); CHECK(cl_expect(a, SERVER_DEVICE_OPENED, &id));
	int fd = cl_fd(a);
	cl_opendev(a, "/dev/dri/card0"); pump(); CHECK(cl_expect(a, SERVER_DEVICE_OPENED, &id));
	CHECK(dev_live(fd));
	for (int s = 0; s < 4 && !b->enabled; s++) {
		cl_int(a, CLIENT_SWITCH_SESSION, s); pump();
		while (cl_next(a, NULL)) {}
		if (!a->enabled) { cl_req(a, CLIENT_DISABLE_SEAT, "", 0); pump(); }
		cl_next(b, NULL);
	}
	CHECK(b->enabled && !dev_live(fd));
	cl_close(b); pump();
	while (cl_next(a, NULL)) {}
	CHECK(a->enabled);
	CHECK(dev_live(fd));""")

daemon("c02-stop-at-first-failure", "C02", [
    (SEAT, "			log_errorf(\"Could not deactivate %s: %s\", device->path, strerror(errno));\n		}",
     "			log_errorf(\"Could not deactivate %s: %s\", device->path, strerror(errno));\n			break;\n		}")],
    "two open devices and the kernel refusing to drop master on the one looked at first when the client is disabled",
    "When taking access away fails for one device, the client's remaining devices keep working after it was told that its seat is disabled.",
    r"""
	struct cl *a = cl_new();
	CHECK(open_seat(a) && cl_expect(a, SERVER_ENABLE_SEAT, NULL));
	int id, fd[2];
	const char *p[2] = {"/dev/input/event0", "/dev/input/event1"};
	for (int i = 0; i < 2; i++) {
		cl_opendev(a, p[i]); pump(); CHECK(cl_expect(a, SERVER_DEVICE_OPENED, &id));
		fd[i] = cl_fd(a);
		CHECK(dev_live(fd[i]));
	}
	kit_on_ioctl = note;
	kvt_go(2); pump();
	CHECK(cl_expect(a, SERVER_DISABLE_SEAT, NULL));
	CHECK(dev_live(fd[0]) + dev_live(fd[1]) <= 1);""", vt=1,
    pre=r"""
static int first = 1;
static void note(unsigned long req, long arg) {
	(void)arg;
	if (first && (req >> 8 & 0xff) == 'E') { first = 0; kit_fail_ioctl = 1; kit_fail_req = req; }
}""")

daemon("c10-left-target-stays-queued", "C10", [
    (SEAT, "	if (seat->next_client == client) {\n		seat->next_client = NULL;\n	}",
     "	if (seat->next_client == client && client->state == CLIENT_DISABLED) {\n		seat->next_client = NULL;\n	}")],
    "a switch to a session that was never enabled yet and leaves before the present client acknowledges",
    "A client that leaves while a switch to it is pending stays queued unless it had been enabled before, so the acknowledgement enables a client that is gone instead of one that waits.",
    r"""
	struct cl *a = cl_new(), *b, *c;
	CHECK(open_seat(a) && cl_expect(a, SERVER_ENABLE_SEAT, NULL));
	c = cl_new(); CHECK(open_seat(c));
	b = cl_new(); CHECK(open_seat(b));
	cl_int(a, CLIENT_SWITCH_SESSION, 3); pump();
	while (cl_next(a, NULL)) {}
	CHECK(!a->enabled);
	cl_req(b, CLIENT_CLOSE_SEAT, "", 0); pump();
	while (cl_next(b, NULL)) {}
	cl_req(a, CLIENT_DISABLE_SEAT, "", 0); pump();
	CHECK(cl_expect(a, SERVER_SEAT_DISABLED, NULL));
	while (cl_next(c, NULL)) {}
	while (cl_next(b, NULL)) {}
	while (cl_next(a, NULL)) {}
	CHECK(!b->enabled);
	CHECK(c->enabled || a->enabled);""")

daemon("c06-unknown-device-drops", "C06", [
    (CLI, "		log_error(\"No such device\");\n		errno = EBADF;\n		goto fail;",
     "		log_error(\"No such device\");\n		if (client->state == CLIENT_PENDING_DISABLE) {\n			return -1;\n		}\n		errno = EBADF;\n		goto fail;")],
    "closing a device id the client does not hold in the window between the disable notice and its acknowledgement",
    "A client that is being disabled gets disconnected instead of an error reply when it names a device it does not hold.",
    r"""
	struct cl *a = cl_new(), *b;
	CHECK(open_seat(a) && cl_expect(a, SERVER_ENABLE_SEAT, NULL));
	b = cl_new(); CHECK(open_seat(b));
	cl_int(a, CLIENT_SWITCH_SESSION, 2); pump();
	while (cl_next(a, NULL)) {}
	CHECK(!a->enabled);
	int e = 0;
	cl_int(a, CLIENT_CLOSE_DEVICE, 42); pump();
	CHECK(cl_expect(a, SERVER_ERROR, &e) && e == EBADF);""")

daemon("c15-writable-interest-lost", "C15", [
    ("seatd/client.c", "		} else if (len >= 0) {\n			event_source_fd_update(client->event_source, EVENT_READABLE);\n		}",
     "		} else {\n			event_source_fd_update(client->event_source, EVENT_READABLE);\n		}")],
    "a client that stops reading until the daemon holds output for it, and whose socket then takes only a part of that output",
    "After a flush that could not send everything, the daemon stops waiting for the socket to become writable and the rest of the output stays behind.",
    r"""
	struct cl *a = cl_new();
	CHECK(open_seat(a) && cl_expect(a, SERVER_ENABLE_SEAT, NULL));
	kit_send_room = 0;
	for (int i = 0; i < 3; i++) cl_req(a, CLIENT_PING, "", 0);
	pump();
	kit_send_room = 5;
	pump();
	kit_send_room = -1;
	pump();
	int n = 0;
	while (cl_next(a, NULL) == SERVER_PONG) n++;
	CHECK(n == 3);""")

daemon("c14-fd-of-unsent-device", "C14", [
    ("common/connection.c", "void connection_close_fds(struct connection *connection) {\n	connection_buffer_close_fds(&connection->fds_in);\n	connection_buffer_close_fds(&connection->fds_out);",
     "void connection_close_fds(struct connection *connection) {\n	connection_buffer_close_fds(&connection->fds_in);\n	if (connection->want_flush == 0) {\n		connection_buffer_close_fds(&connection->fds_out);\n	}")],
    "a client that leaves while a descriptor for it is still queued because its socket takes no more data",
    "Descriptors queued for a client whose output could not be sent stay open in the daemon after it has left.",
    r"""
	struct cl *w = cl_new();
	CHECK(open_seat(w)); cl_close(w); pump();
	int base = nfds_open();
	struct cl *a = cl_new();
	CHECK(open_seat(a) && cl_expect(a, SERVER_ENABLE_SEAT, NULL));
	int id, seen = 0;
	for (int i = 0; i < 100000 && !seen; i++) {
		uint16_t h[2] = {CLIENT_PING, 0};
		if (send(a->fd, h, 4, MSG_NOSIGNAL | MSG_DONTWAIT) != 4) break;
		pump();
		seen = out() >= 4;
	}
	CHECK(seen);
	cl_opendev(a, "/dev/input/event3"); pump();
	cl_close(a); pump();
	CHECK(nfds_open() == base);
	(void)id;""",
    pre=r"""
static int out(void) {
	struct seat *s = (struct seat *)srv.seats.next;
	if (linked_list_empty(&s->clients)) return 0;
	struct client *c = (struct client *)s->clients.next;
	return (int)(c->connection.out.head - c->connection.out.tail);
}""")


daemon("c11-release-needs-disable", "C11", [
    (SEAT, "		seat_disable_client(seat->active_client);\n	}\n\n	if (vt_ack", "		if (seat_disable_client(seat->active_client) == -1) {\n			return -1;\n		}\n	}\n\n	if (vt_ack")],
    "the VT is switched away, back and away again before the client acknowledges the first disable",
    "A VT release request that arrives while the client has not yet acknowledged its disable is never answered, so the VT switch hangs.",
    r"""
	struct cl *a = cl_new();
	CHECK(open_seat(a) && cl_expect(a, SERVER_ENABLE_SEAT, NULL));
	kvt_go(2); pump(); CHECK(kfg == 2);
	kvt_go(1); pump(); CHECK(kfg == 1);
	kvt_go(3); pump();
	CHECK(kfg == 3);""", vt=1)

daemon("c16-path-alloc-leak", "C16", [
    (SEAT, "	if (device->path == NULL) {\n		log_errorf(\"Allocation failed: %s\", strerror(errno));\n		close(fd);\n		free(device);\n		return NULL;",
     "	if (device->path == NULL) {\n		log_errorf(\"Allocation failed: %s\", strerror(errno));\n		free(device);\n		return NULL;")],
    "memory running out at the last allocation of a device request",
    "When copying the path fails the descriptor of the device stays open in the daemon, with all its access.",
    r"""
	struct cl *a = cl_new();
	CHECK(open_seat(a) && cl_expect(a, SERVER_ENABLE_SEAT, NULL));
	int base = nfds_open(), e = 0;
	fail_strdup = 1;
	cl_opendev(a, "/dev/dri/card0"); pump();
	CHECK(cl_expect(a, SERVER_ERROR, &e) && e == ENOMEM);
	CHECK(nfds_open() == base);""",
    pre=r"""
static int fail_strdup;
char *__real_strdup(const char *s);
char *__wrap_strdup(const char *s) {
	if (fail_strdup) { fail_strdup = 0; errno = ENOMEM; return NULL; }
	return __real_strdup(s);
}""", sh=DEMO.replace("--wrap=open,", "--wrap=strdup,--wrap=open,").replace("-O1", "-O0"))


def other(id, prop, edits, needs, breaks, body, cmd):
    sh = DEMO.split("srcs=")[0].replace("daemon code", "code") + cmd
    ALL.append({"id": id, "property": prop, "edits": edits, "needs": needs, "breaks": breaks, "files": {"demo.c": body.lstrip(), "demo.sh": sh}})


GCC = 'gcc -std=gnu11 -Uunix -g -O1 -w -D_GNU_SOURCE -DSEATD_VERSION=\'"x"\' -DREL_SRC_DIR=\'""\' -Iinclude -o "$t/demo" "$here/demo.c" %s || exit 99\ntimeout 60 "$t/demo"\n'
HDR = r"""
#include <assert.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <unistd.h>
#define CHECK(x) do { if (!(x)) { fprintf(stderr, "FAIL line %d: %s\n", __LINE__, #x); exit(1); } } while (0)
"""

other("t01-restore-masked", "T01", [
    ("common/connection.c", "	b->tail -= size;", "	b->tail = connection_buffer_mask(b->tail - (uint32_t)size);")],
    "a receiver that has taken in more than one buffer length altogether before it puts a header back",
    "Restoring loses the high part of the counter, so afterwards the buffer seems to hold thousands of bytes it does not hold.",
    HDR + r"""
#include "connection.h"
int main(void) {
	int p[2];
	CHECK(socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, p) == 0);
	struct connection a = {.fd = p[0]}, b = {.fd = p[1]};
	char x[128], y[128];
	for (int i = 0; i < 200; i++) {
		memset(x, i, sizeof x);
		CHECK(connection_put(&a, x, sizeof x) == 0 && connection_flush(&a) >= 0);
		CHECK(connection_read(&b) == sizeof x);
		CHECK(connection_get(&b, y, 4) == 4);
		connection_restore(&b, 4);
		CHECK(connection_pending(&b) == sizeof x);
		CHECK(connection_get(&b, y, sizeof y) == sizeof y && !memcmp(x, y, sizeof x));
		CHECK(connection_pending(&b) == 0);
	}
	puts("ok");
}
""", GCC % "common/connection.c")

other("t02-sent-again-after-partial", "T02", [
    ("common/connection.c", "		connection_buffer_close_fds(&connection->fds_out);\n		connection->out.tail += len;\n	}\n",
     "		connection->out.tail += len;\n	}\n	connection_buffer_close_fds(&connection->fds_out);\n")],
    "a descriptor queued with data of which the socket takes only a part at first",
    "When the data needs more than one transfer the queued descriptors go along with each of them, so the peer gets them several times.",
    HDR + r"""
#include "connection.h"
static int part = 0;
ssize_t __real_sendmsg(int fd, const struct msghdr *m, int fl);
ssize_t __wrap_sendmsg(int fd, const struct msghdr *m, int fl) {
	struct msghdr c = *m;
	struct iovec v = m->msg_iov[0];
	if (part) { if (v.iov_len > (size_t)part) v.iov_len = part; c.msg_iov = &v; c.msg_iovlen = 1; }
	return __real_sendmsg(fd, &c, fl);
}
int main(void) {
	int p[2], q[2], fd, n = 0;
	CHECK(socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, p) == 0 && pipe(q) == 0);
	struct connection a = {.fd = p[0]}, b = {.fd = p[1]};
	part = 3;
	CHECK(connection_put_fd(&a, q[0]) == 0 && connection_put(&a, "0123456789", 10) == 0);
	CHECK(connection_flush(&a) >= 0);
	while (connection_read(&b) > 0) {}
	CHECK(connection_pending(&b) == 10);
	while (connection_get_fd(&b, &fd) == 0) { n++; close(fd); }
	CHECK(n == 1);
	puts("ok");
}
""", GCC.replace("|| exit", "-Wl,--wrap=sendmsg || exit") % "common/connection.c")

other("p01-narrowing-ignored", "P01", [
    ("seatd/poller.c", "	event_source->mask = mask;\n	poller->dirty = true;", "	if ((mask & ~event_source->mask) != 0) {\n		poller->dirty = true;\n	}\n	event_source->mask = mask;")],
    "a source whose mask is only made smaller, with nothing else changing the set of sources",
    "Taking an event out of a source's mask has no effect until something else makes the poller rebuild its table, so the callback goes on being called for it.",
    HDR + r"""
#include "poller.h"
static int n;
static int cb(int fd, uint32_t m, void *d) { n++; return 0; }
int main(void) {
	int p[2];
	struct poller po;
	CHECK(pipe(p) == 0);
	CHECK(poller_init(&po) == 0);
	int z[2];
	CHECK(pipe(z) == 0 && write(z[1], "x", 1) == 1);
	CHECK(poller_add_fd(&po, z[0], EVENT_READABLE, cb, NULL) != NULL);
	struct event_source_fd *w = poller_add_fd(&po, p[1], EVENT_READABLE | EVENT_WRITABLE, cb, NULL);
	CHECK(w);
	CHECK(poller_poll(&po) == 0 && n == 2);
	event_source_fd_update(w, EVENT_READABLE);
	CHECK(poller_poll(&po) == 0 && n == 3);
	puts("ok");
}
""", GCC % "seatd/poller.c common/linked_list.c")

other("p02-first-watcher-only", "P02", [
    ("seatd/poller.c", "			bps->raised = true;\n		}\n	}\n	int saved_errno", "			bps->raised = true;\n			break;\n		}\n	}\n	int saved_errno")],
    "two sources watching the same signal",
    "Only the source registered last hears of a signal that several sources watch.",
    HDR + r"""
#include "poller.h"
static int cb(int s, void *d) { ++*(int *)d; return 0; }
int main(void) {
	struct poller po;
	int n[3] = {0};
	CHECK(poller_init(&po) == 0);
	for (int i = 0; i < 3; i++) CHECK(poller_add_signal(&po, i == 2 ? SIGUSR2 : SIGUSR1, cb, &n[i]));
	raise(SIGUSR1);
	CHECK(poller_poll(&po) == 0);
	CHECK(n[0] == 1 && n[1] == 1 && n[2] == 0);
	puts("ok");
}
""", GCC % "seatd/poller.c common/linked_list.c")

LIB = GCC % "libseat/*.c libseat/backend/seatd.c libseat/backend/noop.c common/*.c -DLIBSEAT=1 -DSEATD_ENABLED -DSEATD_DEFAULTPATH='\"/nonexistent/x\"' -lpthread"
FAKE = HDR + r"""
#include <pthread.h>
#include <sys/un.h>
#include "libseat.h"
#include "protocol.h"
static int ev[64], nev;
static void en(struct libseat *s, void *d) { if (nev < 64) ev[nev++] = 1; }
static void dis(struct libseat *s, void *d) { if (nev < 64) ev[nev++] = 2; }
static const struct libseat_seat_listener L = {.enable_seat = en, .disable_seat = dis};
static int ls, sv;
static void daemon_(void);
static void *thr(void *x) { sv = accept(ls, NULL, NULL); daemon_(); return NULL; }
static void need(void *p, size_t n) { while (n) { ssize_t r = read(sv, p, n); CHECK(r > 0); p = (char *)p + r; n -= r; } }
static int req(void) { struct proto_header h; char b[1024]; need(&h, sizeof h); if (h.size) need(b, h.size); return h.opcode; }
static void say(int op, const void *p, size_t n) { char b[1024]; struct proto_header h = {op, n}; memcpy(b, &h, sizeof h); if (n) memcpy(b + sizeof h, p, n); CHECK(send(sv, b, n + sizeof h, MSG_NOSIGNAL) == (ssize_t)(n + sizeof h)); }
static void opened(void) { char b[8] = {6, 0, 's', 'e', 'a', 't', '0', 0}; say(SERVER_SEAT_OPENED, b, 8); }
static struct libseat *start(pthread_t *t) {
	static char dir[] = "/tmp/demoXXXXXX";
	struct sockaddr_un u = {.sun_family = AF_UNIX};
	CHECK(mkdtemp(dir));
	snprintf(u.sun_path, sizeof u.sun_path, "%s/s", dir);
	ls = socket(AF_UNIX, SOCK_STREAM, 0);
	CHECK(bind(ls, (void *)&u, sizeof u) == 0 && listen(ls, 1) == 0);
	setenv("SEATD_SOCK", u.sun_path, 1);
	setenv("LIBSEAT_BACKEND", "seatd", 1);
	pthread_create(t, NULL, thr, NULL);
	struct libseat *s = libseat_open_seat(&L, NULL);
	unlink(u.sun_path);
	rmdir(dir);
	return s;
}
"""

other("l03-no-wakeup-after-refusal", "L03", [
    ("libseat/backend/seatd.c", "	struct proto_server_device_opened rmsg;\n	if (read_header(backend, SERVER_DEVICE_OPENED, sizeof rmsg, false) == SIZE_MAX ||\n	    conn_get(backend, &rmsg, sizeof rmsg) == -1 || conn_get_fd(backend, fd)) {\n		res = -1;",
     "	struct proto_server_device_opened rmsg;\n	if (read_header(backend, SERVER_DEVICE_OPENED, sizeof rmsg, false) == SIZE_MAX) {\n		return -1;\n	}\n	if (conn_get(backend, &rmsg, sizeof rmsg) == -1 || conn_get_fd(backend, fd)) {\n		res = -1;")],
    "a disable notice that arrives just before the refusal of a device request, with nothing else following",
    "After a refused device request the descriptor is not made readable for an event received on the way, so an application that polls before dispatching never hears of it.",
    FAKE + r"""
static void daemon_(void) {
	CHECK(req() == CLIENT_OPEN_SEAT);
	opened();
	CHECK(req() == CLIENT_OPEN_DEVICE);
	say(SERVER_DISABLE_SEAT, "", 0);
	int e = EPERM;
	say(SERVER_ERROR, &e, 4);
	struct proto_header h;
	if (recv(sv, &h, sizeof h, MSG_WAITALL) == sizeof h && h.opcode == CLIENT_PING) say(SERVER_PONG, "", 0);
}
int main(void) {
	pthread_t t;
	int fd = -1;
	struct libseat *s = start(&t);
	CHECK(s);
	CHECK(libseat_open_device(s, "/dev/dri/card0", &fd) == -1 && errno == EPERM);
	struct pollfd p = {.fd = libseat_get_fd(s), .events = POLLIN};
	if (nev == 0) {
		CHECK(poll(&p, 1, 3000) == 1);
		CHECK(libseat_dispatch(s, 0) >= 0);
	}
	CHECK(nev == 1 && ev[0] == 2);
	puts("ok");
}
""", LIB)

other("l02-busy-is-success", "L02", [
    ("libseat/backend/seatd.c", "	int res = 0;\n	if (read_header(backend, SERVER_SESSION_SWITCHED, 0, false) == SIZE_MAX) {\n		res = -1;\n	}",
     "	int res = 0;\n	if (read_header(backend, SERVER_SESSION_SWITCHED, 0, false) == SIZE_MAX && errno != EBUSY) {\n		res = -1;\n	}")],
    "the daemon refusing a session switch with one particular error code",
    "A session switch refused with EBUSY is reported to the application as done.",
    FAKE + r"""
static void daemon_(void) {
	CHECK(req() == CLIENT_OPEN_SEAT);
	opened();
	for (int e = 1; e < 40; e++) {
		CHECK(req() == CLIENT_SWITCH_SESSION);
		say(SERVER_ERROR, &e, 4);
	}
	char c;
	read(sv, &c, 1);
}
int main(void) {
	pthread_t t;
	struct libseat *s = start(&t);
	CHECK(s);
	for (int e = 1; e < 40; e++) CHECK(libseat_switch_session(s, 2) == -1 && errno == e);
	puts("ok");
}
""", LIB)

other("x02-status-of-killed", "X02", [
    ("seatd-launch/seatd-launch.c", "		return 128 + WTERMSIG(status);", "		return 128 | (WTERMSIG(status) & 7);")],
    "a command ended by a signal whose number is above seven",
    "The exit status for a command ended by a signal keeps only the lowest bits of the signal's number.",
    HDR + r"""
#include <sys/wait.h>
int main(int c, char **v) {
	int sigs[] = {SIGHUP, SIGKILL, SIGSEGV, SIGTERM, SIGUSR1};
	for (int i = 0; i < 5; i++) {
		char cmd[32];
		snprintf(cmd, sizeof cmd, "kill -%d $$", sigs[i]);
		pid_t p = fork();
		if (p == 0) { execl(v[1], "seatd-launch", "--", "/bin/sh", "-c", cmd, NULL); _exit(99); }
		int st;
		CHECK(waitpid(p, &st, 0) == p && WIFEXITED(st));
		fprintf(stderr, "signal %d: status %d\n", sigs[i], WEXITSTATUS(st));
		CHECK(WEXITSTATUS(st) == 128 + sigs[i]);
	}
	puts("ok");
}
""", r"""
# a stand-in for the daemon: announces readiness, then waits to be told to end
cat > "$t/seatd" <<E
#!/bin/bash
: > "$t/sock"
eval "echo >&\$2; exec \$2>&-"
trap 'kill \$p; exit 0' TERM
/bin/sleep 20 & p=\$!
wait
E
chmod +x "$t/seatd"
gcc -std=gnu11 -g -O1 -w -D_GNU_SOURCE -DSEATD_VERSION='"x"' -DSEATD_INSTALLPATH="\"$t/seatd\"" -DSEATD_DEFAULTPATH="\"$t/sock\"" -Iinclude -o "$t/launch" seatd-launch/seatd-launch.c || exit 99
gcc -w -o "$t/demo" "$here/demo.c" || exit 99
timeout 60 "$t/demo" "$t/launch"
""")

other("g01-info-passes-error-level", "G01", [
    ("common/log.c", "	if (level > current_log_level) {", "	if (level > current_log_level && level != LIBSEAT_LOG_LEVEL_INFO) {")],
    "a level at which informational messages are to be suppressed",
    "Informational messages reach the handler whatever the level.",
    HDR + r"""
#include "log.h"
static int n[5];
static void h(enum libseat_log_level l, const char *f, va_list a) { n[l]++; }
int main(void) {
	for (int l = 0; l <= 3; l++) {
		memset(n, 0, sizeof n);
		log_init();
		libseat_set_log_handler(h);
		libseat_set_log_level(l);
		log_error("x"); log_info("x"); log_debug("x");
		for (int i = 1; i <= 3; i++) CHECK(n[i] == (i <= l));
	}
	puts("ok");
}
""", GCC % "common/log.c")

daemon("c01-nothing-to-wait-for", "C01", [
    (SEAT, "	log_infof(\"Disabling client %d on %s\", client->session, seat->seat_name);\n	return 0;",
     "	log_infof(\"Disabling client %d on %s\", client->session, seat->seat_name);\n	if (!seat->vt_bound && linked_list_empty(&client->devices)) {\n		// Nothing to hand over\n		seat->active_client = NULL;\n		seat_activate(seat);\n	}\n	return 0;")],
    "a switch away from a client that holds no device at that moment and is slow to acknowledge",
    "The next client is told that its seat is enabled before the previous one, which has no devices open, has acknowledged its disable.",
    r"""
	struct cl *a = cl_new(), *b = cl_new();
	CHECK(open_seat(a) && cl_expect(a, SERVER_ENABLE_SEAT, NULL));
	CHECK(open_seat(b));
	cl_int(a, CLIENT_SWITCH_SESSION, 2); pump();
	CHECK(cl_expect(a, SERVER_DISABLE_SEAT, NULL));
	while (cl_next(b, NULL)) {}
	CHECK(!b->enabled);
	cl_req(a, CLIENT_DISABLE_SEAT, "", 0); pump();
	CHECK(cl_expect(a, SERVER_SEAT_DISABLED, NULL));
	CHECK(cl_expect(b, SERVER_ENABLE_SEAT, NULL));""")

daemon("c07-cut-after-header", "C07", [
    (CLI, "			if (connection_pending(&client->connection) < header.size) {\n				connection_restore(&client->connection, sizeof header);\n				break;\n			}",
     "			size_t pending = connection_pending(&client->connection);\n			if (pending < header.size) {\n				if (pending > 0) {\n					connection_restore(&client->connection, sizeof header);\n				}\n				break;\n			}")],
    "a request with a body whose first piece ends exactly with its header",
    "A header that arrives without any byte of its body is forgotten, and the body is taken for the next request.",
    r"""
	struct cl *a = cl_new();
	CHECK(open_seat(a) && cl_expect(a, SERVER_ENABLE_SEAT, NULL));
	int id, v = 77;
	for (int cut = 1; cut < 8; cut++) {
		char m[8];
		uint16_t h[2] = {CLIENT_CLOSE_DEVICE, 4};
		memcpy(m, h, 4);
		memcpy(m + 4, &v, 4);
		cl_raw(a, m, cut); pump();
		cl_raw(a, m + cut, 8 - cut); pump();
		CHECK(cl_expect(a, SERVER_ERROR, &id) && id == EBADF);
		CHECK(!a->eof);
	}""")

daemon("c12-pending-session-overlooked", "C12", [
    (SEAT, "			struct client *client = (struct client *)elem;\n			if (client->session == seat->cur_vt) {\n				log_error(\"Could not add client: VT already has a client\");",
     "			struct client *client = (struct client *)elem;\n			if (client->session == seat->cur_vt && client->state != CLIENT_PENDING_DISABLE) {\n				log_error(\"Could not add client: VT already has a client\");")],
    "a VT switched away from and back to while its session still owes the acknowledgement of the disable, and a second client asking for the seat just then",
    "A second session is admitted on a VT whose session has been told to disable but has not acknowledged it.",
    r"""
	struct cl *a = cl_new(), *b = cl_new();
	CHECK(open_seat(a) && cl_expect(a, SERVER_ENABLE_SEAT, NULL));
	kvt_go(2); pump();
	CHECK(cl_expect(a, SERVER_DISABLE_SEAT, NULL));
	CHECK(kfg == 2);
	kvt_go(1); pump();
	CHECK(kfg == 1);
	CHECK(!open_seat(b));
	cl_fill(b);
	CHECK(b->eof);""", vt=1)

daemon("c13-restore-gives-up", "C13", [
    (SEAT, "	terminal_set_process_switching(ttyfd, true);\n	terminal_set_keyboard(ttyfd, true);\n	terminal_set_graphics(ttyfd, false);",
     "	if (terminal_set_process_switching(ttyfd, true) == -1 || terminal_set_keyboard(ttyfd, true) == -1) {\n		close(ttyfd);\n		return -1;\n	}\n	terminal_set_graphics(ttyfd, false);")],
    "the kernel refusing to change the switching mode of the VT at the moment its session ends",
    "When one step of giving a VT back fails, the others are not tried: the VT stays in graphics mode.",
    r"""
	struct cl *a = cl_new();
	CHECK(open_seat(a) && cl_expect(a, SERVER_ENABLE_SEAT, NULL));
	CHECK(kvt[1].kd && kvt[1].kb);
	kit_fail_req = VT_SETMODE;
	kit_fail_ioctl = 1;
	cl_close(a); pump();
	CHECK(!kvt[1].kd && !kvt[1].kb);""", vt=1)

daemon("c09-left-while-pending", "C09", [
    (SEAT, "	bool was_current = seat->active_client == client;\n	if (was_current) {\n		seat->active_client = NULL;\n		seat_activate(seat);",
     "	bool was_current = seat->active_client == client;\n	if (was_current) {\n		seat->active_client = NULL;\n		// When pending a disable, the next client was chosen by a switch\n		if (client->state == CLIENT_ACTIVE || seat->next_client != NULL) {\n			seat_activate(seat);\n		}")],
    "three clients: a switch to one that then leaves, and then the client pending its disable leaving without acknowledging it",
    "When a client leaves while its disable is pending and the client switched to is gone, nobody gets the seat although another client waits.",
    r"""
	struct cl *a = cl_new(), *b = cl_new(), *c = cl_new();
	CHECK(open_seat(a) && cl_expect(a, SERVER_ENABLE_SEAT, NULL));
	CHECK(open_seat(b) && open_seat(c));
	cl_int(a, CLIENT_SWITCH_SESSION, 2); pump();
	CHECK(cl_expect(a, SERVER_DISABLE_SEAT, NULL));
	cl_close(b); pump();
	cl_close(a); pump();
	CHECK(cl_expect(c, SERVER_ENABLE_SEAT, NULL));""")

daemon("c08-short-path-length", "C08", [
    (CLI, "		if (msg.path_len != size - sizeof msg) {", "		if (msg.path_len > size - sizeof msg) {")],
    "a device request whose message is longer than the path it announces",
    "A device request of the wrong size is granted, and what is left of it is taken for further requests.",
    r"""
	struct cl *a = cl_new();
	CHECK(open_seat(a) && cl_expect(a, SERVER_ENABLE_SEAT, NULL));
	char b[64] = {0};
	uint16_t l = 15;
	memcpy(b, &l, 2);
	strcpy(b + 2, "/dev/dri/card0");
	uint16_t ping[2] = {CLIENT_PING, 0};
	memcpy(b + 17, ping, 4);
	cl_req(a, CLIENT_OPEN_DEVICE, b, 21); pump();
	int m, id;
	while ((m = cl_next(a, &id))) CHECK(m == SERVER_ERROR);
	cl_fill(a);
	CHECK(a->nfds == 0);""")

daemon("c04-any-input-node", "C04", [
    ("common/evdev.c", "	static const char prefix[] = \"/dev/input/event\";\n	static const size_t prefixlen = STRLEN(prefix);",
     "	static const char prefix[] = \"/dev/input/event\";\n	static const size_t prefixlen = STRLEN(\"/dev/input/e\");")],
    "a request for a node in the input directory whose name only begins like that of an evdev node",
    "Files in /dev/input other than evdev nodes are opened for clients.",
    r"""
	struct cl *a = cl_new();
	CHECK(open_seat(a) && cl_expect(a, SERVER_ENABLE_SEAT, NULL));
	const char *bad[] = {"/dev/input/mice", "/dev/input/eve0", "/dev/input/js0", "/dev/input/e", "/dev/inputevent0"};
	int e;
	for (int i = 0; i < 5; i++) {
		cl_opendev(a, bad[i]); pump();
		CHECK(cl_expect(a, SERVER_ERROR, &e) && e == ENOENT);
	}
	cl_opendev(a, "/dev/input/event0"); pump();
	CHECK(cl_expect(a, SERVER_DEVICE_OPENED, &e));""")

other("p03-take-onto-filled", "P03", [
    ("common/linked_list.c", "	source->prev->next = target->next;\n	target->next->prev = source->prev;\n	target->next = source->next;",
     "	source->prev->next = target->next;\n	target->next = source->next;\n	if (linked_list_empty(target)) {\n		target->prev = source->prev;\n	}")],
    "taking over a list onto one, and walking it backwards afterwards",
    "After one list was moved behind the head of another, walking backwards misses its elements.",
    HDR + r"""
#include <stdbool.h>
#include "linked_list.h"
int main(void) {
	for (int n = 0; n < 4; n++) for (int m = 0; m < 4; m++) {
		struct linked_list a, b, x[4], y[4];
		linked_list_init(&a);
		linked_list_init(&b);
		memset(x, 0, sizeof x);
		memset(y, 0, sizeof y);
		for (int i = n - 1; i >= 0; i--) linked_list_insert(&a, &x[i]);
		for (int i = m - 1; i >= 0; i--) linked_list_insert(&b, &y[i]);
		linked_list_take(&a, &b);
		CHECK(linked_list_empty(&b) && b.prev == &b);
		struct linked_list *e = a.next;
		for (int i = 0; i < m; i++, e = e->next) CHECK(e == &y[i]);
		for (int i = 0; i < n; i++, e = e->next) CHECK(e == &x[i]);
		CHECK(e == &a);
		e = a.prev;
		for (int i = n - 1; i >= 0; i--, e = e->prev) CHECK(e == &x[i]);
		for (int i = m - 1; i >= 0; i--, e = e->prev) CHECK(e == &y[i]);
		CHECK(e == &a);
	}
	puts("ok");
}
""", GCC % "common/linked_list.c")

other("l01-pairs-cancelled", "L01", [
    ("libseat/backend/seatd.c", "	struct pending_event *ev = calloc(1, sizeof(struct pending_event));\n	if (ev == NULL) {",
     "	struct pending_event *last = (struct pending_event *)backend->pending_events.prev;\n	if (!linked_list_empty(&backend->pending_events) && last->opcode == SERVER_ENABLE_SEAT &&\n	    opcode == SERVER_DISABLE_SEAT) {\n		// Never mind\n		linked_list_remove(&last->link);\n		free(last);\n		return 0;\n	}\n	struct pending_event *ev = calloc(1, sizeof(struct pending_event));\n	if (ev == NULL) {")],
    "an enable and a disable notice that arrive before the application dispatches",
    "An enable notice followed by a disable notice is never delivered, so the application does not acknowledge the disable.",
    FAKE + r"""
static void daemon_(void) {
	CHECK(req() == CLIENT_OPEN_SEAT);
	opened();
	say(SERVER_ENABLE_SEAT, "", 0);
	say(SERVER_DISABLE_SEAT, "", 0);
	int r;
	while ((r = req()) == CLIENT_PING) say(SERVER_PONG, "", 0);
	CHECK(r == CLIENT_DISABLE_SEAT);
	say(SERVER_SEAT_DISABLED, "", 0);
	char c;
	read(sv, &c, 1);
}
int main(void) {
	pthread_t t;
	struct libseat *s = start(&t);
	CHECK(s);
	usleep(100000);
	for (int i = 0; i < 20 && nev < 2; i++) CHECK(libseat_dispatch(s, 100) >= 0);
	CHECK(nev == 2 && ev[0] == 1 && ev[1] == 2);
	CHECK(libseat_disable_seat(s) == 0);
	puts("ok");
}
""", LIB)

other("l04-long-error-message", "L04", [
    ("libseat/backend/seatd.c", "		} else if (header.size != sizeof msg || conn_get(backend, &msg, sizeof msg) == -1) {",
     "		} else if (header.size < sizeof msg || conn_get(backend, &msg, sizeof msg) == -1) {")],
    "a daemon that sends an error message longer than the protocol allows, whose surplus looks like a notice",
    "A malformed error message is accepted, and what is left of it taken for an enable notice the daemon never sent.",
    FAKE + r"""
static void daemon_(void) {
	CHECK(req() == CLIENT_OPEN_SEAT);
	opened();
	CHECK(req() == CLIENT_SWITCH_SESSION);
	struct { int e; struct proto_header h; } x = {EPERM, {SERVER_ENABLE_SEAT, 0}};
	say(SERVER_ERROR, &x, sizeof x);
	char c[64];
	while (read(sv, c, sizeof c) > 0) {}
}
int main(void) {
	pthread_t t;
	struct libseat *s = start(&t);
	CHECK(s);
	CHECK(libseat_switch_session(s, 2) == -1);
	CHECK(libseat_dispatch(s, 0) == -1);
	CHECK(nev == 0);
	libseat_close_seat(s);
	puts("ok");
}
""", LIB)

other("l06-named-falls-through", "L06", [
    ("libseat/libseat.c", "			log_errorf(\"Backend '%s' failed to open seat: %s\", iter->name,\n				   strerror(errno));\n			return NULL;",
     "			log_errorf(\"Backend '%s' failed to open seat: %s\", iter->name,\n				   strerror(errno));\n			iter++;\n			backend = iter->backend ? iter->backend->open_seat(listener, data) : NULL;\n			return backend;")],
    "a backend named in the environment that cannot open a seat",
    "When the backend asked for fails, the next one is used instead.",
    FAKE + r"""
static void daemon_(void) {}
int main(void) {
	setenv("LIBSEAT_BACKEND", "seatd", 1);
	setenv("SEATD_SOCK", "/nonexistent/socket", 1);
	CHECK(libseat_open_seat(&L, NULL) == NULL);
	setenv("LIBSEAT_BACKEND", "noop", 1);
	struct libseat *s = libseat_open_seat(&L, NULL);
	CHECK(s && libseat_close_seat(s) == 0);
	puts("ok");
}
""", LIB)

other("l07-no-second-wait", "L07", [
    ("libseat/backend/noop.c", "	int tmpfd = open(path, O_RDWR | O_NOCTTY | O_NOFOLLOW | O_CLOEXEC | O_NONBLOCK);",
     "	int tmpfd = open(path, O_RDWR | O_NOCTTY | O_NOFOLLOW | O_CLOEXEC | O_NONBLOCK);\n	if (tmpfd < 0 && errno == ELOOP) {\n		tmpfd = open(path, O_RDWR | O_NOCTTY | O_CLOEXEC | O_NONBLOCK);\n	}")],
    "a device path whose last component is a symbolic link",
    "The noop backend follows a final symbolic link.",
    FAKE + r"""
static void daemon_(void) {}
int main(void) {
	char d[] = "/tmp/demoXXXXXX", f[64], l[64];
	CHECK(mkdtemp(d));
	snprintf(f, sizeof f, "%s/file", d);
	snprintf(l, sizeof l, "%s/link", d);
	int x = open(f, O_CREAT | O_RDWR, 0600);
	CHECK(x >= 0 && symlink(f, l) == 0);
	setenv("LIBSEAT_BACKEND", "noop", 1);
	struct libseat *s = libseat_open_seat(&L, NULL);
	CHECK(s);
	int fd = -1, ok = libseat_open_device(s, f, &fd) >= 0, followed = libseat_open_device(s, l, &fd) >= 0;
	unlink(l);
	unlink(f);
	rmdir(d);
	CHECK(ok && !followed);
	puts("ok");
}
""", LIB)

other("l09-received-without-cloexec", "L09", [
    ("common/connection.c", "		len = recvmsg(connection->fd, &msg, MSG_DONTWAIT | MSG_CMSG_CLOEXEC);",
     "		len = recvmsg(connection->fd, &msg, MSG_DONTWAIT);")],
    "a device opened by an application that runs another program afterwards",
    "Device descriptors handed to the application are inherited by programs it runs.",
    FAKE + r"""
static void daemon_(void) {
	CHECK(req() == CLIENT_OPEN_SEAT);
	opened();
	CHECK(req() == CLIENT_OPEN_DEVICE);
	struct { struct proto_header h; int id; } m = {{SERVER_DEVICE_OPENED, 4}, 5};
	char cb[CMSG_SPACE(sizeof(int))] = {0};
	struct iovec v = {&m, sizeof m};
	struct msghdr h = {.msg_iov = &v, .msg_iovlen = 1, .msg_control = cb, .msg_controllen = sizeof cb};
	struct cmsghdr *c = CMSG_FIRSTHDR(&h);
	c->cmsg_level = SOL_SOCKET; c->cmsg_type = SCM_RIGHTS; c->cmsg_len = CMSG_LEN(sizeof(int));
	int z = open("/dev/null", O_RDWR);
	memcpy(CMSG_DATA(c), &z, sizeof z);
	CHECK(sendmsg(sv, &h, 0) == sizeof m);
	char x;
	read(sv, &x, 1);
}
int main(void) {
	pthread_t t;
	int fd = -1;
	struct libseat *s = start(&t);
	CHECK(s);
	CHECK(fcntl(libseat_get_fd(s), F_GETFD) & FD_CLOEXEC);
	CHECK(libseat_open_device(s, "/dev/dri/card0", &fd) == 5);
	CHECK(fcntl(fd, F_GETFD) & FD_CLOEXEC);
	puts("ok");
}
""", LIB)

other("c18-owner-without-group", "C18", [
    ("seatd/seatd.c", "	if (uid != -1 || gid != -1) {\n		if (chmod(path, 0770) == -1) {", "	if (uid != -1 && gid != -1) {\n		if (chmod(path, 0770) == -1) {")],
    "the daemon started with an owner but no group for its socket, or the other way round",
    "With only an owner or only a group given, the socket keeps the mode and ownership it was created with.",
    HDR + r"""
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/un.h>
static int run(const char *bin, const char *sock, const char *opt, const char *who) {
	int p[2], st;
	char n[16], c = 0;
	CHECK(pipe(p) == 0);
	snprintf(n, sizeof n, "%d", p[1]);
	pid_t pid = fork();
	if (pid == 0) {
		umask(022);
		setenv("SEATD_VTBOUND", "0", 1);
		execl(bin, "seatd", "-l", "silent", "-n", n, opt, who, NULL);
		_exit(99);
	}
	close(p[1]);
	CHECK(read(p[0], &c, 1) == 1 && c == '\n');
	close(p[0]);
	struct stat s;
	CHECK(stat(sock, &s) == 0);
	kill(pid, SIGTERM);
	CHECK(waitpid(pid, &st, 0) == pid && WIFEXITED(st) && WEXITSTATUS(st) == 0);
	fprintf(stderr, "%s: mode %o\n", opt, s.st_mode & 07777);
	return (s.st_mode & 07777) == 0770;
}
int main(int c, char **v) {
	CHECK(run(v[1], v[2], "-u", "root"));
	CHECK(run(v[1], v[2], "-g", "root"));
	puts("ok");
}
""", r"""
gcc -std=gnu11 -Uunix -g -O1 -w -D_GNU_SOURCE -DSEATD_VERSION='"x"' -DREL_SRC_DIR='""' -DSEATD_DEFAULTPATH="\"$t/sock\"" -Iinclude -o "$t/seatd" seatd/*.c common/*.c || exit 99
gcc -w -o "$t/demo" "$here/demo.c" || exit 99
timeout 60 "$t/demo" "$t/seatd" "$t/sock"
""")

other("c19-child-keeps-both-ends", "C19", [
    ("libseat/backend/seatd.c", "	} else if (pid == 0) {\n		close(fds[1]);\n", "	} else if (pid == 0) {\n")],
    "the application ending, or closing its connection, without having closed the seat",
    "The private daemon holds the application's end of the connection open itself, never sees a hangup and outlives the application.",
    FAKE + r"""
#include <sys/prctl.h>
#include <sys/wait.h>
static void daemon_(void) {}
int main(void) {
	CHECK(prctl(PR_SET_CHILD_SUBREAPER, 1) == 0);
	setenv("LIBSEAT_BACKEND", "builtin", 1);
	setenv("SEATD_VTBOUND", "0", 1);
	pid_t app = fork(), p;
	if (app == 0) {
		struct libseat *s = libseat_open_seat(&L, NULL);
		_exit(s == NULL);
	}
	int st;
	CHECK(waitpid(app, &st, 0) == app && WIFEXITED(st) && WEXITSTATUS(st) == 0);
	for (int i = 0; i < 50; i++) {
		p = waitpid(-1, &st, WNOHANG);
		if (p) break;
		usleep(100000);
	}
	if (p == 0) {
		// end it; it is ours
		char f[64];
		snprintf(f, sizeof f, "/proc/self/task/%d/children", getpid());
		FILE *h = fopen(f, "r");
		int c;
		while (h && fscanf(h, "%d", &c) == 1) kill(c, SIGKILL);
	}
	CHECK(p > 0);
	puts("ok");
}
""", GCC % "libseat/*.c libseat/backend/seatd.c libseat/backend/noop.c common/*.c $(ls seatd/*.c | grep -v '^seatd/seatd.c$') -DLIBSEAT=1 -DSEATD_ENABLED -DBUILTIN_ENABLED -DSEATD_DEFAULTPATH='\"/nonexistent/x\"' -lpthread")

other("x01-argument-for-group", "X01", [
    ("seatd-launch/seatd-launch.c", "	// Drop privileges\n	if (setgid(gid) == -1) {", "	// Drop privileges\n	if (uid != geteuid() && setgid(gid) == -1) {")],
    "the launcher running with a group that is not the caller's although its user is",
    "The group id is only set to the caller's when the user id has to change too.",
    HDR + r"""
#include <sys/types.h>
static gid_t eg = 0;
static int gset;
uid_t __wrap_getuid(void) { return 0; }
uid_t __wrap_geteuid(void) { return 0; }
gid_t __wrap_getgid(void) { return 1000; }
gid_t __wrap_getegid(void) { return eg; }
int __wrap_setgid(gid_t g) { eg = g; gset = 1; return 0; }
int __wrap_setuid(uid_t u) { return 0; }
int __wrap_chown(const char *p, uid_t u, gid_t g) { return 0; }
int __wrap_execvp(const char *f, char **a) {
	fprintf(stderr, "group of the command: %d\n", (int)eg);
	_exit(eg == 1000 ? 0 : 7);
}
""", r"""
# a stand-in for the daemon: announces readiness, then waits to be told to end
cat > "$t/seatd" <<E
#!/bin/bash
: > "$t/sock"
eval "echo >&\$2; exec \$2>&-"
trap 'kill \$p; exit 0' TERM
/bin/sleep 20 & p=\$!
wait
E
chmod +x "$t/seatd"
gcc -std=gnu11 -g -O1 -w -U_FORTIFY_SOURCE -D_GNU_SOURCE -DSEATD_VERSION='"x"' -DSEATD_INSTALLPATH="\"$t/seatd\"" -DSEATD_DEFAULTPATH="\"$t/sock\"" -Iinclude -o "$t/launch" seatd-launch/seatd-launch.c "$here/demo.c" -Wl,--wrap=getuid,--wrap=geteuid,--wrap=getgid,--wrap=getegid,--wrap=setgid,--wrap=setuid,--wrap=chown,--wrap=execvp || exit 99
timeout 60 "$t/launch" -- true
r=$?
[ $r = 0 ] && exit 0
exit 1
""")

other("c17-socket-left-when-giving-up", "C17", [
    ("seatd/seatd.c", "	if (unlink(SEATD_DEFAULTPATH) == -1) {\n		log_errorf(\"Could not remove socket: %s\", strerror(errno));",
     "	if (ret == 0 && unlink(SEATD_DEFAULTPATH) == -1) {\n		log_errorf(\"Could not remove socket: %s\", strerror(errno));")],
    "the daemon no longer being able to wait for events",
    "When waiting for events fails, the daemon ends without removing its socket.",
    HDR + r"""
#include <sys/stat.h>
#include <sys/wait.h>
int __real_poll(struct pollfd *p, nfds_t n, int t);
int seatd_main(int c, char **v);
int __wrap_poll(struct pollfd *p, nfds_t n, int t) {
	static int k;
	if (k++) { errno = ENOMEM; return -1; }
	raise(SIGUSR1);
	return __real_poll(p, n, t);
}
int main(int c, char **v) {
	struct stat s;
	int st;
	pid_t p = fork();
	if (p == 0) {
		setenv("SEATD_VTBOUND", "0", 1);
		char *a[] = {"seatd", "-l", "silent", NULL};
		_exit(seatd_main(3, a));
	}
	CHECK(waitpid(p, &st, 0) == p && WIFEXITED(st) && WEXITSTATUS(st) != 0);
	CHECK(stat(SEATD_DEFAULTPATH, &s) == -1);
	puts("ok");
}
""", r"""
D="-std=gnu11 -Uunix -g -O1 -w -U_FORTIFY_SOURCE -D_GNU_SOURCE -Iinclude"
gcc $D -DSEATD_VERSION='"x"' -DREL_SRC_DIR='""' -DSEATD_DEFAULTPATH="\"$t/sock\"" -Dmain=seatd_main -c -o "$t/main.o" seatd/seatd.c || exit 99
gcc $D -DSEATD_VERSION='"x"' -DREL_SRC_DIR='""' -DSEATD_DEFAULTPATH="\"$t/sock\"" -o "$t/demo" "$here/demo.c" "$t/main.o" $(ls seatd/*.c common/*.c | grep -v '^seatd/seatd.c$') -Wl,--wrap=poll || exit 99
timeout 60 "$t/demo"
""")

BUS = HDR + r"""
#include <systemd/sd-bus.h>
#include <systemd/sd-login.h>
#include "libseat.h"
// a bus that answers every call and hands over what the demonstration queues
static char calls[4096];
static int active = 1, busfd, fail_with;
static sd_bus_message_handler_t on_pause, on_props;
static void *on_data;
static struct msg { int kind; const char *type; int at, val; } inbox[8], *cur;
static int nin;
static char reply;
static void said(const char *m) { strcat(strcat(calls, m), " "); }
int sd_bus_default_system(sd_bus **b) { int p[2]; CHECK(pipe(p) == 0); busfd = p[0]; *b = (sd_bus *)&busfd; return 0; }
sd_bus *sd_bus_unref(sd_bus *b) { return NULL; }
int sd_bus_get_fd(sd_bus *b) { return busfd; }
int sd_bus_get_n_queued_read(sd_bus *b, uint64_t *n) { *n = nin; return 0; }
int sd_bus_get_n_queued_write(sd_bus *b, uint64_t *n) { *n = 0; return 0; }
void sd_bus_error_free(sd_bus_error *e) {}
sd_bus_message *sd_bus_message_unref(sd_bus_message *m) { return NULL; }
sd_bus_slot *sd_bus_slot_unref(sd_bus_slot *s) { return NULL; }
int sd_bus_call_method(sd_bus *b, const char *d, const char *p, const char *i, const char *m, sd_bus_error *e, sd_bus_message **r, const char *t, ...) {
	said(m);
	*r = (sd_bus_message *)&reply;
	if (fail_with) { int x = fail_with; fail_with = 0; return x; }
	return 1;
}
int sd_bus_call_method_async(sd_bus *b, sd_bus_slot **s, const char *d, const char *p, const char *i, const char *m, sd_bus_message_handler_t h, void *u, const char *t, ...) { return 0; }
int sd_bus_get_property_trivial(sd_bus *b, const char *d, const char *p, const char *i, const char *m, sd_bus_error *e, char t, void *v) { *(int *)v = active; return 0; }
int sd_bus_match_signal(sd_bus *b, sd_bus_slot **s, const char *d, const char *p, const char *i, const char *m, sd_bus_message_handler_t h, void *u) {
	if (!strcmp(m, "PauseDevice")) on_pause = h;
	if (!strcmp(m, "PropertiesChanged")) on_props = h;
	on_data = u;
	return 0;
}
int sd_bus_message_is_method_error(sd_bus_message *m, const char *n) { return 0; }
const sd_bus_error *sd_bus_message_get_error(sd_bus_message *m) { return NULL; }
int sd_bus_message_read(sd_bus_message *m, const char *t, ...) {
	va_list a;
	va_start(a, t);
	if (!strcmp(t, "o")) *va_arg(a, const char **) = "/x";
	else if (!strcmp(t, "uus")) { *va_arg(a, uint32_t *) = 226; *va_arg(a, uint32_t *) = 0; *va_arg(a, const char **) = cur->type; }
	else if (!strcmp(t, "hb")) { *va_arg(a, int *) = busfd; *va_arg(a, int *) = 0; }
	va_end(a);
	return 1;
}
// properties changed: "interface" {"Active": v} []
int sd_bus_message_enter_container(sd_bus_message *m, char c, const char *t) { if (c == 'e') return cur->at == 1; return 1; }
int sd_bus_message_exit_container(sd_bus_message *m) { return 1; }
int sd_bus_message_skip(sd_bus_message *m, const char *t) { return 1; }
int sd_bus_message_read_basic(sd_bus_message *m, char t, void *p) {
	if (t == 'b') { *(int *)p = cur->val; cur->at = 2; return 1; }
	if (cur->at == 0) { *(const char **)p = cur->type; cur->at = 1; return 1; }
	if (cur->at == 1) { *(const char **)p = "Active"; return 1; }
	return 0;
}
int sd_bus_process(sd_bus *b, sd_bus_message **r) {
	static struct msg m;
	if (nin == 0) return 0;
	m = inbox[0];
	memmove(inbox, inbox + 1, sizeof inbox[0] * --nin);
	cur = &m;
	sd_bus_error e = SD_BUS_ERROR_NULL;
	(m.kind ? on_props : on_pause)((sd_bus_message *)&m, on_data, &e);
	return 1;
}
int sd_pid_get_session(pid_t p, char **s) { *s = strdup("1"); return 0; }
int sd_uid_get_display(uid_t u, char **s) { *s = strdup("1"); return 0; }
int sd_session_get_seat(const char *s, char **r) { *r = strdup("seat0"); return 0; }
int sd_session_is_active(const char *s) { return 1; }
static int ev[64], nev;
static void en(struct libseat *s, void *d) { ev[nev++] = 1; said("+"); }
static void dis(struct libseat *s, void *d) { ev[nev++] = 2; said("-"); }
static const struct libseat_seat_listener L = {.enable_seat = en, .disable_seat = dis};
static struct libseat *start(void) {
	setenv("LIBSEAT_BACKEND", "logind", 1);
	unsetenv("XDG_SESSION_TYPE");
	struct libseat *s = libseat_open_seat(&L, NULL);
	CHECK(s && libseat_dispatch(s, 0) >= 0 && nev == 1);
	calls[0] = 0;
	return s;
}
"""
BUSCMD = GCC % "libseat/*.c libseat/backend/logind.c libseat/backend/noop.c common/*.c -DLIBSEAT=1 -DLOGIND_ENABLED -DHAVE_LIBSYSTEMD=1 -DSEATD_DEFAULTPATH='\"/nonexistent/x\"'"

other("l08-forced-pause-answered", "L08", [
    ("libseat/backend/logind.c", "	bool pause = strcmp(type, \"pause\") == 0;", "	bool pause = !gone;")],
    "logind taking a device away by force",
    "A forced pause is answered as if it had been asked for, and the application told to disable before the session's activity changes.",
    BUS + r"""
int main(void) {
	struct libseat *s = start();
	inbox[nin++] = (struct msg){0, "force"};
	CHECK(libseat_dispatch(s, 0) >= 0);
	CHECK(strstr(calls, "PauseDeviceComplete") == NULL);
	inbox[nin++] = (struct msg){0, "gone"};
	CHECK(libseat_dispatch(s, 0) >= 0);
	CHECK(strstr(calls, "PauseDeviceComplete") == NULL && nev == 1);
	inbox[nin++] = (struct msg){0, "pause"};
	CHECK(libseat_dispatch(s, 0) >= 0);
	CHECK(!strcmp(calls, "- PauseDeviceComplete "));
	libseat_close_seat(s);
	puts("ok");
}
""", BUSCMD)
