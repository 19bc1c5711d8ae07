// A daemon (the repository's server, seat, client, poller and connection code)
// in this process, with fake devices and VTs behind --wrap'ed open/ioctl/realpath.
#pragma once
#define _GNU_SOURCE
#include <assert.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <unistd.h>
#include <linux/kd.h>
#include <linux/vt.h>
#include "log.h"
#include "protocol.h"
#include "server.h"
#include "seat.h"
#include "client.h"

enum { KD = 64 };
struct kdev { ino_t ino; int kind, num, master, revoked; char path[128]; };
static struct kdev kdevs[4096];
static int nkdev;
static struct { int kd, kb, process, newvt; } kvt[64];
static int kfg = 1;
static int kit_fail_open_errno, kit_fail_ioctl, kit_opened;
static unsigned long kit_fail_req;
static void (*kit_on_ioctl)(unsigned long req, long arg);

int __real_open(const char *p, int fl, ...);
int __real_ioctl(int fd, unsigned long req, ...);
char *__real_realpath(const char *p, char *o);
int __real_poll(struct pollfd *p, nfds_t n, int t);

int __wrap_open(const char *p, int fl, ...) {
	int kind = -1, num = 0;
	if (!strncmp(p, "/dev/dri/", 9)) kind = 1;
	else if (!strncmp(p, "/dev/input/", 11)) kind = 2;
	else if (!strncmp(p, "/dev/tty", 8)) { kind = 3; num = atoi(p + 8); }
	else return __real_open(p, fl, 0600);
	if (kit_fail_open_errno && kind != 3) { errno = kit_fail_open_errno; return -1; }
	if (strstr(p, "missing")) { errno = ENOENT; return -1; }
	int fd = memfd_create("dev", MFD_CLOEXEC);
	if (fd == -1) return -1;
	struct stat st;
	fstat(fd, &st);
	struct kdev *d = &kdevs[nkdev++ % 4096];
	memset(d, 0, sizeof *d);
	d->ino = st.st_ino; d->kind = kind; d->num = num;
	snprintf(d->path, sizeof d->path, "%s", p);
	if (kind != 3) kit_opened++;
	return fd;
}
static struct kdev *kdev_of(int fd) {
	struct stat st;
	if (fstat(fd, &st) == -1) return NULL;
	for (int i = (nkdev < 4096 ? nkdev : 4096) - 1; i >= 0; i--)
		if (kdevs[i].ino == st.st_ino) return &kdevs[i];
	return NULL;
}
static void kvt_go(int v) {
	if (v == kfg) return;
	if (kvt[kfg].process) { kvt[kfg].newvt = v; raise(SIGUSR1); }
	else { kfg = v; if (kvt[v].process) raise(SIGUSR2); }
}
int __wrap_ioctl(int fd, unsigned long req, ...) {
	va_list ap; va_start(ap, req); long arg = va_arg(ap, long); va_end(ap);
	struct kdev *d = kdev_of(fd);
	if (!d) return __real_ioctl(fd, req, arg);
	if (kit_on_ioctl) kit_on_ioctl(req, arg);
	if (kit_fail_ioctl && kit_fail_req == req) { kit_fail_ioctl--; errno = EIO; return -1; }
	if (d->kind == 1) {
		if ((req & 0xff) == 0x1e) {
			for (int i = 0; i < nkdev && i < 4096; i++)
				if (&kdevs[i] != d && kdevs[i].kind == 1 && kdevs[i].master && !strcmp(kdevs[i].path, d->path)) { errno = EBUSY; return -1; }
			d->master = 1; return 0;
		}
		if ((req & 0xff) == 0x1f) { if (!d->master) { errno = EINVAL; return -1; } d->master = 0; return 0; }
	} else if (d->kind == 2) { d->revoked = 1; return 0; }
	else if (d->kind == 3) {
		int v = d->num ? d->num : kfg;
		switch (req) {
		case VT_GETSTATE: ((struct vt_stat *)arg)->v_active = kfg; return 0;
		case VT_SETMODE: kvt[v].process = ((struct vt_mode *)arg)->mode == VT_PROCESS; kvt[v].newvt = 0; return 0;
		case VT_ACTIVATE: kvt_go((int)arg); return 0;
		case VT_RELDISP:
			if (!kvt[v].process) { errno = EINVAL; return -1; }
			if (kvt[v].newvt > 0) {
				int n = kvt[v].newvt; kvt[v].newvt = 0;
				if (arg == 0) return 0;
				kfg = n;
				if (kvt[n].process) raise(SIGUSR2);
				return 0;
			}
			if (arg != VT_ACKACQ) { errno = EINVAL; return -1; }
			return 0;
		case KDSKBMODE: kvt[v].kb = arg == K_OFF; return 0;
		case KDSETMODE: kvt[v].kd = arg == KD_GRAPHICS; return 0;
		}
	}
	errno = EINVAL;
	return -1;
}
char *__wrap_realpath(const char *p, char *o) {
	if (!strncmp(p, "/dev/", 5)) { strcpy(o, p); return o; }
	return __real_realpath(p, o);
}
static int kit_last;
static int kit_polling;
int __wrap_poll(struct pollfd *p, nfds_t n, int t) {
	if (!kit_polling) return __real_poll(p, n, t);
	kit_last = __real_poll(p, n, 0);
	return kit_last;
}

static struct server srv;
static void kit_init(int vtbound) {
	setenv("SEATD_VTBOUND", vtbound ? "1" : "0", 1);
	if (server_init(&srv) != 0) { fprintf(stderr, "server_init failed\n"); exit(99); }
}
static int pump(void) {
	kit_polling = 1;
	int i;
	for (i = 0; i < 300; i++) {
		if (poller_poll(&srv.poller) == -1) break;
		if (kit_last == 0) break;
	}
	kit_polling = 0;
	return i;
}
// how many bytes sockets of the daemon still take; -1 no limit
static long kit_send_room = -1;
ssize_t __real_sendmsg(int fd, const struct msghdr *m, int fl);
ssize_t __wrap_sendmsg(int fd, const struct msghdr *m, int fl) {
	if (kit_send_room < 0) return __real_sendmsg(fd, m, fl);
	if (kit_send_room == 0) { errno = EAGAIN; return -1; }
	struct iovec v[8];
	struct msghdr c = *m;
	size_t left = (size_t)kit_send_room, n = 0, i;
	for (i = 0; i < m->msg_iovlen && i < 8 && left; i++) {
		v[i] = m->msg_iov[i];
		if (v[i].iov_len > left) v[i].iov_len = left;
		left -= v[i].iov_len;
		n += v[i].iov_len;
	}
	c.msg_iov = v; c.msg_iovlen = i;
	ssize_t r = __real_sendmsg(fd, &c, fl);
	if (r > 0) kit_send_room -= r;
	return r;
}
struct cl { int fd; char buf[65536]; size_t n; int fds[300], nfds; int enabled; int eof; };
static struct cl *cl_new(void) {
	int s[2];
	if (socketpair(AF_UNIX, SOCK_STREAM, 0, s)) exit(98);
	struct cl *c = calloc(1, sizeof *c);
	c->fd = s[0];
	fcntl(c->fd, F_SETFL, O_NONBLOCK);
	if (server_add_client(&srv, s[1]) == -1) c->eof = 1;
	return c;
}
static void cl_raw(struct cl *c, const void *p, size_t n) { if (send(c->fd, p, n, MSG_NOSIGNAL) < 0) {} }
static void cl_req(struct cl *c, int op, const void *p, size_t n) {
	char b[1024];
	uint16_t h[2] = {(uint16_t)op, (uint16_t)n};
	memcpy(b, h, 4);
	memcpy(b + 4, p, n);
	cl_raw(c, b, n + 4);
}
static void cl_opendev(struct cl *c, const char *path) {
	char b[600];
	uint16_t l = (uint16_t)(strlen(path) + 1);
	memcpy(b, &l, 2);
	memcpy(b + 2, path, l);
	cl_req(c, CLIENT_OPEN_DEVICE, b, 2 + l);
}
static void cl_int(struct cl *c, int op, int v) { cl_req(c, op, &v, 4); }
static void cl_fill(struct cl *c) {
	for (;;) {
		char cb[CMSG_SPACE(64 * sizeof(int))];
		struct iovec v = {c->buf + c->n, sizeof c->buf - c->n};
		struct msghdr m = {.msg_iov = &v, .msg_iovlen = 1, .msg_control = cb, .msg_controllen = sizeof cb};
		ssize_t r = recvmsg(c->fd, &m, MSG_DONTWAIT | MSG_CMSG_CLOEXEC);
		if (r == 0) c->eof = 1;
		if (r < 0 && errno == ECONNRESET) c->eof = 1;
		if (r <= 0) return;
		c->n += (size_t)r;
		for (struct cmsghdr *h = CMSG_FIRSTHDR(&m); h; h = CMSG_NXTHDR(&m, h))
			if (h->cmsg_type == SCM_RIGHTS) {
				int k = (int)((h->cmsg_len - CMSG_LEN(0)) / sizeof(int));
				memcpy(c->fds + c->nfds, CMSG_DATA(h), (size_t)k * sizeof(int));
				c->nfds += k;
			}
	}
}
// next message: opcode or 0; *arg gets a 4-byte body
static int cl_next(struct cl *c, int *arg) {
	cl_fill(c);
	uint16_t h[2];
	if (c->n < 4) return 0;
	memcpy(h, c->buf, 4);
	if (c->n < 4u + h[1]) return 0;
	if (arg && h[1] == 4) memcpy(arg, c->buf + 4, 4);
	memmove(c->buf, c->buf + 4 + h[1], c->n - 4 - h[1]);
	c->n -= 4u + h[1];
	if (h[0] == SERVER_ENABLE_SEAT) c->enabled = 1;
	if (h[0] == SERVER_DISABLE_SEAT) c->enabled = 0;
	return h[0];
}
// skip to a given message; 0 if it is not there
static int cl_expect(struct cl *c, int op, int *arg) {
	int m;
	while ((m = cl_next(c, arg)))
		if (m == op) return 1;
	return 0;
}
static int cl_fd(struct cl *c) {
	if (!c->nfds) return -1;
	int f = c->fds[0];
	memmove(c->fds, c->fds + 1, sizeof(int) * (size_t)--c->nfds);
	return f;
}
static void cl_close(struct cl *c) { close(c->fd); c->fd = -1; }
static int dev_live(int fd) {
	struct kdev *d = kdev_of(fd);
	return d && (d->kind == 1 ? d->master : d->kind == 2 ? !d->revoked : 1);
}
static int open_seat(struct cl *c) { cl_req(c, CLIENT_OPEN_SEAT, "", 0); pump(); return cl_expect(c, SERVER_SEAT_OPENED, NULL); }
static int nfds_open(void) {
	int n = 0;
	for (int i = 0; i < 1024; i++) n += fcntl(i, F_GETFD) != -1;
	return n;
}
#define CHECK(x) do { if (!(x)) { fprintf(stderr, "demo: %s:%d: %s does not hold\n", __FILE__, __LINE__, #x); exit(1); } } while (0)
